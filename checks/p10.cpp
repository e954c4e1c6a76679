// P10: the same words give the same result however the files that carry them are written.
#include "spaces.h"
using namespace mc;

struct Base {
  std::vector<NlpRow> rows;
  Strs hyp;
  Str ap = "adapted";
};

// a table of named cells, written with any column order, padding and line ends
struct Table {
  Strs cols;
  std::vector<std::map<Str, Str>> rows;
  Str text(const Str& pad = "", const Str& eol = "\n", bool last = true) const {
    Str r;
    auto line = [&](const std::function<Str(const Str&)>& cell, bool end) {
      for (size_t i = 0; i < cols.size(); i++) r += (i ? "|" : "") + pad + cell(cols[i]) + pad;
      if (end) r += eol;
    };
    line([](const Str& c) { return c; }, true);
    for (size_t i = 0; i < rows.size(); i++)
      line([&](const Str& c) { auto it = rows[i].find(c); return it == rows[i].end() ? Str("") : it->second; }, i + 1 < rows.size() || last);
    return r;
  }
};
static const Strs kCols = {"token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags"};

static Table table(const std::vector<NlpRow>& rows) {
  Table t;
  t.cols = kCols;
  for (auto& x : rows)
    t.rows.push_back({{"token", x.token}, {"speaker", x.speaker}, {"ts", x.ts}, {"endTs", x.endTs}, {"punctuation", x.punct},
                      {"prepunctuation", x.prepunct}, {"case", x.casing}, {"tags", list_text(x.tags)}, {"wer_tags", list_text(x.wer_tags)}});
  return t;
}

struct Ways {  // texts of one word sequence
  Str name, text;
};

static std::vector<Ways> txt_ways(const Strs& w, bool deep) {
  std::vector<Ways> r;
  for (Str sep : {" ", "\n", "\t", "  ", "\r\n", " \n ", "\v", "\f", "\n\n"})
    for (Str lead : {"", " ", "\n", "\t"})
      for (Str tail : {"", "\n", " \n", "\r\n", "\n\n", "\t"}) {
        if (!deep && !lead.empty() && !(tail == "\n" || tail == "")) continue;
        r.push_back({"whitespace", lead + join(w, sep) + tail});
      }
  return r;
}

static std::vector<Ways> ctm_ways(const Strs& w, bool deep) {
  std::vector<Ways> r;
  auto rows = ctm_rows(w);
  auto put = [&](const Str& name, const Str& rec, const Str& ch, const char* num, const Str& conf, const Str& eol, bool last, int blank) {
    Str t;
    if (blank == 4) t = eol + eol;
    char a[60], b[60];
    for (size_t i = 0; i < rows.size(); i++) {
      snprintf(a, sizeof a, num, rows[i].start);
      snprintf(b, sizeof b, num, rows[i].dur);
      t += rec + " " + ch + " " + a + " " + b + " " + rows[i].word + (conf.empty() ? "" : " " + conf);
      if (i + 1 < rows.size() || last) t += eol;
      if (blank && (int)(i % 3) == blank - 1 && blank < 4 && (i + 1 < rows.size() || last)) t += eol;
    }
    r.push_back({name, t});
  };
  for (Str eol : {"\n", "\r\n"})
    for (bool last : {true, false})
      for (int blank = 0; blank < 5; blank++)
        for (Str conf : {"", "1", "0.25"}) put("lines", "rec", "1", "%.4f", conf, eol, last, blank);
  for (auto num : {"%.6f", "%09.4f", "%.9e", "%g"})
    for (Str rec : {"rec", "/path/to-a.wav", "1", "#1", ";;rec", "\"a", "'", "//", "\xC3\xA9%"})
      for (Str ch : {"1", "A", "0", "#"}) put("columns", rec, ch, num, "", "\n", true, 0);
  return r;
}

// fields the variant leaves out are empty in the file it has to agree with
static std::vector<Ways> nlp_ways(const Table& t, bool deep) {
  std::vector<Ways> r;
  for (Str eol : {"\n", "\r\n"})
    for (bool last : {true, false})
      for (Str pad : {"", " ", "\t", "  "}) r.push_back({"cells", t.text(pad, eol, last)});
  size_t n = t.cols.size();
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++) {
      Table u = t;
      std::swap(u.cols[i], u.cols[j]);
      r.push_back({"column order", u.text()});
    }
  for (size_t k = 1; k < n; k++) {
    Table u = t;
    std::rotate(u.cols.begin(), u.cols.begin() + k, u.cols.end());
    r.push_back({"column order", u.text()});
    std::reverse(u.cols.begin(), u.cols.end());
    r.push_back({"column order", u.text()});
  }
  for (size_t k = 0; k <= n; k++)
    for (Str extra : {"remark", "tokens", "oldTs"}) {
      Table u = t;
      u.cols.insert(u.cols.begin() + k, extra);
      for (size_t i = 0; i < u.rows.size(); i++) u.rows[i][extra] = extra == "oldTs" ? "3.5" : i % 2 ? "other" : "";
      r.push_back({"further column", u.text()});
    }
  return r;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one way to write the reference or the hypothesis (white space, line ends, column order, missing and further "
           "columns, padding, number formats, file name, the three file formats), run and compared with the plain way of the same words; "
           "distinct = outcome classes by kind of variation";
  return main_loop(c, v, "P10", [&](Explorer& ex) {
    bool deep = ex.thorough();
    // transcripts of every kind the outputs depend on
    std::vector<Base> bases;
    auto add = [&](const Strs& ref, const Strs& hyp, int style, const Str& ap = "adapted") {
      Base b;
      b.ap = ap;
      b.hyp = hyp;
      for (size_t i = 0; i < ref.size(); i++) {
        NlpRow x(ref[i]);
        if (style) {
          x.speaker = (i / 2) % 2 ? "2" : "1";
          x.ts = i % 2 ? "1.5" : "";
          x.endTs = i % 3 ? "2.25" : "";
          x.punct = i % 4 == 1 ? "." : i % 4 == 3 ? "," : "";
          x.prepunct = i % 5 == 2 ? "(" : "";
          if (i % 3 == 1) x.wer_tags = {"7", "9"};
          if (style == 2 && i % 3 == 0) x.tags = {std::to_string(i) + ":X"};
        }
        b.rows.push_back(x);
      }
      bases.push_back(b);
    };
    Strs long_ref, long_hyp;
    for (int i = 0; i < 12; i++) long_ref.push_back("w" + std::to_string(i)), long_hyp.push_back(i == 4 ? "q" : "w" + std::to_string(i));
    long_hyp.erase(long_hyp.begin() + 8);
    add({"a"}, {"a"}, 0);
    add({"a", "b", "c"}, {"a", "x", "c"}, 0);
    add({"a", "b", "a"}, {"b"}, 0, "standard");
    add({"a", "b", "c", "d", "e"}, {"a", "c", "x", "d", "e", "e"}, 1);
    add({"a", "b", "c", "d", "e"}, {"z", "a", "b", "d"}, 2);
    add({"a", "b", "c", "d", "e"}, {"a", "y", "c", "d", "e", "z"}, 2, "standard");
    add(long_ref, long_hyp, 1);
    add(long_ref, long_hyp, 0, "standard");

    std::map<Str, Str> seen;
    auto signature = [&](const Input& in, Str* sig) -> Str {
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      ex.states(r.rows.size() + 1);
      ex.transitions(r.rows.size());
      if (count_rows(r.rows).errors()) ex.nontrivial();
      *sig = r.out.files["o.sbs"] + "\n" + r.wer.toStyledString() + "\n";
      if (in.want_nlp)
        for (auto& row : r.nlp.rows) {
          // the confidence is the hypothesis' own
          Strs x = row;
          for (size_t i = 0; i < r.nlp.header.size() && i < x.size(); i++)
            if (r.nlp.header[i] == "confidence") x[i] = "";
          *sig += join(x, "|") + "\n";
        }
      return "";
    };
    auto compare = [&](const Str& key, const Input& plain, const Input& variant, const Str& name) -> Str {
      ex.outcome(name);
      Str a, b;
      if (!seen.count(key)) {
        Str t = signature(plain, &a);
        if (!t.empty()) return t;
        seen[key] = a;
      }
      Str t = signature(variant, &b);
      if (!t.empty()) return t;
      return seen[key] == b ? "" : "another result for the same words written differently (" + name + ")";
    };
    // one transcript in the three formats: the reference's words are all that counts
    auto formats = [&](const Base& b, const Str& fam) {
      Strs words = tokens(b.rows);
      for (auto hf : {"ctm", "txt", "nlp"})
        for (auto rf : {"txt", "ctm", "nlp"})
          ex.visit(fam, [&]() -> Str {
            ex.outcome(fam);
            auto run = [&](const Str& r, const Str& h) {
              Input in;
              in.rfmt = r;
              in.hfmt = h;
              in.ref = as_format(words, r);
              in.hyp = as_format(b.hyp, h);
              in.o.approach = b.ap;
              return execute(ex, in);
            };
            Run x = run("txt", fam == "formats" ? hf : "txt"), y = run(rf, hf);
            if (!x.ok) return x.problem;
            if (!y.ok) return y.problem;
            ex.trace();
            if (count_rows(y.rows).errors()) ex.nontrivial();
            if (x.wer["bestWER"] != y.wer["bestWER"]) return "other totals for the same words in another format";
            if (x.sbs.rows.size() != y.sbs.rows.size()) return "another alignment for the same words in another format";
            Strs rw, hw;
            for (size_t i = 0; i < x.rows.size(); i++) {
              if (x.rows[i].ref != y.rows[i].ref || x.rows[i].hyp != y.rows[i].hyp) return "another alignment for the same words in another format";
              if (x.rows[i].ref != "<ins>") rw.push_back(x.rows[i].ref);
              if (x.rows[i].hyp != "<del>") hw.push_back(x.rows[i].hyp);
            }
            if (fam != "formats" && (rw != words || hw != b.hyp)) return "the alignment is not about the words of the files";
            if (x.wer["unigrams"] != y.wer["unigrams"]) return "other unigram statistics for the same words in another format";
            return "";
          });
    };
    // words that start, end with, or consist of signs a reader could take for its own
    for (auto& w : Strs{"\"b\"", "\"b", "b\"", "b\"c\"", "'b'", "'b", "b'", "''", "\"\"", "\"", "'", "#b", "#", "b#", "//b", "//", ";;b", ";", ";b", "b;", "b,c", ",", ",b",
                        "b:c", ":", "b\\", "\\", "\\n", "%b", "%", "b%", "$b", "@b", "*", "&b", "!b", "b!", "b?", "?", "[b]", "[", "]", "(b)", "{b}", "{", "}",
                        "=b", "+b", "~b", "^", "`b`", "b/c", "/b", "null", "true", "nan", "0", "007", "1.5", "1e5", "-5", "\xEF\xBB\xBF"
                        "b", "\xC2\xA0", "\xE2\x80\x9C"
                        "b\xE2\x80\x9D"})
      for (int k = 0; k < (deep ? 6 : 3); k++) {
        Strs ref = k % 3 == 0 ? Strs{"a", w, "c"} : k % 3 == 1 ? Strs{w, "a", "c"} : Strs{"a", "c", w};
        Strs hyp = k < 3 ? ref : Strs{"a", "x", w};
        if (k % 3 == 2) hyp[0] = "y";
        Base b;
        b.hyp = hyp;
        b.ap = k % 2 ? "standard" : "adapted";
        for (auto& x : ref) b.rows.push_back(NlpRow(x));
        formats(b, "words with signs");
      }
    for (size_t bi = 0; bi < bases.size(); bi++) {
      const Base& b = bases[bi];
      Strs words = tokens(b.rows);
      Str id = std::to_string(bi);
      auto plain = [&](const Str& rf, const Str& hf) {
        Input in;
        in.rfmt = rf;
        in.hfmt = hf;
        in.ref = rf == "nlp" ? table(b.rows).text() : as_format(words, rf);
        in.hyp = as_format(b.hyp, hf);
        in.o.approach = b.ap;
        in.want_nlp = rf == "nlp";
        return in;
      };
      auto vary = [&](const Str& rf, const Str& hf, bool of_ref, const std::vector<Ways>& ways) {
        for (auto& w : ways)
          ex.visit((of_ref ? "reference " : "hypothesis ") + (of_ref ? rf : hf), [&]() {
            Input p = plain(rf, hf), q = p;
            (of_ref ? q.ref : q.hyp) = w.text;
            return compare(id + rf + hf, p, q, (of_ref ? rf : hf) + ": " + w.name);
          });
      };
      vary("txt", "ctm", true, txt_ways(words, deep));
      vary("ctm", "txt", false, txt_ways(b.hyp, deep));
      vary("ctm", "ctm", true, ctm_ways(words, deep));
      vary("nlp", "ctm", false, ctm_ways(b.hyp, deep));
      vary("nlp", "ctm", true, nlp_ways(table(b.rows), deep));
      {
        std::vector<NlpRow> hr;
        for (auto& w : b.hyp) hr.push_back(NlpRow(w));
        // the same cells as the plain hypothesis
        for (auto& w : nlp_ways(table(hr), deep))
          ex.visit("hypothesis nlp", [&]() {
            Input p = plain("nlp", "nlp"), q = p;
            p.hyp = table(hr).text();
            q.hyp = w.text;
            return compare(id + "nlpnlp", p, q, "nlp: " + w.name);
          });
      }
      // every set of columns, against the file with these cells empty
      if (b.rows.size() > 1)
        for (int mask = 1; mask < 256; mask++) {
          if (!deep && bi > 3 && mask % 7 != (int)bi % 7 && (mask & (mask - 1))) continue;
          ex.visit("missing columns", [&]() {
            Table t = table(b.rows), full = t;
            for (int k = 0; k < 8; k++)
              if (mask >> k & 1) {
                t.cols.erase(std::find(t.cols.begin(), t.cols.end(), kCols[k + 1]));
                for (auto& r : full.rows) r[kCols[k + 1]] = "";
              }
            Input p = plain("nlp", "ctm"), q = p;
            p.ref = full.text();
            q.ref = t.text();
            return compare(id + "cols" + std::to_string(mask), p, q, "nlp: missing columns");
          });
        }
      // lists of tags written with other spaces
      if (bi >= 3)
        for (Str sep : {",", ", ", ",  "}) {
          ex.visit("tag lists", [&]() {
            Table t = table(b.rows);
            for (size_t i = 0; i < b.rows.size(); i++) {
              t.rows[i]["wer_tags"] = list_text(b.rows[i].wer_tags, sep);
              auto tg = b.rows[i].tags;
              t.rows[i]["tags"] = list_text(tg, sep);
            }
            Input p = plain("nlp", "ctm"), q = p;
            p.want_nlp = q.want_nlp = false;
            q.ref = t.text();
            return compare(id + "tags", p, q, "nlp: tag list spacing");
          });
        }
      // the name of a file only counts by its extension, in any letter case
      for (Str rf : {"txt", "TXT", "text", "stm", "CTM", "Ctm", "NLP", "nLp", "ctm", "nlp", "a.ctm", "ctm.txt", "nlp.txt", "ctm.nlp"})
        for (Str hf : {"txt", "TXT", "text", "CTM", "cTm", "NLP", "Nlp", "nlp.ctm", "ctm.nlp", "nlp.txt"}) {
          ex.visit("file names", [&]() {
            auto kind = [](const Str& f) {
              Str l = lower_ascii(f);
              return ends(l, "ctm") ? Str("ctm") : ends(l, "nlp") ? Str("nlp") : Str("txt");
            };
            Input p = plain(kind(rf), kind(hf)), q = p;
            q.rfmt = rf;
            q.hfmt = hf;
            return compare(id + kind(rf) + kind(hf) + "n", p, q, "file names");
          });
        }
      // one transcript in the three formats
      formats(b, "formats");
    }
  }, m);
}
