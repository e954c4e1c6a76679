#include "scen.h"

#include <cstdio>
#include <sstream>

namespace mc {

Str list_text(const Strs& v, const Str& sep) {
  Str r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + "'" + v[i] + "'";
  return r + "]";
}

Str nlp_file(const std::vector<NlpRow>& rows, bool prepunct) {
  Str r = prepunct ? "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags\n"
                   : "token|speaker|ts|endTs|punctuation|case|tags|wer_tags\n";
  for (auto& x : rows)
    if (!x.mark) r += x.token + "|" + x.speaker + "|" + x.ts + "|" + x.endTs + "|" + x.punct + "|" +
         (prepunct ? x.prepunct + "|" : "") + x.casing + "|" + list_text(x.tags) + "|" + list_text(x.wer_tags) + "\n";
  return r;
}

std::vector<NlpRow> with_marks(const std::vector<NlpRow>& rows) {
  std::vector<NlpRow> r;
  for (size_t i = 0; i < rows.size(); i++) {
    auto& x = rows[i];
    r.push_back(x);
    if (x.punct.empty()) continue;
    NlpRow m(x.punct, x.speaker);
    m.casing = "";
    m.mark = true;
    // inside a labelled stretch the mark is part of it
    if (!x.tags.empty() && i + 1 < rows.size() && rows[i + 1].tags == x.tags) m.tags = x.tags, m.wer_tags = x.wer_tags;
    r.push_back(m);
  }
  return r;
}

Strs tokens(const std::vector<NlpRow>& rows) {
  Strs r;
  for (auto& x : rows) r.push_back(x.token);
  return r;
}

Str ctm_file(const std::vector<CtmRow>& rows) {
  Str r;
  char buf[400];
  for (auto& x : rows) {
    snprintf(buf, sizeof buf, "rec 1 %.4f %.4f %s%s%s\n", x.start, x.dur, x.word.c_str(), x.conf.empty() ? "" : " ",
             x.conf.c_str());
    r += buf;
  }
  return r;
}

std::vector<CtmRow> ctm_rows(const Strs& words) {
  std::vector<CtmRow> r;
  // binary fractions: exact in float and with four decimals
  for (size_t i = 0; i < words.size(); i++) r.push_back({i * 4 + 1.25, 0.5 + 0.0625 * (i % 8), words[i], ""});
  return r;
}

Str as_format(const Strs& words, const Str& fmt) {
  if (fmt == "txt") return txt(words);
  if (fmt == "ctm") return ctm_file(ctm_rows(words));
  std::vector<NlpRow> r;
  for (auto& w : words) r.push_back(NlpRow(w));
  return nlp_file(r);
}

Str Opts::text() const {
  return sub + " " + approach + (approx ? "" : " no-first-pass") + (extra.empty() ? "" : " " + join(extra));
}

Str log_after(const Str& log, const Str& marker) {
  size_t p = log.find(marker);
  if (p == Str::npos) return "";
  p += marker.size();
  size_t e = log.find('\n', p);
  return log.substr(p, e == Str::npos ? e : e - p);
}

Run execute(Explorer& ex, const Input& in, int timeout_s) {
  Run r;
  Cmd& c = r.cmd;
  Str rn = "r." + in.rfmt, hn = "h." + in.hfmt;
  c.args = {in.o.sub, "--ref", rn, "--hyp", hn, "--composition-approach", in.o.approach};
  if (in.o.sub == "wer") {
    c.args.insert(c.args.end(), {"--json-log", "o.json", "--output-sbs", "o.sbs"});
    c.outputs = {"o.json", "o.sbs"};
  }
  if (in.want_nlp || in.o.sub == "align") {
    c.args.insert(c.args.end(), {"--output-nlp", "o.nlp"});
    c.outputs.push_back("o.nlp");
  }
  if (!in.o.approx) c.args.push_back("--disable-approx-alignment");
  c.args.insert(c.args.end(), in.o.extra.begin(), in.o.extra.end());
  c.files = in.more;
  c.files[rn] = in.ref;
  c.files[hn] = in.hyp;
  ex.replay(c);
  r.out = run(c, timeout_s);
  if (r.out.timeout) r.out = run(c, timeout_s * 4);  // alone and longer, before calling it a hang
  if (!r.out.ok()) {
    r.problem = "the program failed: " + r.out.why();
    return r;
  }
  if (in.o.sub == "wer") {
    if (!r.out.has("o.sbs") || !r.out.has("o.json")) {
      r.problem = "an output file is missing";
      return r;
    }
    r.sbs = parse_sbs(r.out.files["o.sbs"]);
    if (!r.sbs.ok) {
      r.problem = "unreadable side-by-side file: " + r.sbs.problem;
      return r;
    }
    r.rows = r.sbs.rows;
    if (!parse_json(r.out.files["o.json"], &r.json)) {
      r.problem = "unreadable JSON log";
      return r;
    }
    r.wer = r.json["wer"];
    r.best = json_wer(r.wer["bestWER"]);
    if (!r.best.present) {
      r.problem = "no bestWER in the JSON log";
      return r;
    }
  }
  if (in.want_nlp || in.o.sub == "align") {
    if (!r.out.has("o.nlp")) {
      r.problem = "no aligned NLP output";
      return r;
    }
    r.nlp = parse_nlp(r.out.files["o.nlp"]);
    if (!r.nlp.ok) {
      r.problem = "empty aligned NLP output";
      return r;
    }
  }
  {
    Str a = log_after(r.out.log, "best WER: ");
    size_t b = r.out.log.find("best WER: INS:");
    size_t p = r.out.log.find("best WER: Precision:");
    char w[100] = "", pr[100] = "", rc[100] = "";
    if (sscanf(a.c_str(), "%d/%d = %99s", &r.log_err, &r.log_words, w) == 3 && b != Str::npos && p != Str::npos &&
        sscanf(r.out.log.c_str() + b, "best WER: INS:%d DEL:%d SUB:%d", &r.log_ins, &r.log_del, &r.log_sub) == 3 &&
        sscanf(r.out.log.c_str() + p, "best WER: Precision:%99s Recall:%99s", pr, rc) == 2) {
      r.log_ok = true;
      r.log_wer = w;
      r.log_prec = pr;
      r.log_rec = rc;
    }
  }
  r.ok = true;
  return r;
}

Input Plain::input() const {
  Input in;
  in.rfmt = rfmt;
  in.hfmt = hfmt;
  in.ref = as_format(ref, rfmt);
  in.hyp = as_format(hyp, hfmt);
  in.o = o;
  return in;
}

void edit_space(const Strs& base, int k, const Strs& news, const std::function<void(const Strs&)>& f) {
  std::set<Strs> seen, cur = {base};
  seen.insert(base);
  f(base);
  for (int d = 0; d < k; d++) {
    std::set<Strs> nx;
    for (auto& s : cur)
      for (size_t i = 0; i <= s.size(); i++) {
        auto put = [&](const Strs& t) {
          if (seen.insert(t).second) nx.insert(t);
        };
        for (auto& n : news) {
          Strs t = s;
          t.insert(t.begin() + i, n);
          put(t);
          if (i < s.size() && s[i] != n) {
            t = s;
            t[i] = n;
            put(t);
          }
        }
        if (i < s.size()) {
          Strs t = s;
          t.erase(t.begin() + i);
          put(t);
        }
      }
    for (auto& t : nx) f(t);
    cur = nx;
  }
}

static Strs pattern(const Str& kind, int n) {
  Strs r;
  for (int i = 0; i < n; i++) {
    if (kind == "distinct")
      r.push_back("w" + std::to_string(i));
    else if (kind == "same")
      r.push_back("a");
    else if (kind == "ab")
      r.push_back(i % 2 ? "b" : "a");
    else if (kind == "aab")
      r.push_back(i % 3 == 2 ? "b" : "a");
  }
  return r;
}

void plain_space(Explorer& ex, const PlainScale& s, const std::function<Str(const Plain&)>& body) {
  auto go = [&](const Str& fam, const Strs& r, const Strs& h, const Str& rf, const Str& hf, const Str& ap, bool approx,
                const Strs& extra = {}) {
    if (rf == "nlp" && r.empty()) return;  // an NLP transcript without rows: see the robustness check
    if (hf == "nlp" && h.empty()) return;
    if (r.empty() && h.empty()) return;
    Plain p;
    p.family = fam;
    p.ref = r;
    p.hyp = h;
    p.rfmt = rf;
    p.hfmt = hf;
    p.o.approach = ap;
    p.o.approx = approx;
    p.o.extra = extra;
    ex.visit(fam, [&]() { return body(p); });
  };
  Strs al = {"a", "b", "c", "d"};
  // every pair of transcripts up to renaming, in every configuration
  sequence_pairs_canonical({"a", "b", "c"}, 0, s.tiny, 0, s.tiny, [&](const Strs& r, const Strs& h) {
    for (auto rf : {"txt", "ctm", "nlp"})
      for (auto hf : {"txt", "ctm", "nlp"})
        for (auto ap : {"adapted", "standard"}) go("all configurations, short", r, h, rf, hf, ap, true);
  });
  // deeper in the main configurations
  Strs da(al.begin(), al.begin() + s.deep_symbols);
  sequence_pairs_canonical(da, 0, s.deep, 0, s.deep, [&](const Strs& r, const Strs& h) {
    if ((int)r.size() <= s.tiny && (int)h.size() <= s.tiny && s.deep_symbols <= 3) return;
    go("main configurations, medium", r, h, "txt", "ctm", "adapted", true);
    go("main configurations, medium", r, h, "nlp", "txt", "adapted", true);
    go("main configurations, medium", r, h, "txt", "txt", "standard", true);
  });
  // words with other signs than letters
  {
    Strs odd = {"1.5", "u.s.", "don't", "o'", "$10", "a/b", "\"q\"", "\"", "#1", "%d", "50%", "co,ma", "a_b", "x:y", "{k}", "[z", "a&b", "back\\slash", "(", "...", "?", ",", "*", "+", "=", "@me", "~", "\xC3\xA9t\xC3\xA9", "\xE2\x80\xA6", "wer", "null", "0", "7"};
    size_t turn = 0;
    Strs fr = {"txt", "ctm", "nlp"}, fh = {"ctm", "ctm", "nlp", "txt"};
    for (size_t i = 0; i < odd.size(); i++) {
      const Str &w = odd[i], &u = odd[(i + 7) % odd.size()];
      for (auto& c : std::vector<std::pair<Strs, Strs>>{{{"a", w, "b"}, {"a", w, "b"}}, {{"a", w, "b"}, {"a", "b"}}, {{"a", w, "b"}, {"a", "x", "b"}},
                                                        {{"a", "b"}, {"a", w, "b"}}, {{w}, {w, w}}, {{w, u, "c"}, {w, "c"}}, {{w, u, w}, {w, w, u}},
                                                        {{"a", "x"}, {w, "x", u}}, {{"b", w}, {"b", u}}, {{w, "a", "d"}, {u, w, "d"}}})
        for (auto ap : {"adapted", "standard"}) {
          turn++;
          if (ex.thorough() || turn % 3 || s.tiny < 3) go("words with signs", c.first, c.second, fr[turn % 3], fh[turn % 4], ap, true);
        }
    }
  }
  // around the first pass' threshold (it only runs above 10 tokens on both sides)
  for (auto kind : {"distinct", "same", "ab", "aab"})
    for (int n : {10, 11, 13}) {
      Strs b = pattern(kind, n);
      Strs news = {Str(kind) == "distinct" ? "w3" : "b", "x"};
      int k = n == 11 ? s.edits : 1;
      edit_space(b, k, news, [&](const Strs& h) {
        go("first pass, few edits", b, h, "txt", "ctm", "adapted", true);
        if (n != 11 || k < 2 || Str(kind) == "aab") {
          go("first pass, few edits", b, h, "nlp", "txt", "adapted", true);
          go("first pass, few edits", b, h, "txt", "nlp", "adapted", true);
          go("first pass, few edits", b, h, "ctm", "ctm", "standard", true);
          go("first pass, few edits", h, b, "ctm", "ctm", "adapted", true);
          if (s.approx_off) go("first pass off", b, h, "txt", "ctm", "adapted", false);
        }
        if (Str(kind) == "distinct")
          for (auto c : {"0", "1", "2"})
            go("first pass, error streak limit", b, h, "txt", "ctm", "adapted", true,
               {"--levenstein-max-error-streak", c});
      });
    }
  // as long as real transcripts, with a few edits
  for (int n : {400, 2000})
    for (auto kind : {"distinct", "aab", "words"})
      for (int k = 0; k < 5; k++) {
        if (!s.longs && (n > 400 || Str(kind) == "distinct")) continue;
        Strs b, h;
        if (Str(kind) == "words")
          for (int i = 0; i < n; i++) b.push_back("w" + std::to_string(i * 7919 % 1013 % 97));
        else
          b = pattern(kind, n);
        for (int i = 0; i < n; i++) {
          bool at = k && (i % (n / (2 * k)) == n / (4 * k) || i == n - 1);
          int op = (i + k) % 3;
          if (at && op == 1) h.push_back("x");
          if (at && op == 2) h.push_back(b[(i + 3) % n]);
          if (!at || op == 1) h.push_back(b[i]);
        }
        if (k == 2) h.push_back("x"), h.push_back(b[n / 2]);
        if (k == 3) h.insert(h.begin(), "x");
        go("very long", b, h, "txt", "ctm", "adapted", true);
        go("very long", h, b, "ctm", "nlp", "adapted", true);
        if (n == 400 && k % 2) go("very long", b, h, "ctm", "txt", "standard", true);
      }
  if (!s.longs) return;
  // beyond the walker's pruning period and the printing limit, blocks of errors
  // of every length at the start, middle and end
  for (int n : {55, 101, 130})
    for (auto kind : {"distinct", "ab"})
      for (int op = 0; op < 3; op++)
        for (int len : {0, 1, 2, 10, 19, 20, 21, 22, 40})
          for (int pos : {0, 5, n / 2, n - len - 1, n - len}) {
            if (pos < 0 || pos + len > n) continue;
            if (len == 0 && (op || pos)) continue;
            Strs b = pattern(kind, n), h;
            for (int i = 0; i < n; i++) {
              bool in = i >= pos && i < pos + len;
              if (!in || op == 2) h.push_back(b[i]);
              if (in && op) h.push_back("x" + std::to_string(i % 7));
            }
            go("long", b, h, "txt", "ctm", "adapted", true);
            if (pos == 5 || pos == n - len) {
              go("long", b, h, "nlp", "txt", "adapted", true);
              go("long", b, h, "txt", "ctm", "standard", true);
            }
          }
  // error streaks around the default limit of 100
  for (int op = 0; op < 3; op++)
    for (int len : {99, 100, 101, 102})
      for (int pos : {0, 6, 12}) {
        int n = len + 12;
        Strs b = pattern("distinct", n), h;
        for (int i = 0; i < n; i++) {
          bool in = i >= pos && i < pos + len;
          if (!in || op == 2) h.push_back(b[i]);
          if (in && op) h.push_back("x" + std::to_string(i % 7));
        }
        go("long error streak", b, h, "txt", "ctm", "adapted", true);
        go("long error streak", h, b, "txt", "ctm", "adapted", true);
      }
}

void block_space(Explorer& ex, int level, const std::function<Str(const Plain&)>& body) {
  auto word = [](const Str& s, int i) { return s + std::to_string(i); };
  for (int n : {8, 12, 16, 19, 20, 21, 30, 50, 60, 80})
    for (int pre : {0, 12, 20, 28, 36, 44, 52})
      for (int k : {1, 3, 6, 12}) {
        if (k >= n || (n > 20 && pre > 20) || (n > 21 && k > 6)) continue;
        if (level < 2 && (n == 30 || n == 60)) continue;
        Strs s2, s1, one, two;
        for (int i = 0; i < n; i++) s2.push_back(word("w", i));
        s1 = s2;
        for (int j = 0; j < k; j++) s1[(j + 1) * n / (k + 1)] = word("z", j);
        for (int i = 0; i < pre; i++) one.push_back(word("p", i));
        two = one;
        one.insert(one.end(), s2.begin(), s2.end());
        two.insert(two.end(), s1.begin(), s1.end());
        two.insert(two.end(), s2.begin(), s2.end());
        for (int i = 0; i < 30 || i < n; i++) one.push_back(word("t", i)), two.push_back(word("t", i));
        for (int sw = 0; sw < 2; sw++)
          for (auto ap : {"adapted", "standard"})
            for (bool approx : {true, false}) {
              Plain p{"repeated block", sw ? one : two, sw ? two : one, "txt", "ctm", {}};
              p.o.approach = ap;
              p.o.approx = approx;
              ex.visit(p.family, [&]() { return body(p); });
            }
      }
}

bool end_marker_explains(const Strs& ref, const Strs& hyp, int errors) {
  int L = levenshtein(ref, hyp);
  if (errors == L) return true;
  if (errors != L + 1 || ref.empty()) return false;
  // the reported alignment deletes the last reference word although aligning it
  // would save one error
  return levenshtein(Strs(ref.begin(), ref.end() - 1), hyp) == L;
}

bool end_marker_signature(const Strs& ref, const Strs& hyp, const Run& r) {
  int L = levenshtein(ref, hyp);
  if (r.best.err == L) return true;
  if (r.best.err != L + 1) return false;
  for (int i = (int)r.rows.size() - 1; i >= 0; i--)
    if (r.rows[i].ref != "<ins>") return r.rows[i].hyp == "<del>";
  return false;
}
}  // namespace mc
