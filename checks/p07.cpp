// P07: cut-off words, hyphenated compounds and tags get their synonyms by themselves.
#include "spaces.h"
using namespace mc;

// the rules the words of both transcripts imply
static std::vector<Rule> implied(const Strs& ref, const Strs& hyp, const std::vector<Rule>& user, bool cut, bool compound) {
  std::vector<Rule> r;
  auto add = [&](const Strs& l, const Strs& alt) {
    for (auto* set : {&user, (const std::vector<Rule>*)&r})
      for (auto& q : *set)
        if (q.lhs == l) return;
    r.push_back({l, {alt}});
  };
  Strs all = ref;
  all.insert(all.end(), hyp.begin(), hyp.end());
  for (auto& w : all) {
    size_t h = w.find('-');
    if (w.size() > 2 && w[0] == '<' && w.back() == '>' && w != "<unk>") add({w}, {"<unk>"});
    if (h == Str::npos) continue;
    if (h + 1 == w.size()) {
      if (cut && h) add({w}, {w.substr(0, h)});
    } else if (compound) {
      Strs parts;  // hyphens at the ends or in a row leave no part between them
      for (auto& x : split_on(w, '-'))
        if (!x.empty()) parts.push_back(x);
      if (parts.empty()) continue;
      add({w}, parts);
      add(parts, {w});
    }
  }
  return r;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; a model derives the synonyms the words of both transcripts imply and replays the alignment "
           "on the readings of the reference; distinct = outcome classes by what the synonyms change";
  return main_loop(c, v, "P07", [&](Explorer& ex) {
    auto judge = [&](const Rich& q, bool cut, bool compound) -> Str {
      Rich p = q;
      if (!cut) p.o.extra.push_back("--disable-cutoffs");
      if (!compound) p.o.extra.push_back("--disable-hyphen-ignore");
      Strs words = p.raw();
      if (p.rfmt == "nlp")
        for (auto& w : words) w = plain_tag(w);
      if (p.rfmt == "nlp" && p.give_norm)
        for (auto& n : p.norm)
          for (auto& a : n.second) words.insert(words.end(), a.begin(), a.end());
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      p.implied = implied(words, p.hyp, p.rules, cut, compound);
      return judge_readings(ex, p, r);
    };
    int n = 0;
    auto go = [&](const Str& fam, Rich p, int every) {
      n++;
      for (int k = 0; k < 4; k++) {
        if (every > 1 && (n + k) % every) continue;
        bool cut = !(k & 1), compound = !(k & 2);
        for (auto ap : {"adapted", "standard"}) {
          p.o.approach = ap;
          p.family = fam + (cut ? "" : ", cut-offs disabled") + (compound ? "" : ", compounds disabled");
          ex.visit(p.family, [&]() { return judge(p, cut, compound); });
        }
      }
    };
    auto rows = [](const Strs& w) {
      std::vector<NlpRow> r;
      for (auto& x : w) r.push_back(NlpRow(x));
      return r;
    };
    int L = ex.thorough() ? 3 : 2;
    // all short transcripts over words and their variants
    sequences({"a", "b", "a-", "a-b", "a-b-c"}, 1, 3, [&](const Strs& r) {
      bool hy = join(r).find('-') != Str::npos;
      sequences({"a", "b", "c", "a-", "a-b", "b-a"}, 0, L, [&](const Strs& h) {
        if (!hy && join(h).find('-') == Str::npos) return;
        if (r.size() == 3 && h.size() == 3 && !ex.thorough()) return;
        Rich p;
        p.give_norm = false;
        p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
        p.hfmt = n % 5 == 4 ? "txt" : "ctm";
        p.rows = rows(r);
        p.hyp = h;
        go("short", p, r.size() + h.size() > 3 && !ex.thorough() ? 4 : 1);
      });
      // every reading, as is and with an edit
      if (!hy) return;
      Rich p;
      p.give_norm = false;
      p.rows = rows(r);
      p.implied = implied(r, {"a-b", "b-a"}, {}, true, true);
      std::set<Strs> hs;
      for (auto& w : readings(p.lattice(), 30)) edit_space(w, ex.thorough() ? 1 : 0, {"b", "a-b"}, [&](const Strs& h) { hs.insert(h); });
      p.implied.clear();
      for (auto& h : hs) {
        p.hyp = h;
        p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
        go("readings", p, ex.thorough() ? 1 : 2);
      }
    });
    // hyphens at the ends and in a row
    sequences({"-a", "a-b-", "a--b", "--", "-", "a-", "b"}, 1, 2, [&](const Strs& r) {
      sequences({"a", "b", "-", "a-b-", "-a"}, 0, ex.thorough() ? 3 : 2, [&](const Strs& h) {
        Rich p;
        p.give_norm = false;
        p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
        p.hfmt = n % 5 == 4 ? "txt" : "ctm";
        p.rows = rows(r);
        p.hyp = h;
        go("hyphens at the ends", p, ex.thorough() ? 1 : 4);
      });
    });
    // words written with other signs than a hyphen have no variants
    for (auto& s : {"\xE2\x80\x93", "_", "/", ".", "'", "+", "\xE2\x80\x90", "~", "=", "\xC2\xAD"})
      for (auto& r : std::vector<Strs>{{"a*b"}, {"a", "b"}, {"a*"}, {"a"}, {"*a"}, {"x", "a*b", "y"}, {"x", "a*", "y"}, {"*"}})
        for (auto& h : std::vector<Strs>{{"a", "b"}, {"a*b"}, {"ab"}, {"a"}, {"a*"}, {"x", "a", "b", "y"}, {"x", "a", "y"}, {"*"}, {"a", "*"}, {}}) {
          auto put = [&](Strs w) {
            for (auto& x : w)
              if (x.find('*') != Str::npos) x.replace(x.find('*'), 1, s);
            return w;
          };
          Rich p;
          p.give_norm = false;
          p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
          p.hfmt = n % 5 == 4 ? "txt" : "ctm";
          p.rows = rows(put(r));
          p.hyp = put(h);
          go("other signs", p, ex.thorough() ? 1 : 4);
        }
    // rules given by the user take precedence over implied ones with the same left side
    for (auto& R : std::vector<std::vector<Rule>>{{{{"a-"}, {{"b"}}}}, {{{"a-b"}, {{"c"}}}}, {{{"a", "b"}, {{"c"}}}}, {{{"a"}, {{"a-b"}}}}, {{{"c"}, {{"a", "b"}}}}})
      sequences({"a", "b", "c", "a-", "a-b"}, 1, 2, [&](const Strs& r) {
        for (auto& h : std::vector<Strs>{{"a"}, {"b"}, {"c"}, {"a", "b"}, {"a-b"}, {"a-"}, {"c", "c"}, {"a-b", "a"}}) {
          Rich p;
          p.give_norm = false;
          p.rfmt = "txt";
          p.rows = rows(r);
          p.rules = R;
          p.hyp = h;
          go("with rules", p, 1);
        }
      });
    // inside the alternatives of labels
    for (auto& cand : std::vector<std::vector<Strs>>{{{"a-b"}}, {{"a", "b"}}, {{"c", "a-"}}, {}})
      for (auto& r : std::vector<Strs>{{"a-b"}, {"a", "b"}, {"x", "a-b", "y"}, {"x", "a-", "y"}})
        for (auto& h : std::vector<Strs>{{"a", "b"}, {"a-b"}, {"c", "a"}, {"x", "a", "b", "y"}, {"x", "a-b", "y"}, {"x", "a", "y"}, {"x", "c", "a", "y"}, {"a"}}) {
          Rich p;
          p.rows = rows(r);
          for (auto& w : p.rows)
            if (w.token[0] == 'a') w.tags = {"3:MONEY"};
          p.norm["3"] = cand;
          p.hyp = h;
          go("inside labels", p, 2);
        }
    // letters are compared without case, hyphens included; longer words; digits
    for (auto& q : std::vector<std::pair<Strs, Strs>>{{{"Long-Term"}, {"long", "TERM"}}, {{"LONG", "term"}, {"Long-term"}}, {{"Hello-"}, {"hELLO"}},
                                                      {{"twenty-one", "two-"}, {"twenty", "one", "two"}}, {{"4-5-6-7"}, {"4", "5", "6", "7"}},
                                                      {{"4", "5", "6", "7"}, {"4-5-6-7"}}, {{"\xC3\x89-a"}, {"\xC3\xA9", "A"}}})
      for (auto rf : {"txt", "nlp", "ctm"})
        for (auto hf : {"txt", "nlp", "ctm"})
          for (auto ap : {"adapted", "standard"})
            ex.visit("letter case", [&]() -> Str {
              Input in;
              in.rfmt = rf;
              in.hfmt = hf;
              in.ref = as_format(q.first, rf);
              in.hyp = as_format(q.second, hf);
              in.o.approach = ap;
              Run r = execute(ex, in);
              if (!r.ok) return r.problem;
              ex.trace();
              ex.nontrivial();
              ex.outcome("letter case");
              return r.best.err ? "the variants count as errors" : "";
            });
    // tags: the documentation makes <unk> a synonym of each
    for (auto& r : std::vector<Strs>{{"<laugh>"}, {"a", "<laugh>"}, {"<laugh>", "<cough>"}, {"a", "<foreign_word>", "b"},
                                      // no tags
                                      {"[laugh]"}, {"a", "[laugh]", "b"}, {"(laugh)"}, {"{laugh}", "b"}, {"a", "*laugh*", "b"}, {"%laugh"}, {"laugh"},
                                      {"<b>y"}, {"a", "<laugh"}, {"a", "laugh>", "b"}, {"x<laugh>", "b"}, {"<unk>y"}, {"<"}, {">"}, {"a", "<laugh>ter", "b"}})
      for (auto& h : std::vector<Strs>{{"<laugh>"}, {"<unk>"}, {"a", "<unk>"}, {"<unk>", "<unk>"}, {"a", "<unk>", "b"}, {"a", "b"}, {"a", "<cough>", "b"}, {"a", "<laugh>"}, {"laugh"}, {"a", "laugh", "b"}}) {
        Rich p;
        p.give_norm = false;
        p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
        p.rows = rows(r);
        p.hyp = h;
        go("tags", p, 2);
      }
    // the type of a tag in an NLP file is no part of the word
    for (auto& r : std::vector<Strs>{{"<laugh:x>"}, {"a", "<foreign:fr>"}, {"<laugh:x>", "<laugh:y>"}, {"a", "<laugh:>", "b"}, {"<laugh:x>", "<laugh>"}, {"a", "<x:y:z>", "b"},
                                     {"<laugh:x", "b"}, {"laugh:x>"}, {"a:b"}, {"x<laugh:x>"}, {"<laugh:x>y"}})
      for (auto& h : std::vector<Strs>{{"<laugh>"}, {"<foreign>"}, {"<unk>"}, {"a", "<unk>"}, {"<laugh>", "<laugh>"}, {"<unk>", "<unk>"}, {"a", "<unk>", "b"}, {"a", "b"}, {"a", "<laugh>", "b"},
                                       {"a", "<foreign>"}, {"<x>"}, {"a"}, {"<>"}}) {
        Rich p;
        p.give_norm = false;
        p.rows = rows(r);
        p.hyp = h;
        p.hfmt = Strs{"ctm", "txt", "nlp"}[n % 3];
        go("tags with a type", p, 1);
      }
    // long enough for the first pass
    Strs w = {"one", "two-", "one", "three-four", "five", "six", "six-two", "seven", "eight", "nine-", "ten", "eleven", "twelve"};
    Rich p;
    p.give_norm = false;
    p.rfmt = "txt";
    p.rows = rows(w);
    p.implied = implied(w, {}, {}, true, true);
    auto rs = readings(p.lattice(), 64);
    p.implied.clear();
    for (auto& r : rs)
      edit_space(r, 1, {"six"}, [&](const Strs& h) {
        p.hyp = h;
        p.hfmt = n % 3 ? "ctm" : "txt";
        p.o.approx = n % 7 != 0;
        go("long", p, ex.thorough() ? 1 : 8);
      });
  }, m);
}
