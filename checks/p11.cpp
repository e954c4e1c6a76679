// P11: letter case and punctuation take part in the alignment exactly when asked for.
#include "spaces.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with or without the case and punctuation options; the reference automaton is built from the words as "
           "written or in lower case, with or without one word per punctuation cell; distinct = outcome classes by options and formats";
  return main_loop(c, v, "P11", [&](Explorer& ex) {
    bool deep = ex.thorough();
    struct Side {
      std::vector<NlpRow> rows;
      Str fmt;
    };
    auto words = [](const Side& s, bool use_punct, bool use_case) {
      Strs r;
      for (auto& x : s.rows) {
        r.push_back(use_case ? x.token : lower_ascii(x.token));
        if (s.fmt == "nlp" && use_punct && !x.punct.empty()) r.push_back(x.punct);
      }
      return r;
    };
    auto file = [](const Side& s) { return s.fmt == "nlp" ? nlp_file(s.rows) : as_format(tokens(s.rows), s.fmt); };
    auto judge = [&](const Side& ref, const Side& hyp, bool up, bool uc, const Str& ap) -> Str {
      Input in;
      in.rfmt = ref.fmt;
      in.hfmt = hyp.fmt;
      in.ref = file(ref);
      in.hyp = file(hyp);
      in.o.approach = ap;
      if (up) in.o.extra.push_back("--use-punctuation");
      if (uc) in.o.extra.push_back("--use-case");
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      Strs rw = words(ref, up, uc), hw = words(hyp, up, uc);
      ex.states((rw.size() + 1) * (hw.size() + 1));
      ex.transitions(r.rows.size());
      int L = levenshtein(rw, hw);
      if (L) ex.nontrivial();
      ex.outcome(Str(up ? "punctuation " : "") + (uc ? "case " : "") + ref.fmt + "/" + hyp.fmt + (L ? " errors" : " equal"));
      Str t = validate_trace(Lattice::linear(rw), hw, r.rows);
      if (!t.empty()) return t;
      if (r.best.words != (int)rw.size()) return "counts " + std::to_string(r.best.words) + " reference words, not " + std::to_string(rw.size());
      bool marker = ap == "adapted" && hyp.fmt != "ctm";
      if (r.best.err != L && !(marker && end_marker_signature(rw, hw, r)))
        return "reports " + std::to_string(r.best.err) + " errors instead of " + std::to_string(L);
      return "";
    };
    Strs fmts = {"txt", "ctm", "nlp"};
    // letter case: every pair of transcripts over the spellings of two words
    Strs sp = {"ab", "Ab", "AB", "c", "C"};
    int n = 0;
    auto side = [](const Strs& w, const Str& f) {
      Side s;
      s.fmt = f;
      for (auto& x : w) s.rows.push_back(NlpRow(x));
      return s;
    };
    sequences(sp, 1, 2, [&](const Strs& r) {
      sequences(sp, 0, 2, [&](const Strs& h) {
        n++;
        for (auto& rf : fmts)
          for (auto& hf : fmts) {
            if (hf == "nlp" && h.empty()) continue;
            if (!deep && r.size() + h.size() > 2 && hf != fmts[n % 3]) continue;
            for (bool uc : {false, true})
              ex.visit("letter case", [&]() { return judge(side(r, rf), side(h, hf), false, uc, n % 4 ? "adapted" : "standard"); });
          }
      });
    });
    // every letter of several scripts
    for (auto& p : letter_pairs())
      for (int pos = 0; pos < 3; pos++) {
        auto word = [&](unsigned l) { return pos == 0 ? utf8(l) + "a" : pos == 1 ? "b" + utf8(l) + "a" : utf8(l) + utf8(l) + "z"; };
        Str up = word(p.first), lo = word(p.second);
        n++;
        for (int k = 0; k < (deep ? 3 : 1); k++) {
          Str rf = fmts[(n + k) % 3], hf = fmts[(n / 3 + k) % 3];
          for (bool uc : {false, true})
            for (bool swap : {false, true})
              ex.visit("letters", [&]() -> Str {
                Side r = side({"k", swap ? lo : up, "m"}, rf), h = side({"k", swap ? up : lo, "m"}, hf);
                Input in;
                in.rfmt = rf;
                in.hfmt = hf;
                in.ref = file(r);
                in.hyp = file(h);
                if (uc) in.o.extra = {"--use-case"};
                Run x = execute(ex, in);
                if (!x.ok) return x.problem;
                ex.trace();
                Strs rw = uc ? tokens(r.rows) : Strs{"k", lo, "m"}, hw = uc ? tokens(h.rows) : Strs{"k", lo, "m"};
                ex.states(16);
                ex.transitions(3);
                ex.outcome(Str(uc ? "case " : "") + "letters " + rf + "/" + hf);
                if (uc) ex.nontrivial();
                Str t = validate_trace(Lattice::linear(rw), hw, x.rows);
                if (!t.empty()) return t;
                if (x.best.err != (uc ? 1 : 0)) return "reports " + std::to_string(x.best.err) + " errors for words that differ in letter case only";
                return "";
              });
        }
      }
    // punctuation: every pattern over short references, hypotheses spell it out or carry it in their own column
    Strs marks = {"", ",", ".", "?"};
    for (int L = 1; L <= (deep ? 4 : 3); L++)
      sequences(marks, L, L, [&](const Strs& q) {
        Side ref;
        ref.fmt = "nlp";
        Strs spelled;
        const Strs ws = {"a", "b", "a", "c"};
        for (int i = 0; i < L; i++) {
          ref.rows.push_back(NlpRow(ws[i], i / 2 ? "2" : "1", q[i]));
          spelled.push_back(ws[i]);
          if (!q[i].empty()) spelled.push_back(q[i]);
        }
        edit_space(spelled, 1, {"a", ".", "x"}, [&](const Strs& h) {
          n++;
          for (int k = 0; k < 2; k++) {
            Str hf = Strs{"ctm", "txt", "ctm", "nlp"}[(n + k) % 4];
            if (h.empty()) hf = "ctm";
            if (!deep && L > 2 && k) continue;
            ex.visit("punctuation", [&]() { return judge(ref, side(h, hf), true, n % 3 == 0, n % 5 ? "adapted" : "standard"); });
          }
          if (n % 4 == 0) ex.visit("punctuation off", [&]() { return judge(ref, side(h, "ctm"), false, false, "adapted"); });
        });
        sequences(marks, L, L, [&](const Strs& q2) {
          if (L > 2 && !deep && q2[0] != q[0]) return;
          if (L > 3 && (q2[0] != q[0] || q2[1] != q[1])) return;
          Side hyp;
          hyp.fmt = "nlp";
          for (int i = 0; i < L; i++) hyp.rows.push_back(NlpRow(i == 1 ? "x" : ws[i], "1", q2[i]));
          for (bool up : {true, false}) ex.visit("punctuation on both sides", [&]() { return judge(ref, hyp, up, false, "adapted"); });
        });
        // the same reference with the punctuation spelled out
        for (auto rf : {"txt", "ctm"})
          ex.visit("punctuation spelled out", [&]() { return judge(side(spelled, rf), side(spelled, "ctm"), true, false, "adapted"); });
      });
    // long enough for the first pass
    for (int at = 0; at < 12; at++)
      for (auto mk : {",", ".", "..."})
        for (int e = 0; e < 12; e++)
          for (int how = 0; how < (deep ? 4 : 2); how++) {
            Side ref;
            ref.fmt = "nlp";
            Strs h;
            for (int i = 0; i < 12; i++) {
              ref.rows.push_back(NlpRow((i % 4 ? "w" : "W") + std::to_string(i), "1", i == at ? mk : i == 5 ? "?" : ""));
              Str w = ((i + how) % 4 ? "w" : "W") + std::to_string(i);
              if (i != e) h.push_back(w);
              if (how != 1 && !ref.rows[i].punct.empty()) h.push_back(ref.rows[i].punct);
            }
            bool up = how != 3, uc = how == 2 || e % 2;
            ex.visit("long", [&]() { return judge(ref, side(h, "ctm"), up, uc, "adapted"); });
          }
    // marks behind the rows of an entity: they end it, as a row without the label would
    for (int n : {2, 3})
      for (int at = 0; at < n; at++)
        for (int R = 1; at + R <= n; R++)
          sequences({"", ",", "."}, n, n, [&](const Strs& q) {
            for (auto& cand : std::vector<Strs>{{"v"}, {"v", "u"}}) {
              Rich p;
              for (int i = 0; i < n; i++) p.rows.push_back(NlpRow((i == at ? "W" : "w") + std::to_string(i), "1", q[i]));
              for (int i = at; i < at + R; i++) p.rows[i].tags = {"3:X"};
              p.norm["3"] = {cand};
              p.o.extra = {"--use-punctuation"};
              p.rows = with_marks(p.rows);
              for (auto& x : p.rows) x.token = lower_ascii(x.token);
              int k = 0;
              for (auto& w : readings(p.lattice(), 12))
                edit_space(w, 1, {",", "x"}, [&](const Strs& h) {
                  k++;
                  if (!deep && n == 3 && k % 5 && h != w) return;
                  Rich z = p;
                  z.hyp = h;
                  z.hfmt = Strs{"ctm", "txt", "ctm"}[k % 3];
                  z.o.approach = k % 4 ? "adapted" : "standard";
                  ex.visit("punctuation and entities", [&]() -> Str {
                    Run r = execute(ex, z.input());
                    if (!r.ok) return r.problem;
                    ex.outcome("punctuation of entities");
                    return judge_readings(ex, z, r);
                  });
                });
            }
          });
    // synonyms, written in a file or derived, follow the same rule
    auto cased = [](const Strs& v, int how) {  // as written, lower, upper, capitals in front
      Strs r = v;
      for (auto& w : r)
        for (size_t i = 0; i < w.size(); i++) {
          bool up = how == 2 || (how == 3 && i == 0);
          if (how && !(w[0] == '<' && w == "<unk>")) w[i] = up ? toupper(w[i]) : tolower(w[i]);
        }
      return r;
    };
    struct Item {
      Strs words, alt;
      bool rule;
    };
    for (auto& it : std::vector<Item>{{{"Uh-"}, {"Uh"}, false}, {{"Long-Term"}, {"Long", "Term"}, false}, {{"Long", "Term"}, {"Long-Term"}, false},
                                      {{"I", "am"}, {"I'm"}, true}, {{"McLean"}, {"Mac", "lean"}, true}, {{"<Laugh>"}, {"<unk>"}, false},
                                      {{"\xC3\x89t\xC3\xA9"}, {"\xC3\x89"}, true}})
      for (int rv = 0; rv < 4; rv++)        // the reference's spelling
        for (int sv = 0; sv < (it.rule ? 4 : 1); sv++)  // the rule's
          for (int hv = 0; hv < 4; hv++)    // the hypothesis'
            for (int which = 0; which < 3; which++)
              for (auto ap : {"adapted", "standard"})
                for (bool uc : {false, true}) {
                  if (it.words[0][0] & 0x80 && (rv % 3 || sv % 3 || hv % 3)) continue;  // ASCII only above
                  Strs rw = cased(it.words, rv);
                  Rich p;
                  p.give_norm = false;
                  p.rows = {NlpRow("K")};
                  for (auto& w : rw) p.rows.push_back(NlpRow(w));
                  p.rows.push_back(NlpRow("m"));
                  Strs h = cased(which ? it.alt : it.words, hv);
                  p.hyp = {"K"};
                  p.hyp.insert(p.hyp.end(), h.begin(), h.end());
                  p.hyp.push_back(which == 2 ? "x" : "m");
                  if (it.rule) p.rules = {{cased(it.words, sv), {cased(it.alt, sv)}}};
                  p.rfmt = Strs{"nlp", "txt", "ctm"}[(rv + hv + which) % 3];
                  p.hfmt = Strs{"ctm", "nlp", "txt", "ctm"}[(rv + 2 * hv + sv) % 4];
                  p.o.approach = ap;
                  if (uc) p.o.extra = {"--use-case"};
                  ex.visit("synonyms", [&]() -> Str {
                    Run r = execute(ex, p.input());
                    if (!r.ok) return r.problem;
                    Rich q = p;
                    auto low = [&](Str& w) {
                      if (!uc) w = w == "\xC3\x89t\xC3\xA9" ? "\xC3\xA9t\xC3\xA9" : w == "\xC3\x89" ? "\xC3\xA9" : lower_ascii(w);
                    };
                    for (auto& x : q.rows) low(x.token);
                    for (auto& w : q.hyp) low(w);
                    for (auto& z : q.rules) {
                      for (auto& w : z.lhs) low(w);
                      for (auto& al : z.rhs) for (auto& w : al) low(w);
                    }
                    if (!it.rule && it.words.size() == 1) {
                      Strs l = {q.rows[1].token}, alt = it.words[0] == "<Laugh>" ? it.alt : it.alt.size() == 1 ? Strs{l[0].substr(0, l[0].size() - 1)} : Strs{l[0].substr(0, 4), l[0].substr(5)};
                      q.implied = {{l, {alt}}};
                    } else if (!it.rule)
                      for (auto& w : q.hyp)
                        if (w.size() == 9) q.implied = {{{w.substr(0, 4), w.substr(5)}, {{w}}}};
                    ex.outcome(Str("synonyms ") + (uc ? "case" : "") + (r.best.err ? " errors" : " equal"));
                    return judge_readings(ex, q, r);
                  });
                }
    // candidates of an entity follow the same rule
    for (auto& cand : std::vector<Strs>{{"Twenty"}, {"twenty"}, {"TWENTY", "one"}, {"twenty", "One"}})
      for (auto& own : Strs{"20", "Mix", "mix"})
        for (auto& h : std::vector<Strs>{{"Twenty"}, {"twenty"}, {"TWENTY", "one"}, {"twenty", "one"}, {"twenty", "One"}, {"20"}, {"Mix"}, {"mix"}})
          for (auto ap : {"adapted", "standard"})
            for (bool uc : {false, true})
              ex.visit("entities", [&]() -> Str {
                Rich p;
                p.rows = {NlpRow("k"), NlpRow(own), NlpRow("m")};
                p.rows[1].tags = {"3:X"};
                p.norm["3"] = {cand};
                p.hyp = {"k"};
                p.hyp.insert(p.hyp.end(), h.begin(), h.end());
                p.hyp.push_back("m");
                p.o.approach = ap;
                if (uc) p.o.extra = {"--use-case"};
                Run r = execute(ex, p.input());
                if (!r.ok) return r.problem;
                Rich q = p;
                if (!uc) {
                  for (auto& x : q.rows) x.token = lower_ascii(x.token);
                  for (auto& a : q.norm["3"]) for (auto& w : a) w = lower_ascii(w);
                  for (auto& w : q.hyp) w = lower_ascii(w);
                }
                ex.outcome(Str("entities ") + (uc ? "case" : ""));
                return judge_readings(ex, q, r);
              });
  }, m);
}
