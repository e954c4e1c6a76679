// P06: synonym rules make the listed forms equivalent to the reference's, and nothing else.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; a model expands the reference by every rule at every place it matches (single pass, "
           "left to right order of words kept) and replays the reported alignment on the readings; the variants of one rule "
           "file must also give byte-identical outputs; distinct = outcome classes by what the synonyms change";
  m.assumptions = {"words outside the alphabets behave like those inside (renaming symmetry)"};
  return main_loop(c, v, "P06", [&](Explorer& ex) {
    int level = ex.thorough() ? 2 : 1;
    auto judge = [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      return judge_readings(ex, p, r);
    };
    synonym_space(ex, level, judge);
    rule_set_space(ex, level, judge);
    mixed_space(ex, level, judge);
    many_space(ex, level, judge);
    TalkScale ts;
    ts.hfmts = "ctm txt nlp";
    long_talk(ex, ts, judge);
    burst_talk(ex, ts, judge);

    // ways to write one and the same rule file
    std::vector<Rule> R = {{{"a", "b"}, {{"c", "d"}, {"e"}}}, {{"f"}, {{"a"}, {"g", "g", "g"}}}, {{"g"}, {{"f"}}}};
    Str ok[3] = {"a b | c d ; e", "f | a ; g g g", "g | f"};
    std::map<Str, Str> ways;
    ways["comments"] = "# a b | x\n" + ok[0] + "\n#\n" + ok[1] + "\n  # f | x\n" + ok[2] + "\n#g | x\n";
    ways["blank lines"] = "\n\n" + ok[0] + "\n   \n" + ok[1] + "\n\t\n" + ok[2] + "\n\n";
    ways["no blanks at the separators"] = "a b|c d;e\nf|a;g g g\ng|f\n";
    ways["more blanks"] = "  a   b   |   c    d   ;   e  \n\tf  |  a ;g  g  g\t\n g |  f \n";
    ways["no final newline"] = ok[0] + "\n" + ok[1] + "\n" + ok[2];
    ways["another order"] = ok[2] + "\n" + ok[1] + "\n" + ok[0] + "\n";
    ways["carriage returns"] = ok[0] + "\r\n" + ok[1] + "\r\n\r\n" + ok[2] + "\r\n";
    ways["lines that are no rules"] = "a\n" + ok[0] + "\na b c d\n" + ok[1] + "\ng | h | i\n" + ok[2] + "\n";
    ways["defined again"] = ok[0] + "\na b | f ; g\n" + ok[1] + "\n" + ok[2] + "\nf | g\ng | b\n";
    ways["for words that do not occur"] = "zz | a\nyy a b | c\na b zz | f\n" + ok[0] + "\n" + ok[1] + "\n" + ok[2] + "\n";
    std::vector<std::pair<Strs, std::vector<Strs>>> pairs;
    for (Strs r : {Strs{"a", "b"}, {"f"}, {"g"}, {"f", "a", "b", "g"}, {"a", "f", "b"}, {"g", "g", "f"}}) {
      Rich p;
      p.rules = R;
      for (auto& w : r) p.rows.push_back(NlpRow(w));
      std::set<Strs> hyps = {{"x"}, {"b"}, {"h"}};
      for (auto& w : readings(p.lattice(), level > 1 ? 40 : 12))
        edit_space(w, level > 1 ? 1 : 0, {"g", "x"}, [&](const Strs& h) { hyps.insert(h); });
      pairs.push_back({r, {hyps.begin(), hyps.end()}});
    }
    int n = 0;
    for (auto& q : pairs)
      for (auto& h : q.second)
        for (auto& w : ways) {
          n++;
          for (auto ap : {"adapted", "standard"}) {
            Rich p;
            p.rules = R;
            p.give_norm = false;
            p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
            p.hfmt = n % 2 ? "ctm" : "txt";
            p.o.approach = ap;
            for (auto& x : q.first) p.rows.push_back(NlpRow(x));
            p.hyp = h;
            ex.visit("rule files: " + w.first, [&]() -> Str {
              Input in = p.input();
              Run a = execute(ex, in);
              if (!a.ok) return a.problem;
              in.more["s.txt"] = w.second;
              Run b = execute(ex, in);
              if (!b.ok) return b.problem;
              Str t = judge_readings(ex, p, b);
              if (!t.empty()) return t;
              if (a.out.files["o.sbs"] != b.out.files["o.sbs"] || a.wer != b.wer) return "another result than with the plain rule file";
              return "";
            });
          }
        }
  }, m);
}
