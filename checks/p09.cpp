// P09: the per-class breakdown partitions the labelled part of the alignment.
#include "talk.h"
using namespace mc;

static Str class_name(const Str& shown) {  // ___12_MONEY___ -> MONEY
  Str s = shown.substr(3, shown.size() - 6);
  return s.substr(s.find('_') + 1);
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; the rows of the alignment are summed by the class they were read from (checked against the "
           "reference by the automaton) and compared with the JSON and console breakdowns; distinct = outcome classes by "
           "number of classes and of those with errors";
  m.assumptions = {"each id labels one stretch of consecutive rows"};
  return main_loop(c, v, "P09", [&](Explorer& ex) {
    bool deep = ex.thorough();
    auto judge = [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      Lattice l = p.lattice();
      ex.states((uint64_t)l.nodes * (p.hyp.size() + 1));
      ex.transitions(r.rows.size());
      Str t = validate_trace(l, p.hyp, r.rows, true, Rich::class_eq);
      if (!t.empty()) return t;
      std::map<Str, Counts> want;
      Counts all;
      if (p.rfmt == "nlp")
        for (auto& w : p.rows)
          if (!w.tags.empty()) want[label_class(label_of(w))];
      for (auto& x : r.rows)
        if (!x.klass.empty()) {
          auto& k = want[class_name(x.klass)];
          (x.ref == "<ins>" ? k.ins : x.hyp == "<del>" ? k.del : x.ref == x.hyp ? k.cor : k.sub)++;
        }
      int bad = 0;
      for (auto& k : want) bad += k.second.errors() > 0;
      if (bad || want.size() > 1) ex.nontrivial();
      ex.outcome(std::to_string(want.size()) + " classes, " + std::to_string(bad) + " with errors");
      const Json::Value& got = r.wer["classWER"];
      if (!got.isObject()) return "no class breakdown";
      for (auto& k : want) {
        JsonWer g = json_wer(got[k.first]);
        if (!g.present) return "no entry for the class " + k.first;
        if (g.ins != k.second.ins || g.del != k.second.del || g.sub != k.second.sub || g.err != k.second.errors() ||
            g.words != k.second.ref_words())
          return "class " + k.first + " is reported with other numbers than its rows have (" + k.second.text() + ")";
        if (g.words && !close(g.wer, (double)g.err / g.words)) return "class " + k.first + " has another error rate";
        Str a = log_after(r.out.log, "class " + k.first + " ");
        int e = -1, w = -1;
        sscanf(a.c_str() + std::min(a.size(), a.find_first_not_of(' ')), "WER: %d/%d", &e, &w);
        if (e != g.err || w != g.words) return "class " + k.first + " is logged with other numbers";
      }
      for (auto& k : got.getMemberNames()) {
        JsonWer g = json_wer(got[k]);
        if (!want.count(k) && g.words + g.err) return "an entry for the class " + k + ", which no row shows";
      }
      return "";
    };
    rich_space(ex, deep ? 2 : 1, [&](const Rich& p) -> Str {
      if (!deep && p.family[0] == 's' && (p.hyp.size() + p.rows.size()) % 2) return "";
      return judge(p);
    });
    // several stretches of the same and of other classes, every edit of each reading
    for (int k = 0; k < 8; k++)
      for (int gap = 0; gap <= 1; gap++) {
        Rich p;
        p.family = "several classes";
        Strs toks = {"a", "b", "c"};
        for (int i = 0; i < 3; i++) {
          p.rows.push_back(NlpRow(toks[i]));
          p.rows.back().tags = {std::to_string(i * 9) + (k >> i & 1 ? ":MONEY" : ":LONG_NAME")};
          if (gap && i < 2) p.rows.push_back(NlpRow("g"));
          p.norm[std::to_string(i * 9)] = i == 1 ? std::vector<Strs>{{"x", "y"}} : std::vector<Strs>{{"y"}};
        }
        if (k & 1) p.rules = {{{"a"}, {{"s", "t"}}}, {{"g"}, {{"u"}}}, {{"c"}, {{"u"}}}};
        for (auto& w : readings(p.lattice(), deep ? 24 : 12))
          edit_space(w, 1, {"g", "x"}, [&](const Strs& h) {
            p.hyp = h;
            p.o.approach = h.size() % 2 ? "standard" : "adapted";
            ex.visit(p.family, [&]() { return judge(p); });
          });
      }
    TalkScale ts;
    ts.hfmts = "ctm txt nlp";
    long_talk(ex, ts, judge);
    burst_talk(ex, ts, judge);
  }, m);
}
