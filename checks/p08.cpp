// P08: a labelled stretch can be read as itself or as any of its normalisation candidates.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; a model gives every labelled stretch its own words and each verbalisation listed under its "
           "id, and replays the alignment on the readings; with the standard composition the alignment must be a cheapest one over all "
           "readings; distinct = outcome classes by what the candidates change";
  m.assumptions = {"each id labels one stretch of consecutive rows"};
  return main_loop(c, v, "P08", [&](Explorer& ex) {
    bool deep = ex.thorough();
    auto judge = [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      return judge_readings(ex, p, r);
    };
    label_space(ex, deep ? 2 : 1, judge);
    many_space(ex, deep ? 2 : 1, judge);
    TalkScale ts;
    ts.hfmts = "ctm txt nlp";
    long_talk(ex, ts, judge);
    burst_talk(ex, ts, judge);

    // stretches with one candidate each, up to three of them, in every order of lengths
    std::vector<std::vector<Strs>> alts = {{}, {{"x"}}, {{"x", "y"}}, {{"y"}, {"x", "x", "y"}}, {{}}};
    int n = 0;
    for (int len0 = 1; len0 <= 2; len0++)
      for (int gap = 0; gap <= 1; gap++)
        for (auto& c0 : alts)
          for (auto& c1 : alts)
            for (int big = 0; big < 2; big++) {
              Rich p;
              p.family = "two labels";
              Str id0 = big ? "10" : "0", id1 = big ? "1" : "2", k0 = "DATE", k1 = big ? "DATE" : "MONEY";
              Strs own = {"a", "b"};
              for (int i = 0; i < len0; i++) {
                p.rows.push_back(NlpRow(own[i]));
                p.rows.back().tags = {id0 + ":" + k0, id1 + ":OTHER"};  // the first tag counts
                if (i) p.rows.back().tags.pop_back();
              }
              if (gap) p.rows.push_back(NlpRow("g"));
              p.rows.push_back(NlpRow("c"));
              p.rows.back().tags = {id1 + ":" + k1};
              // no empty candidate but for FALLBACK: see below
              auto put = [&](const Str& id, const std::vector<Strs>& a) {
                if (a.size() == 1 && a[0].empty()) return;
                p.norm[id] = a;
              };
              put(id0, c0);
              put(id1, c1);
              p.norm["77"] = {{"never"}};
              std::set<Strs> hyps;
              for (auto& w : readings(p.lattice(), 30)) edit_space(w, deep ? 1 : 0, {"x", "g"}, [&](const Strs& h) { hyps.insert(h); });
              hyps.insert({"a", "c"});
              hyps.insert({"x"});
              hyps.insert({"x", "y", "x", "y"});
              hyps.insert({"g"});
              hyps.insert({"never"});
              hyps.insert({"a", "y", "g", "x", "c"});
              for (auto& h : hyps) {
                n++;
                p.hyp = h;
                for (auto ap : {"adapted", "standard"}) {
                  p.o.approach = ap;
                  p.hfmt = n % 3 ? "ctm" : "txt";
                  ex.visit(p.family, [&]() { return judge(p); });
                }
              }
            }
    // labels in a text long enough for the first pass
    Strs w = {"one", "two", "one", "three", "four", "five", "six", "two", "seven", "eight", "nine", "ten"};
    for (int at = 0; at < 12; at += deep ? 1 : 2)
      for (int len : {1, 3}) {
        if (at + len > 12) continue;
        Rich p;
        p.family = "labels, long";
        for (auto& x : w) p.rows.push_back(NlpRow(x));
        for (int i = at; i < at + len; i++) p.rows[i].tags = {"12:CARDINAL"};
        p.norm["12"] = {{"two", "seven"}, {"x"}, {"one", "x", "six", "two", "y"}};
        for (auto& r : readings(p.lattice(), 8))
          edit_space(r, 1, {"one"}, [&](const Strs& h) {
            n++;
            if (!deep && n % 3) return;
            p.hyp = h;
            p.o.approx = n % 2;
            p.o.approach = n % 4 < 2 ? "adapted" : "standard";
            p.hfmt = n % 5 ? "ctm" : "txt";
            ex.visit(p.family, [&]() { return judge(p); });
          });
      }
    // how the files may be written: letters, spacing of the tag lists, fields of the candidates
    for (auto& tags : Strs{"['0:YEAR']", "['0:YEAR', '1:DATE']", "['0:YEAR','1:DATE']"})
      for (auto& js : Strs{"{\"0\":{\"candidates\":[{\"probability\":0.5,\"verbalization\":[\"Twenty\",\"TWENTY\"]},{\"verbalization\":[\"deux\",\"MILLE\"]}],\"class\":\"YEAR\"}}",
                           "{\n \"0\": {\"class\": \"YEAR\", \"candidates\": [ {\"verbalization\": [\"deux\", \"mille\"], \"probability\": 1, \"x\": null},\n {\"verbalization\": [\"twenty\", \"twenty\"]} ] },\n \"1\": {\"candidates\": []} }\n",
                           "{\"1\":{\"candidates\":[{\"verbalization\":[\"no\"]}]}, \"0\":{\"candidates\":[{\"verbalization\":[\"twenty\",\"twenty\"]},{\"verbalization\":[\"no\"]},{\"verbalization\":[\"deux\",\"mille\"]}]}}"})
        for (auto& h : std::vector<std::pair<Str, int>>{{"in Twenty twenty", 0}, {"in 2020", 0}, {"IN deux mille", 0}, {"in twenty", 1}, {"in", 1}, {"in twenty twenty 2020", 1}, {"in mille deux", 2}})
          for (auto ap : {"adapted", "standard"})
            ex.visit("writing of the files", [&]() -> Str {
              Input in;
              in.rfmt = "nlp";
              in.hfmt = "ctm";
              in.ref = "token|speaker|ts|endTs|punctuation|case|tags|wer_tags\nIn|1||||UC|[]|[]\n2020|1|||.|LC|" + tags + "|[]\n";
              in.hyp = as_format(split_ws(h.first), "ctm");
              in.more["n.json"] = js;
              in.o.approach = ap;
              in.o.extra = {"--ref-json", "n.json"};
              Run r = execute(ex, in);
              if (!r.ok) return r.problem;
              ex.trace();
              ex.outcome("writing of the files");
              if (h.second) ex.nontrivial();
              if (r.best.err != h.second && !(h.second == 2 && r.best.err == 2))
                return std::to_string(r.best.err) + " errors reported instead of " + std::to_string(h.second);
              return "";
            });
    // labels of a hypothesis, and labels without the file, mean nothing
    for (auto& h : std::vector<Strs>{{"a", "b"}, {"x"}, {"a", "x"}})
      for (int k = 0; k < 4; k++)
        ex.visit("labels that mean nothing", [&]() -> Str {
          std::vector<NlpRow> hr, rr = {NlpRow("a"), NlpRow("b")};
          for (auto& w : h) hr.push_back(NlpRow(w)), hr.back().tags = {"0:YEAR"};
          Input in;
          in.rfmt = in.hfmt = "nlp";
          if (k & 1)
            for (auto& x : rr) x.tags = {"0:YEAR"};
          in.ref = nlp_file(rr);
          in.hyp = nlp_file(hr);
          in.o.approach = k & 2 ? "standard" : "adapted";
          Run r = execute(ex, in);
          if (!r.ok) return r.problem;
          ex.trace();
          ex.nontrivial();
          int L = levenshtein({"a", "b"}, h);
          ex.outcome("labels that mean nothing");
          if (r.best.err < L || r.best.err > L + !(k & 2)) return std::to_string(r.best.err) + " errors reported instead of " + std::to_string(L);
          Strs a;
          for (auto& x : r.rows)
            if (x.hyp != "<del>") a.push_back(x.hyp);
          return a == h ? "" : "the hypothesis is not shown as it is";
        });
  }, m);
}
