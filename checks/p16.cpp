// P16: the breakdown per error-tracking tag.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; a model charges every word to the tags of the row it was read from; distinct = outcome "
           "classes by number of tags, of erroneous tags and presence of a sidecar";
  m.assumptions = {"the rows of a class group (label or synonym) carry the same tags"};
  return main_loop(c, v, "P16", [&](Explorer& ex) {
    TalkScale s;
    s.wer_tags = true;
    s.hfmts = "ctm ctm nlp txt";
    if (ex.thorough()) s.rows = 6;
    int n = 0;
    talk_space(ex, s, [&](const Rich& q) -> Str {
      Rich p = q;
      std::map<Str, Str> types;
      if (p.hyp.size() % 2) {
        types = {{"1", "YEAR"}, {"22", "SPACY>TIME"}};
        p.sidecar = "{\"1\": {\"entity_type\": \"YEAR\"}, \"22\": {\"entity_type\": \"SPACY>TIME\"}, \"99\": {\"entity_type\": \"X\"}}\n";
      }
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      std::vector<Word> ws;
      Str t = attribute(p, r.rows, &ws);
      if (!t.empty()) return t;
      ex.states(ws.size() + 1);
      ex.transitions(ws.size());
      std::map<Str, Tally> want;
      for (auto& w : ws) {
        Str shown;
        if (w.from >= 0)
          for (auto& g : p.rows[w.from].wer_tags) {
            want[g].add(w.kind);
            auto it = types.find(g);
            shown += "###" + g + "_" + (it == types.end() ? "" : it->second) + "###|";
          }
        if (w.row.tags != shown)
          return "the row " + w.row.ref + " | " + w.row.hyp + " shows the tags '" + w.row.tags + "' instead of '" + shown + "'";
      }
      int bad = 0;
      for (auto& x : want) bad += x.second.errors() > 0;
      if (bad) ex.nontrivial();
      ex.outcome(std::to_string(want.size()) + " tags, " + std::to_string(bad) + " with errors" + (types.empty() ? "" : ", sidecar"));
      const Json::Value& got = r.wer["wer_tag"];
      if (got.isNull()) return want.empty() ? "" : "no breakdown by tag";
      for (auto& x : want) {
        t = compare_tally("tag " + x.first, x.second, got[x.first]);
        if (!t.empty()) return t;
      }
      for (auto& k : got.getMemberNames())
        if (!want.count(k) && json_wer(got[k]).words + json_wer(got[k]).err)
          return "an entry for tag '" + k + "', which no row carries";
      return "";
    });
  }, m);
}
