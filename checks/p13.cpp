// P13: the per-speaker breakdown partitions the alignment.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; its alignment is replayed on a model that walks the reference's rows and charges every "
           "word to the speaker of the rows it was read from and every insertion to the speaker of the word before it; "
           "distinct = outcome classes by number of speakers with errors and where insertions stand";
  m.assumptions = {"a class group (label or synonym) lies within one speaker's rows", "every row names a speaker"};
  return main_loop(c, v, "P13", [&](Explorer& ex) {
    TalkScale s;
    s.speakers = true;
    s.hfmts = "ctm ctm txt nlp";
    if (ex.thorough()) s.rows = 6;
    talk_space(ex, s, [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      std::vector<Word> ws;
      Str t = attribute(p, r.rows, &ws);
      if (!t.empty()) return t;
      ex.states(ws.size() + 1);
      ex.transitions(ws.size());
      std::map<Str, Tally> want;
      Str cur;
      Tally lead;
      Str seen;
      for (auto& w : ws) {
        if (w.from >= 0) {
          Str sp = p.rows[w.from].speaker;
          if (cur.empty() && lead.ins) want[sp].ins += lead.ins, seen += "lead ";
          else if (sp != cur) seen += "switch ";
          cur = sp;
        }
        if (cur.empty()) {
          lead.add(w.kind);
          continue;
        }
        want[cur].add(w.kind);
      }
      if (cur.empty() && lead.ins) return "";  // no reference word: not in this space
      int bad = 0;
      for (auto& q : want) bad += q.second.errors() > 0;
      if (bad) ex.nontrivial();
      ex.outcome(std::to_string(want.size()) + " speakers, " + std::to_string(bad) + " with errors" + (lead.ins ? ", leading insertions" : ""));
      const Json::Value& got = r.wer["speakerWER"];
      if (!got.isObject()) return "no speaker breakdown";
      for (auto& q : want) {
        t = compare_tally("speaker " + q.first, q.second, got[q.first]);
        if (!t.empty()) return t;
      }
      for (auto& k : got.getMemberNames())
        if (!want.count(k) && json_wer(got[k]).words + json_wer(got[k]).err)
          return "an entry for '" + k + "', which no row of the reference names";
      return "";
    });
  }, m);
}
