// P14: the breakdown around speaker switches covers exactly the words within
// the context of a switch, each once.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with one context size; a model marks the reference words within the context of any "
           "switch and sums their rows; distinct = outcome classes by number of switches, overlap and errors";
  m.assumptions = {"a class group (label or synonym) lies within one speaker's rows", "every row names a speaker"};
  return main_loop(c, v, "P14", [&](Explorer& ex) {
    for (int64_t ctx : {0, 1, 2, 3, 5, 12, -1, 2147483646, 2147483647}) {
      TalkScale s;
      s.speakers = true;
      s.rows = ctx < 0 || ctx > 12 ? 2 : ctx < 3 ? 4 : 3;
      s.longs = ctx >= 0;
      s.groups = ctx == 1 || ctx == 2;
      s.edits = ctx < 3 ? 2 : 1;
      s.hfmts = "ctm nlp";
      if (ctx != 5) s.extra = {"--speaker-switch-context", std::to_string(ctx)};
      if (ex.thorough() && ctx < 6) s.rows = 5, s.edits = 2, s.groups = true;
      talk_space(ex, s, [&, ctx](const Rich& p) -> Str {
        Run r = execute(ex, p.input());
        if (!r.ok) return r.problem;
        ex.trace();
        std::vector<Word> ws;
        Str t = attribute(p, r.rows, &ws);
        if (!t.empty()) return t;
        ex.states(ws.size() + 1);
        ex.transitions(ws.size());
        const Json::Value& got = r.wer["speakerSwitchWER"];
        if (ctx <= 0) {
          ex.outcome("off");
          return got.isNull() ? "" : "reported although switched off";
        }
        // switches by number of the reference word
        std::vector<int> sw;
        Str cur;
        int n = 0;
        for (auto& w : ws) {
          if (w.from >= 0) {
            Str sp = p.rows[w.from].speaker;
            if (!cur.empty() && sp != cur) sw.push_back(n);
            cur = sp;
          }
          if (w.kind != 'i') n++;
        }
        Tally want;
        n = 0;
        size_t k = 0;
        bool overlap = false;
        for (size_t i = 1; i < sw.size(); i++) overlap |= sw[i] - sw[i - 1] < 2 * ctx;
        for (auto& w : ws) {
          // a gap belongs to a window when both its sides do, or the window's end follows
          bool in = false;
          if (w.kind != 'i') {
            for (int x : sw) in |= n >= x - ctx && n < x + ctx;
          } else {
            // the first window that is not over yet
            while (k < sw.size() && n >= sw[k] + ctx) k++;
            in = k < sw.size() && n > sw[k] - ctx && n < sw[k] + ctx;
          }
          if (in) want.add(w.kind);
          if (w.kind != 'i') n++;
        }
        if (want.errors()) ex.nontrivial();
        ex.outcome(std::to_string(sw.size()) + " switches" + (overlap ? ", overlapping" : "") + (want.ins ? ", insertions" : ""));
        t = compare_tally("speaker switches", want, got);
        if (!t.empty()) return t;
        if (got["meta"]["windowSize"].asInt64() != ctx) return "the window size reported is not the one requested";
        return "";
      });
    }
  }, m);
}
