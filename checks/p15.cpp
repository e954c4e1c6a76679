// P15: the per-sentence breakdown partitions the alignment.
#include "talk.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; its alignment is replayed on a model that closes a sentence behind each row whose "
           "punctuation ends one; distinct = outcome classes by number of sentences and of erroneous ones";
  m.assumptions = {"inside a class group (label or synonym) only the last row ends a sentence"};
  return main_loop(c, v, "P15", [&](Explorer& ex) {
    TalkScale s;
    s.punct = true;
    s.hfmts = "ctm ctm nlp txt";
    if (ex.thorough()) s.rows = 6;
    talk_space(ex, s, [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      std::vector<Word> ws;
      Str t = attribute(p, r.rows, &ws);
      if (!t.empty()) return t;
      ex.states(ws.size() + 1);
      ex.transitions(ws.size());
      auto final = [&](int row) {
        const Str& pu = p.rows[row].punct;
        return pu == "." || pu == "?" || pu == "!";
      };
      // rows read as nothing are not shown: the sentence they end can end anywhere among the insertions around them;
      // `behind` of these are taken to follow
      bool nothing = p.family == "label read as nothing";
      auto sentences = [&](size_t behind) {
        std::vector<Tally> want(1);
        int at = 0;  // next NLP row
        for (size_t i = 0; i <= ws.size(); i++) {
          size_t next = i;  // the next reference word
          while (next < ws.size() && ws[next].from < 0) next++;
          int upto = next < ws.size() ? ws[next].from : p.rows.size();
          if (next - i <= behind)
            for (; at < upto; at++)
              if (final(at)) want.push_back({});
          if (i == ws.size()) break;
          auto& w = ws[i];
          want.back().add(w.kind);
          if (w.from < 0) continue;
          // the last row of the group, or the row itself
          if (w.group >= 0 && i + 1 < ws.size() && ws[i + 1].group == w.group) continue;
          at = w.to;
          if (final(w.to - 1)) want.push_back({});
        }
        if (nothing) want.erase(std::remove_if(want.begin(), want.end(), [](const Tally& t) { return !t.any(); }), want.end());
        else if (!want.back().any()) want.pop_back();
        return want;
      };
      std::vector<Tally> want = sentences(0);
      int bad = 0;
      for (auto& q : want) bad += q.errors() > 0;
      if (bad) ex.nontrivial();
      ex.outcome(std::to_string(want.size()) + " sentences, " + std::to_string(bad) + " with errors");
      const Json::Value& got = r.wer["sentenceWer"];
      if (want.empty() && got.isNull()) return "";
      if (!got.isArray()) return "no sentence breakdown";
      std::vector<Json::Value> real;
      for (auto& g : got) {
        JsonWer q = json_wer(g);
        if (!nothing || q.words || q.ins || q.del || q.sub) real.push_back(g);
      }
      auto differs = [&](const std::vector<Tally>& want) -> Str {
        if (real.size() != want.size())
          return std::to_string(real.size()) + " sentences reported, the reference has " + std::to_string(want.size());
        for (size_t i = 0; i < want.size(); i++) {
          Str t = compare_tally("sentence " + std::to_string(i + 1), want[i], real[i]);
          if (!t.empty()) return t;
        }
        return "";
      };
      t = differs(want);
      for (size_t b = 1; nothing && !t.empty() && b < 4; b++)
        if (differs(sentences(b)).empty()) t = "";
      return t;
    });
  }, m);
}
