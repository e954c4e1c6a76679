// P17: the unigram and bigram statistics are those of the alignment.
#include "spaces.h"
using namespace mc;

struct Gram {
  int cor = 0, ins = 0, del = 0, fp = 0, fn = 0;
  int total() const { return cor + ins + del + fp + fn; }
};

static Str compare(const Str& what, const std::map<Str, Gram>& want, const Json::Value& got, int threshold) {
  size_t n = 0;
  for (auto& k : want) {
    const Gram& g = k.second;
    if (g.total() < threshold) continue;
    n++;
    if (!got.isObject() || !got.isMember(k.first)) return "no " + what + " entry for '" + k.first + "'";
    const Json::Value& v = got[k.first];
    auto differs = [&](const char* f, int x) { return v[f].asInt() != x; };
    Str bad;
    if (differs("correct", g.cor)) bad = "correct";
    if (differs("insertions", g.ins)) bad = "insertions";
    if (differs("deletions", g.del)) bad = "deletions";
    if (differs("substitutions_fp", g.fp)) bad = "substitutions_fp";
    if (differs("substitutions_fn", g.fn)) bad = "substitutions_fn";
    int p = g.cor + g.ins + g.fp, r = g.cor + g.del + g.fn;
    if (!close(v["precision"].asDouble(), p ? 100.0 * g.cor / p : 0)) bad = "precision";
    if (!close(v["recall"].asDouble(), r ? 100.0 * g.cor / r : 0)) bad = "recall";
    if (!bad.empty())
      return what + " '" + k.first + "': " + bad + " is not that of the alignment (correct " + std::to_string(g.cor) + ", insertions " +
             std::to_string(g.ins) + ", deletions " + std::to_string(g.del) + ", substitutions " + std::to_string(g.fp) + "/" + std::to_string(g.fn) + ")";
  }
  if (got.size() != n) {
    for (auto& k : got.getMemberNames())
      if (!want.count(k) || want.at(k).total() < threshold) return "an entry for the " + what + " '" + k + "'";
  }
  return "";
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with one threshold; a model counts every word and every pair of neighbouring words on the "
           "rows of the alignment; distinct = outcome classes by threshold and by the kinds of counts that occur";
  return main_loop(c, v, "P17", [&](Explorer& ex) {
    bool deep = ex.thorough();
    int n = 0;
    auto judge = [&](const Input& in0, int threshold) -> Str {
      Input in = in0;
      if (threshold >= 0) in.o.extra.insert(in.o.extra.end(), {"--pr_threshold", std::to_string(threshold)});
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      std::map<Str, Gram> uni, bi;
      ex.states(r.rows.size() + 1);
      ex.transitions(r.rows.size());
      Str kinds;
      for (size_t i = 0; i < r.rows.size(); i++) {
        auto& x = r.rows[i];
        if (x.ref == "<ins>")
          uni[x.hyp].ins++;
        else if (x.hyp == "<del>")
          uni[x.ref].del++;
        else if (x.ref == x.hyp)
          uni[x.ref].cor++;
        else
          uni[x.ref].fn++, uni[x.hyp].fp++;
        if (!i) continue;
        auto& y = r.rows[i - 1];
        bool ri = x.ref == "<ins>" || y.ref == "<ins>", hd = x.hyp == "<del>" || y.hyp == "<del>";
        Str rb = y.ref + " " + x.ref, hb = y.hyp + " " + x.hyp;
        if (!ri) bi[rb];
        if (!hd) bi[hb];
        if (!ri && !hd) {
          if (rb == hb)
            bi[rb].cor++;
          else
            bi[rb].fn++, bi[hb].fp++;
        } else {
          if (hd && !ri) bi[rb].del++;
          if (ri && !hd) bi[hb].ins++;
        }
      }
      int dropped = 0;
      for (auto& k : uni) dropped += k.second.total() < threshold;
      ex.outcome("threshold " + std::to_string(threshold) + (dropped ? ", some below" : ", none below") + (uni.size() > 3 ? ", many words" : ""));
      if (count_rows(r.rows).errors()) ex.nontrivial();
      Str t = compare("unigram", uni, r.wer["unigrams"], threshold);
      if (t.empty()) t = compare("bigram", bi, r.wer["bigrams"], threshold);
      return t;
    };
    PlainScale s;
    s.tiny = 3;
    s.deep = deep ? 5 : 4;
    s.edits = deep ? 2 : 1;
    s.longs = deep;
    plain_space(ex, s, [&](const Plain& p) -> Str {
      // the formats do not matter here: one of them per transcript
      n = p.ref.size() * 3 + p.hyp.size();
      if (!deep && p.family[0] == 'a' && (p.rfmt != "txt" || (p.hfmt != "ctm" && p.hfmt != "txt"))) return "";
      return judge(p.input(), n % 5 - 1);
    });
    rich_space(ex, deep ? 2 : 1, [&](const Rich& p) -> Str {
      n = p.rows.size() * 3 + p.hyp.size();
      if (!deep && p.family[0] == 's' && n % 3) return "";
      return judge(p.input(), n % 4);
    });
    // growing counts and thresholds around them
    for (int k = 1; k <= (deep ? 40 : 22); k++)
      for (int kind = 0; kind < 6; kind++)
        for (int d : {-1, 0, 1}) {
          Strs ref, hyp;
          for (int i = 0; i < k; i++)
            switch (kind) {
              case 0: ref.push_back("a"), hyp.push_back("a"); break;
              case 1: ref.push_back("a"), hyp.push_back("b"); break;
              case 2: ref.push_back("a"), ref.push_back("b"), hyp.push_back("a"); break;
              case 3: ref.push_back("a"), hyp.push_back("a"), hyp.push_back("b"); break;
              case 4: ref.insert(ref.end(), {"a", "b", "c"}), hyp.insert(hyp.end(), {"a", "d", "c"}); break;
              case 5: ref.insert(ref.end(), {"a", "b"}), hyp.push_back("a"), hyp.push_back(i % 2 ? "b" : "c"); break;
            }
          if (std::max(ref.size(), hyp.size()) - std::min(ref.size(), hyp.size()) > 18) continue;
          ex.visit("growing counts", [&, ref, hyp]() {
            Plain p;
            p.ref = ref, p.hyp = hyp, p.rfmt = "txt", p.hfmt = "ctm";
            return judge(p.input(), k + d);
          });
        }
  }, m);
}
