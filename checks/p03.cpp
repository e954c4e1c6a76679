// P03: the reported number of errors is the smallest possible one.
#include "spaces.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; the model explores the whole edit automaton of the two transcripts and yields the "
           "fewest errors of any alignment; distinct = outcome classes by (fewest errors, error mix)";
  m.assumptions = {"references with one reading (readings added by synonyms and candidates are P06 to P08)",
                   "tokens outside the alphabets behave like those inside (renaming symmetry)"};
  return main_loop(c, v, "P03", [&](Explorer& ex) {
    PlainScale s;
    s.deep = 5;
    s.deep_symbols = 2;
    if (ex.thorough()) s.tiny = 4, s.deep = 5, s.deep_symbols = 4;
    auto judge = [&](const Plain& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      int best = edit_distance(Lattice::linear(p.ref), p.hyp, &ex);
      int got = r.best.err;
      if (best) ex.nontrivial();
      ex.outcome("fewest=" + std::to_string(std::min(best, 30)) + (got == best ? "" : " reported one more"));
      if (got < best) return "reports " + std::to_string(got) + " errors, fewer than any alignment has (" + std::to_string(best) + ")";
      if (count_rows(r.rows).errors() != got) return "the written alignment has not the reported number of errors";
      if (got > best) {
        Str t = "reports " + std::to_string(got) + " errors where an alignment with " + std::to_string(best) + " exists";
        if (p.end_marker() && end_marker_explains(p.ref, p.hyp, got) && r.rows.size() && got == best + 1)
          ex.finding_key("last-word-of-text-hypothesis");
        return t;
      }
      return "";
    };
    plain_space(ex, s, judge);
    // beyond the margin only the lower bound and a result are required
    block_space(ex, ex.thorough() ? 2 : 1, [&](const Plain& p) -> Str {
      if (lev(p) <= kMargin) return judge(p);
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      ex.outcome("beyond the margin");
      int best = edit_distance(Lattice::linear(p.ref), p.hyp, &ex);
      if (r.best.err < best) return "reports " + std::to_string(r.best.err) + " errors, fewer than any alignment has (" + std::to_string(best) + ")";
      if (count_rows(r.rows).errors() != r.best.err) return "the written alignment has not the reported number of errors";
      return "";
    });
    // every pair over a wider alphabet in the default configuration
    sequence_pairs_canonical({"a", "b", "c", "d", "e"}, 1, 4, 1, 4, [&](const Strs& r, const Strs& h) {
      if (!ex.thorough() && r.size() + h.size() > 7) return;
      Plain p{"default configuration, wide", r, h, "txt", "ctm", {}};
      ex.visit(p.family, [&]() { return judge(p); });
    });
    // two separate disturbances in longer transcripts with repetitions
    for (int n : {12, 16, 24}) {
      Strs b;
      for (int i = 0; i < n; i++) b.push_back(Strs{"a", "b", "a", "c", "d"}[i % 5]);
      for (int i = 0; i < n; i++)
        for (int j = i; j < n; j++)
          for (int k = 0; k < 4; k++) {
            if (!ex.thorough() && n == 24 && (i + j + k) % 3) continue;
            Strs h;
            for (int x = 0; x < n; x++) {
              bool cut = k == 0 ? (x >= i && x <= j) : (x == i || x == j);
              if (k == 3 && x == i) h.push_back("c");
              if (!cut) h.push_back(b[x]);
              else if (k == 1) h.push_back("z"), h.push_back("a");
              else if (k == 2) h.push_back("d");
            }
            for (int sw = 0; sw < 2; sw++) {
              Plain p{"repetitive, two disturbances", sw ? h : b, sw ? b : h, "ctm", "ctm", {}};
              p.o.approach = (i + j) % 4 == 3 ? "standard" : "adapted";
              p.o.approx = k != 1 || sw;
              if (p.ref.empty() || p.hyp.empty()) continue;
              ex.visit(p.family, [&]() { return judge(p); });
            }
          }
    }
  }, m);
}
