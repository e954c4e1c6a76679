// P01: every alignment is a complete, ordered, truthful account of both transcripts.
#include "talk.h"
using namespace mc;
int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run of the program; the rows of its side-by-side output are replayed, row by row, on the "
           "reference automaton (all readings: words, synonyms, normalisation candidates) and the hypothesis; distinct "
           "= outcome classes by row kinds";
  m.assumptions = {"tokens outside the alphabets behave like those inside (renaming symmetry)",
                   "reserved spellings (<eps>, <ins>, <del>, <sub>, ___x___) do not occur as words"};
  auto marks = [](const std::vector<Row>& rows) -> Str {
    for (auto& x : rows)
      if ((x.err == "ERR") != (x.ref != x.hyp) || (x.err != "ERR" && !x.err.empty()))
        return "the row " + x.ref + " / " + x.hyp + " is marked '" + x.err + "'";
    return "";
  };
  return main_loop(c, v, "P01", [&](Explorer& ex) {
    PlainScale s;
    if (ex.thorough()) s.tiny = 4, s.deep = 5, s.edits = 2;
    auto judge = [&](const Plain& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      Lattice l = Lattice::linear(p.ref);
      ex.states((uint64_t)(p.ref.size() + 1) * (p.hyp.size() + 1));
      ex.transitions(r.rows.size());
      Counts n = count_rows(r.rows);
      if (n.errors()) ex.nontrivial();
      ex.outcome(Str(n.ins ? "i" : "") + (n.del ? "d" : "") + (n.sub ? "s" : "") + (n.cor ? "=" : ""));
      Str t = validate_trace(l, p.hyp, r.rows);
      if (!t.empty()) return t;
      for (auto& x : r.rows)
        if (!x.klass.empty()) return "a plain word is shown with class " + x.klass;
      return marks(r.rows);
    };
    plain_space(ex, s, judge);
    block_space(ex, ex.thorough() ? 2 : 1, judge);
    auto judge_rich = [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      if (!r.ok) return r.problem;
      ex.trace();
      Lattice l = p.lattice();
      ex.states((uint64_t)l.nodes * (p.hyp.size() + 1));
      ex.transitions(r.rows.size());
      ex.nontrivial();
      Counts n = count_rows(r.rows);
      ex.outcome(Str("rich ") + (n.ins ? "i" : "") + (n.del ? "d" : "") + (n.sub ? "s" : "") + (n.cor ? "=" : ""));
      Str t = validate_trace(l, p.hyp, r.rows, true, Rich::class_eq);
      return t.empty() ? marks(r.rows) : t;
    };
    rich_space(ex, ex.thorough() ? 2 : 1, judge_rich);
    TalkScale ts;
    ts.hfmts = "ctm txt nlp";
    long_talk(ex, ts, judge_rich);
    burst_talk(ex, ts, judge_rich);
  }, m);
}
