// P02: all totals describe the alignment that was written.
#include <cmath>

#include "talk.h"
using namespace mc;

static Str near(const Str& what, const Json::Value& v, int num, int den) {
  if (den == 0) return v.isNumeric() && std::isfinite(v.asDouble()) && v.asDouble() != 0 ? what + " of nothing is " + v.asString() : "";
  if (!v.isNumeric() || !close(v.asDouble(), (double)num / den)) {
    return what + " is " + (v.isNumeric() ? std::to_string(v.asDouble()) : "not a number") + ", not " + std::to_string(num) + "/" + std::to_string(den);
  }
  return "";
}

static Str totals(Explorer& ex, const Run& r, size_t hyp_words) {
  Counts n = count_rows(r.rows);
  auto& b = r.best;
  ex.trace();
  ex.states(r.rows.size() + 1);
  ex.transitions(r.rows.size());
  if (n.errors()) ex.nontrivial();
  ex.outcome(std::to_string(std::min(n.ins, 3)) + std::to_string(std::min(n.del, 3)) + std::to_string(std::min(n.sub, 3)) +
             (n.cor ? "=" : ""));
  Str seen = "rows: " + n.text() + "; JSON: ins=" + std::to_string(b.ins) + " del=" + std::to_string(b.del) +
             " sub=" + std::to_string(b.sub) + " err=" + std::to_string(b.err) + " words=" + std::to_string(b.words);
  if (b.ins != n.ins || b.del != n.del || b.sub != n.sub) return "JSON error counts differ from the rows: " + seen;
  if (b.err != n.errors()) return "JSON numErrors is not the number of error rows: " + seen;
  if (b.words != n.ref_words()) return "JSON numWordsInReference is not the number of reference rows: " + seen;
  if ((size_t)(n.cor + n.sub + n.ins) != hyp_words) return "hypothesis words are not all counted: " + seen;
  int err = n.errors(), words = n.ref_words();
  if (words == 0) {
    if (hyp_words ? !b.wer_inf : (b.wer_inf || b.wer_null || b.wer != 0)) return "WER of an empty reference: " + seen;
  } else if (b.wer_null || b.wer_inf || !close(b.wer, (double)err / words)) {
    return "JSON wer is " + std::to_string(b.wer) + ": " + seen;
  }
  const Json::Value& j = r.wer["bestWER"];
  Str t = near("precision", j["precision"], n.cor, n.cor + n.ins + n.sub);
  if (t.empty()) t = near("recall", j["recall"], n.cor, n.cor + n.sub + n.del);
  if (!t.empty()) return t + "; " + seen;
  if (!r.log_ok) return "the text log has no WER summary";
  if (r.log_err != err || r.log_words != words || r.log_ins != n.ins || r.log_del != n.del || r.log_sub != n.sub)
    return "the text log's summary differs from the rows: " + seen;
  char w[64];
  if (words) {
    if (std::fabs(atof(r.log_wer.c_str()) - (double)err / words) > 0.00006) return "the text log shows WER " + r.log_wer + "; " + seen;
    if (r.log_wer.find('.') == Str::npos || r.log_wer.size() - r.log_wer.find('.') != 5) return "the text log's WER has not four decimals: " + r.log_wer;
    if (n.cor + n.ins + n.sub && std::fabs(atof(r.log_prec.c_str()) - (double)n.cor / (n.cor + n.ins + n.sub)) > 1e-5)
      return "the text log shows precision " + r.log_prec + "; " + seen;
    if (std::fabs(atof(r.log_rec.c_str()) - (double)n.cor / words) > 1e-5) return "the text log shows recall " + r.log_rec + "; " + seen;
  }
  (void)w;
  return "";
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; the JSON log, the text log and the side-by-side rows are three accounts of one "
           "alignment and are compared field by field; distinct = outcome classes by error mix";
  m.assumptions = {"reserved spellings (<eps>, <ins>, <del>, <sub>, ___x___) do not occur as words"};
  return main_loop(c, v, "P02", [&](Explorer& ex) {
    PlainScale s;
    s.deep_symbols = 2;
    if (ex.thorough()) s.tiny = 4, s.deep = 5, s.deep_symbols = 3;
    plain_space(ex, s, [&](const Plain& p) -> Str {
      Run r = execute(ex, p.input());
      return r.ok ? totals(ex, r, p.hyp.size()) : r.problem;
    });
    auto judge_rich = [&](const Rich& p) -> Str {
      Run r = execute(ex, p.input());
      return r.ok ? totals(ex, r, p.hyp.size()) : r.problem;
    };
    rich_space(ex, ex.thorough() ? 2 : 1, judge_rich);
    TalkScale ts;
    ts.hfmts = "ctm txt nlp";
    long_talk(ex, ts, judge_rich);
    burst_talk(ex, ts, judge_rich);
  }, m);
}
