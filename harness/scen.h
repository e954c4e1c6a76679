// Scenarios: building inputs in every format, running the real program, reading
// every output back, and the case spaces shared by several checks.
#pragma once
#include "model.h"

namespace mc {

// ------------------------------------------------------------------- inputs
struct NlpRow {
  Str token;
  Str speaker = "1";
  Str ts, endTs;
  Str punct, prepunct;
  Str casing = "LC";
  Strs tags;      // "0:CARDINAL"
  Strs wer_tags;  // "7"
  bool mark = false;  // no row of its own: the punctuation of the row before as a word
  NlpRow() {}
  NlpRow(const Str& t, const Str& s = "1", const Str& p = "") : token(t), speaker(s), punct(p) {}
};
Str list_text(const Strs& v, const Str& sep = ", ");  // ['a', 'b']
// the rows with every punctuation mark as a word of its own
std::vector<NlpRow> with_marks(const std::vector<NlpRow>& rows);
Str nlp_file(const std::vector<NlpRow>& rows, bool prepunct = false);
Strs tokens(const std::vector<NlpRow>& rows);

struct CtmRow {
  double start, dur;
  Str word;
  Str conf;  // "" = no sixth column
};
Str ctm_file(const std::vector<CtmRow>& rows);
std::vector<CtmRow> ctm_rows(const Strs& words);  // distinct, easily recognised timings

// one text token sequence in a given format (txt, ctm, nlp)
Str as_format(const Strs& words, const Str& fmt);

struct Opts {
  Str sub = "wer";
  Str approach = "adapted";
  bool approx = true;   // approximate first pass on
  Strs extra;
  Str text() const;
};

struct Run {
  Cmd cmd;
  Out out;
  bool ok = false;
  Str problem;           // why !ok
  Sbs sbs;
  std::vector<Row> rows;
  Json::Value json, wer;  // whole log, its "wer" object
  JsonWer best;
  NlpOut nlp;
  // lines of the text log
  bool log_ok = false;
  int log_err = 0, log_words = 0, log_ins = 0, log_del = 0, log_sub = 0;
  Str log_wer, log_prec, log_rec;
};
// the ref and hyp file names carry the format; extra files are added as given
struct Input {
  Str rfmt = "txt", hfmt = "txt";
  Str ref, hyp;                      // contents
  std::map<Str, Str> more;           // further files
  Opts o;
  bool want_nlp = false;
};
Run execute(Explorer& ex, const Input& in, int timeout_s = 20);

// text after "<marker>" on the log line that contains it, "" when absent
Str log_after(const Str& log, const Str& marker);

// -------------------------------------------------- spaces of plain transcripts
struct Plain {
  Str family;
  Strs ref, hyp;
  Str rfmt, hfmt;
  Opts o;
  Input input() const;
  bool end_marker() const { return o.approach == "adapted" && hfmt != "ctm"; }
};
struct PlainScale {
  int tiny = 3;        // exhaustive lengths in every configuration
  int deep = 4;        // exhaustive lengths in the main configurations
  int deep_symbols = 3;
  int edits = 2;       // deviations on the long bases
  bool longs = true;   // sequences beyond 50 / 100 tokens
  bool approx_off = true;
};
void plain_space(Explorer& ex, const PlainScale& s, const std::function<Str(const Plain&)>& body);
// a stretch of words and a nearly equal copy of it before it, on one side only:
// the best alignment starts with a run of errors that a search keeping only the
// locally best paths gives up (lengths on both sides of the margin of 20 errors)
void block_space(Explorer& ex, int level, const std::function<Str(const Plain&)>& body);
// bases around the first pass' size threshold with up to k edits
void edit_space(const Strs& base, int k, const Strs& news, const std::function<void(const Strs&)>& f);

// The smallest number of errors over the alignments of plain transcripts
inline int lev(const Plain& p) { return levenshtein(p.ref, p.hyp); }
// The search keeps every path within this many errors of the best ones: up to
// here the reported alignment has to be a smallest one.
const int kMargin = 20;
// Signature of the known finding on plain-text and NLP hypotheses (DESIGN.md):
// exactly one extra error, from a last reference word reported as deleted.
bool end_marker_explains(const Strs& ref, const Strs& hyp, int errors);
// the same finding, recognised on what was reported: at most one extra error,
// and the last reference word is the one reported as deleted
bool end_marker_signature(const Strs& ref, const Strs& hyp, const Run& r);
}  // namespace mc
