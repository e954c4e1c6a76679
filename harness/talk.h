// Transcripts with metadata (speakers, punctuation, tags, labels, timings): the
// case space of the breakdown checks, and the attribution of the rows of an
// alignment to the reference's NLP rows they were read from.
#pragma once
#include "spaces.h"

namespace mc {

struct Word {             // one row of the alignment
  Row row;
  char kind = '=';        // i insertion, d deletion, s substitution, = correct
  int hyp = -1;           // position in the hypothesis
  int from = -1, to = -1; // the NLP rows [from, to) it was read from (empty: none)
  int group = -1;         // number of its class group, -1 outside
  int pos = 0, size = 0;  // position among the group's rows from its first reference word on
};
// "" or why the alignment is not one of this reference
Str attribute(const Rich& p, const std::vector<Row>& rows, std::vector<Word>* out);

// what the metadata of the space varies over; the other fields follow a fixed rotation
struct TalkScale {
  bool speakers = false, punct = false, wer_tags = false;
  int rows = 4;          // longest reference in every pattern
  int edits = 2;         // hypotheses: edits of the reference
  bool groups = true;    // references with labels and synonyms
  bool longs = true;
  Str hfmts = "ctm";     // formats of the hypothesis, rotated ("ctm txt nlp")
  Strs extra;            // options of every run
  bool want_nlp = false;
};
// only its last part: transcripts of hundreds of rows
void long_talk(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body);
void talk_space(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body);

// only its part with bursts of errors at one place
void burst_talk(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body);

struct Tally {
  int ins = 0, del = 0, sub = 0, words = 0;
  void add(char kind) {
    ins += kind == 'i', del += kind == 'd', sub += kind == 's', words += kind != 'i';
  }
  bool any() const { return ins || words; }
  int errors() const { return ins + del + sub; }
};
// compares a reported WER object with a tally; "" or what differs
Str compare_tally(const Str& what, const Tally& t, const Json::Value& v);
}  // namespace mc
