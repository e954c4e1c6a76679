// Case spaces for references with several readings: entity labels with
// normalisation candidates, and synonym rules.
#pragma once
#include "scen.h"

namespace mc {

struct Rule {
  Strs lhs;
  std::vector<Strs> rhs;
};
Str rules_text(const std::vector<Rule>& r);

struct Rich {
  Str family;
  std::vector<NlpRow> rows;                    // reference (only tokens are used for txt / ctm)
  Str rfmt = "nlp", hfmt = "ctm";
  std::map<Str, std::vector<Strs>> norm;       // label id -> candidate verbalisations
  bool give_norm = true;                       // pass the normalisation file (even when empty)
  std::vector<Rule> rules;                     // user synonym rules
  std::vector<Rule> implied;                   // synonyms the program derives by itself
  Strs hyp;
  Opts o;
  bool want_nlp = false;
  Str sidecar;

  Input input() const;
  // all readings of the reference
  Lattice lattice() const;
  // reading without synonyms and candidates
  Strs raw() const { return tokens(rows); }
  static bool class_eq(const Str& model, const Str& shown);
  Str syn_class(const Rule& r, const Strs& alt) const {
    return "SYN_" + std::to_string(r.lhs.size()) + "-" + std::to_string(alt.size());
  }
  bool end_marker() const { return o.approach == "adapted" && hfmt != "ctm"; }
};
Str norm_json(const std::map<Str, std::vector<Strs>>& n);
// label of a row: the first tag
Str label_of(const NlpRow& r);
Str label_id(const Str& label);
Str label_class(const Str& label);  // 0:X -> X

bool is_tag(const Str& w);  // <laugh>
Str plain_tag(const Str& w);  // <foreign:fr> -> <foreign>, other words as they are

// level 1 = quick, 2 = thorough
void label_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body);
void synonym_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body);
void rule_set_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body);
void mixed_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body);
void many_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body);
inline void rich_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  label_space(ex, level, body);
  synonym_space(ex, level, body);
  mixed_space(ex, level, body);
  many_space(ex, level, body);
}
std::vector<Strs> readings(const Lattice& l, size_t limit);
// What a reference with several readings guarantees about one run: the alignment
// is one of a reading, it is free of errors exactly when the hypothesis is a
// reading, and its errors are at least those of the closest reading.  Its error
// rate is at most that of a closest reading (standard composition), or that of a
// best restrained alignment (adapted composition); both without the first pass.
// "" or what is wrong.
Str judge_readings(Explorer& ex, const Rich& p, const Run& r);
}  // namespace mc
