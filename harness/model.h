// Reference model: word lattices, the alignment automaton (lattice x
// hypothesis), and readers for the program's outputs.  Written independently
// of the code under test.
#pragma once
#include <json/json.h>
#include "mc.h"

namespace mc {

// A reference: nodes 0..n, edges carry one word ("" = no word).
struct Edge {
  int from, to;
  Str word;
  Str klass;  // label of the alternative the edge belongs to, "" for plain text
  bool alt = false;  // part of a synonym
};
struct Lattice {
  int nodes = 1;  // node 0 is the start
  int final = 0;
  std::vector<Edge> edges;
  std::vector<int> ends;  // further final nodes (word graphs only): see modelled()
  int add() { return nodes++; }
  void edge(int a, int b, const Str& w, const Str& k = "") { edges.push_back({a, b, w, k, false}); }
  static Lattice linear(const Strs& words);
  // adds a path from->to spelling words (with a no-word edge when empty)
  void path(int from, int to, const Strs& words, const Str& klass);
  std::vector<int> topo() const;
};

struct Best {
  double cost = 1e18;   // minimum weighted cost
  int min_err = 1 << 28;  // fewest / most errors over the minimum-cost alignments
  int max_err = -1;
};
// Explores the whole alignment automaton.  states/transitions are added to the
// explorer's counters when ex is given.
Best best_alignment(const Lattice& ref, const Strs& hyp, double ins, double del, double sub, Explorer* ex = nullptr);
inline int edit_distance(const Lattice& ref, const Strs& hyp, Explorer* ex = nullptr) {
  return (int)best_alignment(ref, hyp, 1, 1, 1, ex).cost;
}
int levenshtein(const Strs& a, const Strs& b);
// (errors, reference words) of every alignment.  restrained: a synonym is taken
// word for word or not at all, no word is deleted where an alternative begins or
// where it could be matched.
std::set<std::pair<int, int>> alignments(const Lattice& ref, const Strs& hyp, bool restrained, Explorer* ex = nullptr);

// ------------------------------------------------------------------- outputs
struct Row {
  Str ref, hyp, err, klass, tags;
};
struct Sbs {
  bool ok = false;
  Str problem;
  std::vector<Row> rows;
  std::vector<std::pair<int, Str>> groups;
};
Sbs parse_sbs(const Str& text);

struct Counts {
  int ins = 0, del = 0, sub = 0, cor = 0;
  int errors() const { return ins + del + sub; }
  int ref_words() const { return del + sub + cor; }
  bool operator==(const Counts& o) const { return ins == o.ins && del == o.del && sub == o.sub && cor == o.cor; }
  Str text() const;
};
Counts count_rows(const std::vector<Row>& rows);

// The rows are a path of the alignment automaton from start to final: the
// reference side (without <ins>) spells a path of the lattice, the hypothesis
// side (without <del>) is hyp.  "" or what is wrong.
// with_class: the class column of a row must be the class of the edge taken
// (compare via klass_eq when given).
Str validate_trace(const Lattice& ref, const Strs& hyp, const std::vector<Row>& rows, bool with_class = false,
                   const std::function<bool(const Str& model, const Str& shown)>& klass_eq = nullptr);

struct JsonWer {
  bool present = false;
  int ins = 0, del = 0, sub = 0, err = 0, words = 0;
  bool wer_null = false, wer_inf = false;
  double wer = 0;
};
// parses a JSON log, accepting the infinity the writer emits
bool parse_json(const Str& text, Json::Value* v);
JsonWer json_wer(const Json::Value& v);
// numbers in JSON logs are floats printed as doubles
bool close(double a, double b, double rel = 1e-5);

struct NlpOut {
  bool ok = false;
  Strs header;
  std::vector<Strs> rows;
};
NlpOut parse_nlp(const Str& text);

// ------------------------------------------------------------------ builders
Str txt(const Strs& words);            // one line of text
Str ctm(const Strs& words);            // default timings: token i at i*10+1, duration 0.5
Str nlp(const Strs& words);            // plain rows, one speaker
}  // namespace mc
