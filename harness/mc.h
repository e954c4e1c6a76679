// Execution engine shared by the checks: runs the code under test (the real
// fstalign entry point, or a library call) in forked children, enumerates case
// spaces over 8 worker processes, collects coverage counts, and reports.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdint>

namespace mc {

using Str = std::string;
using Strs = std::vector<std::string>;

// ---------------------------------------------------------------- execution
struct Cmd {
  Strs args;                      // arguments after the program name
  std::map<Str, Str> files;       // inputs, relative to the scratch directory
  Strs outputs;                   // files to read back
  Str program;                    // run this program instead of fstalign (empty: fstalign)
  int disturb = 0;                // other memory layout and contents, other environment (0: none)
  Str text() const;               // printable form
};

struct Out {
  int code = -1;       // exit status (when exited)
  int sig = 0;         // terminating signal, 0 when exited
  bool timeout = false;
  Str log;             // stdout
  Str err;             // stderr
  std::map<Str, Str> files;
  bool has(const Str& f) const { return files.count(f) > 0; }
  bool ok() const { return !sig && !timeout && code == 0; }
  Str why() const;
};

// Runs the program's entry point in a forked child inside the worker's scratch
// directory.
Out run(const Cmd& c, int timeout_s = 20);
// Runs fn in a forked child; what fn returns is handed back in Out::log.
Out run_fn(const std::function<Str()>& fn, int timeout_s = 20);

// -------------------------------------------------------------- exploration
struct Counters {
  uint64_t cases = 0;        // cases of the space evaluated
  uint64_t states = 0;       // model states visited
  uint64_t transitions = 0;  // model transitions taken
  uint64_t traces = 0;       // implementation traces validated against the model
  uint64_t nontrivial = 0;
  std::map<Str, uint64_t> classes;  // distinct observed outcome classes
  std::set<Str> samples;
};

class Explorer {
 public:
  Explorer(const Str& property, const Str& tier, long seed);
  bool thorough() const { return tier_ == "thorough"; }

  // One case of the space.  The body evaluates it and returns "" or the
  // description of the violation.  The body is run only in the worker that
  // owns the case; a violation is re-evaluated before it is reported.
  void visit(const Str& family, const std::function<Str()>& body);

  // to be called by bodies
  void states(uint64_t n) { c_.states += n; }
  void transitions(uint64_t n) { c_.transitions += n; }
  void trace() { c_.traces++; }
  void nontrivial() { c_.nontrivial++; }
  void outcome(const Str& s) { c_.classes[s]++; }
  void sample(const Str& s) { if (c_.samples.size() < 6) c_.samples.insert(s); }
  // the command a violation report has to reproduce
  void replay(const Cmd& c) { last_cmd_ = c; have_cmd_ = true; }
  void replay_text(const Str& s) { last_text_ = s; }
  // identifies the specific failing input for the known-findings file
  void finding_key(const Str& s) { last_key_ = s; }

  bool stopped() const;
  Counters c_;
  std::map<Str, uint64_t> families_;

 private:
  friend int main_loop(int, char**, const Str&, const std::function<void(Explorer&)>&, const struct Meta&);
  Str property_, tier_;
  long seed_;
  uint64_t index_ = 0;
  int worker_ = 0, workers_ = 1;
  Cmd last_cmd_;
  bool have_cmd_ = false;
  Str last_text_, last_key_;
  std::vector<std::pair<Str, Str>> known_;  // key -> what (of this property)
  std::set<Str> known_hit_;
  Str vio_;
  Str viopath_;
  double deadline_ = 0;
  bool capped_ = false;
};

struct Meta {
  Str level = "model_checking";
  Str rule;
  Strs assumptions;
  bool exhaustive = true;
};

int main_loop(int argc, char** argv, const Str& property, const std::function<void(Explorer&)>& enumerate,
              const Meta& meta);

// -------------------------------------------------------------------- utils
Str join(const Strs& v, const Str& sep = " ");
Strs split_ws(const Str& s);
Strs split_on(const Str& s, char sep);
Str strip(const Str& s);
Str rstrip(const Str& s);
bool starts(const Str& s, const Str& p);
bool ends(const Str& s, const Str& p);
Str replace_all(Str s, const Str& a, const Str& b);
Str lower_ascii(Str s);
// upper and lower case letters of several scripts (no context-dependent ones)
const std::vector<std::pair<unsigned, unsigned>>& letter_pairs();
Str utf8(unsigned c);
Strs characters(const Str& s);      // of UTF-8 text
Str lower_letters(const Str& s);
int capitals(const Str& s);

// all sequences over alphabet of length lo..hi, shortest first
void sequences(const Strs& alphabet, int lo, int hi, const std::function<void(const Strs&)>& f);
// same, up to renaming of symbols (restricted growth): symbols are used in
// order of first occurrence across the concatenation of two sequences
void sequence_pairs_canonical(const Strs& alphabet, int lo1, int hi1, int lo2, int hi2,
                              const std::function<void(const Strs&, const Strs&)>& f);
}  // namespace mc
