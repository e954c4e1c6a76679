// P26: the test data generator makes exactly the differences it announces.
#include <cmath>
#include "scen.h"
using namespace mc;

struct Config {
  Str ref;                 // given reference ("" : drawn)
  int length = 0, voc = 0; // of a drawn one
  double f[3];             // fractions of insertions, deletions, substitutions
};

// is there an alignment with exactly these numbers, substitutions between different words
static bool possible(const Strs& a, const Strs& b, int I, int D, int S, Explorer& ex) {
  std::set<std::vector<int>> at = {{0, 0, 0, 0}};
  std::vector<std::vector<int>> todo = {{0, 0, 0, 0}};
  while (!todo.empty()) {
    auto x = todo.back();
    todo.pop_back();
    ex.states(1);
    int i = x[0], ins = x[1], del = x[2], sub = x[3], j = i - del + ins;
    if (i == (int)a.size() && j == (int)b.size() && ins == I && del == D && sub == S) return true;
    auto go = [&](std::vector<int> y) {
      ex.transitions(1);
      if (at.insert(y).second) todo.push_back(y);
    };
    if (j < (int)b.size() && ins < I) go({i, ins + 1, del, sub});
    if (i < (int)a.size() && del < D) go({i + 1, ins, del + 1, sub});
    if (i < (int)a.size() && j < (int)b.size()) {
      if (a[i] == b[j]) go({i + 1, ins, del, sub});
      else if (sub < S) go({i + 1, ins, del, sub + 1});
    }
  }
  return false;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case explores all sequences of random draws of the generator that start with one prefix (stateless depth-first search with the random "
           "number generator under control), up to the depth bound; each run's files and announcement are judged; distinct = numbers announced";
  m.assumptions = {"at least two different words", "one fixed hash order per configuration"};
  return main_loop(c, v, "P26", [&](Explorer& ex) {
    bool deep = ex.thorough();
    Str repo = getenv("REPO") && *getenv("REPO") ? getenv("REPO") : "/repo";
    Str home = getenv("VERIF_HOME") && *getenv("VERIF_HOME") ? getenv("VERIF_HOME") : "/verif";
    auto explore = [&](const Config& g, const Str& seed, const Str& prefix, int depth, int limit) -> Str {
      Strs kinds;
      Str menu;
      double sum = 0;
      for (int i = 0; i < 4; i++) {
        double f = i < 3 ? g.f[i] : 1 - sum;
        if (f < 1e-9) continue;
        kinds.push_back(Strs{"INS", "DEL", "SUB", "OK"}[i]);
        menu += (menu.empty() ? "" : " ") + std::to_string(sum + f / 2);
        sum += f;
      }
      Cmd c;
      c.program = "env";
      c.args = {"PERL_HASH_SEED=" + seed, "PERL_PERTURB_KEYS=0", "perl", home + "/harness/perl/drive.pl", repo + "/tools/generate_wer_test_data.pl",
                std::to_string(limit), std::to_string(depth), menu, prefix};
      if (!g.ref.empty()) {
        c.files["in.txt"] = g.ref;
        c.args.insert(c.args.end(), {"--iref", "in.txt"});
      } else {
        c.args.insert(c.args.end(), {"--ref_length", std::to_string(g.length), "--voc_length", std::to_string(g.voc)});
      }
      for (int i = 0; i < 3; i++) c.args.insert(c.args.end(), {Strs{"--ins_fract", "--del_fract", "--sub_fract"}[i], std::to_string(g.f[i])});
      ex.replay(c);
      Out o = run(c, 600);
      if (!o.ok()) return "the exploration failed: " + o.why();
      std::istringstream in(o.log);
      Str line;
      int runs = 0;
      auto part = [&](const Str& name) {
        Str n;
        size_t k;
        in >> n >> k;
        if (n != name) throw std::runtime_error("the exploration's protocol is broken at " + n);
        in.get();
        Str x(k, 0);
        in.read(&x[0], k);
        in.get();
        return x;
      };
      while (std::getline(in, line)) {
        if (starts(line, "END")) break;
        if (!starts(line, "RUN ")) continue;
        Str status = line.substr(4), draws;
        std::getline(in, draws);
        Str rf = part("ref.out"), hf = part("hyp.out"), said = part("said"), err = part("err");
        runs++;
        ex.trace();
        int drawn[4] = {0, 0, 0, 0};
        for (auto& d : split_ws(draws.substr(6)))
          if (d[0] == 'k') {
            Str k = kinds[atoi(d.c_str() + 1)];
            drawn[k == "INS" ? 0 : k == "DEL" ? 1 : k == "SUB" ? 2 : 3]++;
          }
        auto bad = [&](const Str& t) { return t + "\ndraws:" + draws.substr(5) + "\nreference: " + rf + "hypothesis: " + hf + "said: " + said + err; };
        if (status != "0") return bad("the generator fails with status " + status);
        Strs ref = split_ws(rf), hyp = split_ws(hf);
        std::set<Str> vocabulary;
        if (!g.ref.empty()) {
          if (ref != split_ws(g.ref)) return bad("the reference written is not the one given");
          for (auto& w : ref) vocabulary.insert(w);
        } else {
          for (int i = 0; i < g.voc; i++) {
            char w[16];
            snprintf(w, sizeof w, "w%06d", i);
            vocabulary.insert(w);
          }
          if ((int)ref.size() != g.length) return bad("the reference has " + std::to_string(ref.size()) + " words");
        }
        for (auto& w : ref)
          if (!vocabulary.count(w)) return bad("the reference has the word " + w);
        for (auto& w : hyp)
          if (!vocabulary.count(w)) return bad("the hypothesis has the word " + w);
        int n[3] = {-1, -1, -1};
        double wer = -1;
        for (auto& l : split_on(said, '\n')) {
          char k[8];
          int x;
          if (sscanf(l.c_str(), "%d %3s", &x, k) == 2)
            for (int i = 0; i < 3; i++)
              if (Str(k) == Strs{"INS", "DEL", "SUB"}[i]) n[i] = x;
          sscanf(l.c_str(), "expected WER %lf", &wer);
        }
        if (n[0] < 0 || n[1] < 0 || n[2] < 0) return bad("no announcement");
        ex.outcome(std::to_string(std::min(3, n[0])) + " " + std::to_string(std::min(3, n[1])) + " " + std::to_string(std::min(3, n[2])));
        if (n[0] + n[1] + n[2]) ex.nontrivial();
        if ((int)hyp.size() != (int)ref.size() + n[0] - n[1]) return bad("the lengths do not differ by insertions minus deletions");
        if (!possible(ref, hyp, n[0], n[1], n[2], ex)) return bad("the hypothesis is not the reference with the differences announced");
        if (std::fabs(wer - (double)(n[0] + n[1] + n[2]) / ref.size()) > 6e-4) return bad("another expected WER");
        if (n[1] != drawn[1] || n[2] != drawn[2] || n[0] > drawn[0]) return bad("the differences are not those drawn");
        for (int i = 0; i < 3; i++)
          if (g.f[i] == 0 && n[i]) return bad("a kind of difference not asked for");
      }
      if (!starts(line, "END ") || atoi(line.c_str() + 4) != runs) return "the exploration ended early";
      return "";
    };
    std::vector<std::vector<double>> fractions = {{.2, .2, .2}, {.3, .3, 0}, {.25, .25, .5}, {0, .4, .4}, {.5, 0, .25}, {0, 0, .5}, {0, .5, 0}, {.5, 0, 0}, {0, 0, 0}};
    auto go = [&](const Str& fam, const Config& g, const Str& seed, int depth, int prefix, int limit) {
      int kinds = 0;
      double sum = 0;
      for (double f : g.f) kinds += f > 0, sum += f;
      if (sum < 1 - 1e-9) kinds++;
      // prefixes: the first draw (a kind, or a word of a drawn reference)
      int first = g.ref.empty() ? g.voc : kinds;
      if (!prefix) {
        ex.visit(fam, [&]() { return explore(g, seed, "", depth, limit); });
        return;
      }
      for (int i = 0; i < first; i++)
        ex.visit(fam, [&]() { return explore(g, seed, std::to_string(i), depth, limit); });
    };
    for (auto& f : fractions)
      for (auto seed : deep ? Strs{"0", "1", "2", "3"} : Strs{"0", "1"}) {
        for (auto r : {"a b\n", "a b c\n", "a b a\n", "b\na  c \n", "  a b\n\n c\n", "a\tb c", "a a b b\n", "d c b a\n"}) {
          Config g{r, 0, 0, {f[0], f[1], f[2]}};
          go("given reference", g, seed, deep ? 7 : 5, 1, 100000);
        }
        for (int len = 1; len <= (deep ? 4 : 3); len++)
          for (int voc : {2, 3}) {
            Config g{"", len, voc, {f[0], f[1], f[2]}};
            go("drawn reference", g, seed, len + (deep ? 4 : 3), 1, 100000);
          }
        // longer ones: all kinds, the words taking turns
        Config g{"a b c d e f g\n", 0, 0, {f[0], f[1], f[2]}};
        go("longer reference", g, seed, deep ? 6 : 4, 1, 100000);
      }
  }, m);
}
