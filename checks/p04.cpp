// P04: the approximate first pass is only an optimisation.
#include "spaces.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is a pair of runs, with and without the first pass (and with several error-streak limits); both "
           "must report the same number of errors; distinct = outcome classes by number of errors";
  m.assumptions = {"references with one reading; with several readings only error-freeness is required (P06 to P08)"};
  return main_loop(c, v, "P04", [&](Explorer& ex) {
    auto compare = [&](const Str& fam, const Strs& ref, const Strs& hyp, const Str& rf, const Str& hf, const Str& approach,
                       const Strs& limits, int letters = 0) {
      ex.visit(fam, [&, ref, hyp, letters]() -> Str {
        // letter case carries no meaning here; the first pass has to see that, too
        auto written = [&](Strs w, int how) {
          for (size_t i = 0; i < w.size(); i++)
            if (how == 1 || (how == 2 && i % 2) || (how == 3 && (w[i][0] == 'z' || w[i][0] == 'x')))
              for (auto& ch : w[i]) ch = toupper(ch);
          return w;
        };
        Plain p{fam, written(ref, letters & 3), written(hyp, letters >> 2), rf, hf, {}};
        p.o.approach = approach;
        p.o.approx = false;
        Run base = execute(ex, p.input());
        if (!base.ok) return base.problem;
        ex.outcome("errors=" + std::to_string(std::min(base.best.err, 40)));
        if (base.best.err) ex.nontrivial();
        ex.states((ref.size() + 1) * (hyp.size() + 1));
        p.o.approx = true;
        for (auto& l : limits) {
          p.o.extra.clear();
          if (!l.empty()) p.o.extra = {"--levenstein-max-error-streak", l};
          Run r = execute(ex, p.input());
          if (!r.ok) return r.problem;
          ex.trace();
          ex.transitions(r.rows.size());
          if (r.best.err != base.best.err && p.end_marker() && end_marker_signature(ref, hyp, r) && end_marker_signature(ref, hyp, base))
            ex.finding_key("last-word-of-text-hypothesis");
          if (r.best.err != base.best.err)
            return "with the first pass" + (l.empty() ? Str() : " (limit " + l + ")") + " " + std::to_string(r.best.err) +
                   " errors are reported, without it " + std::to_string(base.best.err);
          Str t = validate_trace(Lattice::linear(ref), hyp, r.rows);
          if (!t.empty()) return t;
        }
        return "";
      });
    };
    // around the size threshold: every k-edit variation of several bases
    std::vector<Strs> bases;
    for (int n : {11, 12}) {
      Strs a, b, d, e, f;
      for (int i = 0; i < n; i++) {
        a.push_back("w" + std::to_string(i));
        b.push_back(i % 2 ? "b" : "a");
        d.push_back(i % 3 ? "a" : "b");
        e.push_back("a");
        f.push_back(i < n / 2 ? "w" + std::to_string(i) : "w" + std::to_string(n - 1 - i));  // palindrome
      }
      for (auto& x : {a, b, d, e, f}) bases.push_back(x);
    }
    int bi = 0;
    for (auto& b : bases) {
      bi++;
      bool two = ex.thorough() || b.size() == 11;
      Strs news = {b[2], "x"};
      int n = 0;
      edit_space(b, two ? 2 : 1, news, [&](const Strs& h) {
        n++;
        Str hf = n % 3 ? "ctm" : (n % 2 ? "txt" : "nlp");
        Strs limits = n % 2 ? Strs{"", "1"} : Strs{"", "0"};
        if (n % 2)
          compare("few edits", b, h, "txt", hf, "adapted", limits);
        else
          compare("few edits", h, b, "txt", hf, "adapted", limits);
        if (n % 16 == 0 || b.size() == 12) compare("few edits, standard", b, h, "nlp", "ctm", "standard", {"", "1"});
      });
    }
    // blocks: replaced, removed, added, moved and doubled stretches
    for (int n : {14, 20})
      for (int kind = 0; kind < 2; kind++) {
        Strs b;
        for (int i = 0; i < n; i++) b.push_back(kind ? Strs{"a", "b", "a", "c", "d", "e"}[i % 6] : "w" + std::to_string(i));
        for (int i = 0; i < n; i++)
          for (int l = 1; l + i <= n; l++)
            for (int op = 0; op < 5; op++) {
              if (!ex.thorough() && n == 20 && (i + l) % 2) continue;
              Strs h;
              for (int x = 0; x < n; x++) {
                bool in = x >= i && x < i + l;
                if (op == 0 && in) h.push_back("z");
                if (op == 1 && in) continue;
                if (op == 2 && in) h.push_back("y" + std::to_string(x % 3)), h.push_back(b[x]);
                if (op == 4 && in) h.push_back(b[x]), h.push_back(b[x]);
                if (!in || op == 3) h.push_back(b[x]);
              }
              if (op == 3) {  // move to the front
                Strs f(h.begin() + i, h.begin() + i + l);
                h.erase(h.begin() + i, h.begin() + i + l);
                h.insert(h.begin(), f.begin(), f.end());
              }
              if (h.empty()) continue;
              compare("blocks", b, h, "txt", "ctm", "adapted", {"", l % 2 ? "2" : "4"});
              if (op == 1 || op == 3) compare("blocks", h, b, "ctm", "ctm", "adapted", {""});
            }
      }
    // letter case
    bi = 0;
    for (auto& b : bases) {
      if (b.size() != 11) continue;
      bi++;
      int n = 0;
      edit_space(b, 2, {b[2], "x"}, [&](const Strs& h) {
        n++;
        if (!ex.thorough() && n % 2) return;
        Strs r2 = b, h2 = h;  // an error in front, and a moved word
        r2.insert(r2.begin(), "y"), h2.insert(h2.begin(), b[4]);
        compare("letter case", n % 4 ? b : r2, n % 4 ? h : h2, "txt", n % 8 ? "txt" : "ctm", "adapted", {""}, (n / 2) % 16);
      });
    }
    for (int kind = 0; kind < 2; kind++) {
      Strs b;
      for (int i = 0; i < 16; i++) b.push_back(kind ? Strs{"a", "b", "a", "c", "d", "e"}[i % 6] : "w" + std::to_string(i));
      int n = 0;
      for (int i = 0; i < 16; i++)
        for (int l = 0; l + i <= 16; l++)
          for (int from = 0; from < 16; from += ex.thorough() ? 1 : 3) {  // a stretch is replaced, its first word moves away
            Strs r, h;
            for (int x = 0; x < 16; x++) {
              bool in = x >= i && x < i + l;
              r.push_back(in ? "y" + std::to_string(x % 3) : b[x]);
              h.push_back(in ? x == i ? b[from] : "z" + std::to_string(x % 3) : b[x]);
            }
            if (l) h.erase(h.begin() + i + l - 1);
            n++;
            compare("letter case", r, h, n % 5 ? "txt" : "nlp", n % 3 ? "txt" : "ctm", "adapted", {""}, n % 16);
            if (n % 2) compare("letter case", h, r, n % 7 ? "txt" : "ctm", "txt", "adapted", {""}, 5);
          }
    }
    // a repeated block within the margin of the search
    block_space(ex, 1, [&](const Plain& p) -> Str {
      if (!p.o.approx || lev(p) > kMargin) return "";
      Plain q = p;
      q.o.approx = false;
      Run base = execute(ex, q.input());
      if (!base.ok) return base.problem;
      ex.outcome("errors=" + std::to_string(std::min(base.best.err, 40)));
      ex.nontrivial();
      for (Str l : {"", "3"}) {
        q = p;
        if (!l.empty()) q.o.extra = {"--levenstein-max-error-streak", l};
        Run r = execute(ex, q.input());
        if (!r.ok) return r.problem;
        ex.trace();
        ex.transitions(r.rows.size());
        if (r.best.err != base.best.err)
          return "with the first pass" + (l.empty() ? Str() : " (limit " + l + ")") + " " + std::to_string(r.best.err) +
                 " errors are reported, without it " + std::to_string(base.best.err);
      }
      return "";
    });
    // error streaks at, below and above the default limit
    for (int len : {98, 99, 100, 101, 102, 110})
      for (int op = 0; op < 3; op++)
        for (int pos : {0, 1, 8, 15, 16}) {
          int n = len + 16;
          Strs b, h;
          for (int i = 0; i < n; i++) {
            b.push_back("w" + std::to_string(i));
            bool in = i >= pos && i < pos + len;
            if (!in || op == 2) h.push_back(b[i]);
            if (in && op) h.push_back("x" + std::to_string(i % 7));
          }
          compare("long error streaks", b, h, "txt", "ctm", "adapted", {""});
          compare("long error streaks", h, b, "txt", "ctm", "adapted", {""});
        }
  }, m);
}
