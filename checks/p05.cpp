// P05: the edit-distance library.
#include "fast-d.h"
#include "spaces.h"
using namespace mc;
typedef std::vector<int> Seq;

static int dist(const Seq& a, const Seq& b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++)
    for (size_t j = 0; j <= b.size(); j++)
      d[i][j] = (!i || !j) ? (int)(i + j) : std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])});
  return d[a.size()][b.size()];
}
static Str show(const Seq& s) {
  Str r;
  for (int x : s) r += (r.empty() ? "" : " ") + std::to_string(x);
  return "[" + r + "]";
}

// judges one pair; marks the pairs matched by the maps
static Str judge(Explorer& ex, Seq a, Seq b, bool dirty) {
  int want = dist(a, b);
  ex.states((a.size() + 1) * (b.size() + 1));
  ex.transitions(3 * (a.size() + 1) * (b.size() + 1));
  ex.trace();
  if (want) ex.nontrivial();
  Seq a0 = a, b0 = b, ma, mb;
  if (dirty) {  // a caller may reuse its vectors
    ma.assign(3, 1);
    mb.assign(b.size() + 2, 1);
  }
  Str in = show(a) + " / " + show(b);
  int d1 = GetEditDistance(a, ma, b, mb), d2 = GetEditDistance(a, b), d3 = GetEditDistanceOnly(a, b);
  if (a != a0 || b != b0) return "the sequences were modified: " + in;
  if (d1 != want || d2 != want || d3 != want)
    return "distances " + std::to_string(d1) + "," + std::to_string(d2) + "," + std::to_string(d3) + " instead of " +
           std::to_string(want) + " for " + in;
  if (ma.size() != a.size() || mb.size() != b.size()) return "map sizes do not fit for " + in;
  std::vector<int> pa, pb;
  for (size_t i = 0; i < ma.size(); i++) {
    if (ma[i] != 1 && ma[i] != -1) return "a map entry is neither 1 nor -1 for " + in;
    if (ma[i] == 1) pa.push_back(i);
  }
  for (size_t i = 0; i < mb.size(); i++) {
    if (mb[i] != 1 && mb[i] != -1) return "a map entry is neither 1 nor -1 for " + in;
    if (mb[i] == 1) pb.push_back(i);
  }
  if (pa.size() != pb.size()) return "the maps mark different numbers of matches for " + in + ": " + show(ma) + show(mb);
  int cost = 0, la = -1, lb = -1;
  for (size_t i = 0; i <= pa.size(); i++) {
    int x = i < pa.size() ? pa[i] : a.size(), y = i < pb.size() ? pb[i] : b.size();
    if (i < pa.size() && a[x] != b[y]) return "the maps pair different tokens for " + in + ": " + show(ma) + show(mb);
    cost += std::max(x - la - 1, y - lb - 1);
    la = x;
    lb = y;
  }
  if (cost != want) return "the marked matches need " + std::to_string(cost) + " edits instead of " + std::to_string(want) + " for " + in + ": " + show(ma) + show(mb);
  return "";
}

// runs of non-matches that a later match ends, longer than the limit
static bool streak(const Seq& m, int limit) {
  for (size_t i = 0; i < m.size(); i++) {
    if (m[i] <= 0) continue;
    int n = 0;
    for (int k = (int)i - 1; k >= 0 && m[k] <= 0; k--) n++;
    if (n > limit) return true;
  }
  return false;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is a batch of calls sharing a first sequence (or map); distances, both maps and the streak test "
           "are compared with exhaustive dynamic programming; distinct = outcome classes by batch";
  m.assumptions = {"token values matter only through equality (a space with extreme values is included)"};
  return main_loop(c, v, "P05", [&](Explorer& ex) {
    bool th = ex.thorough();
    auto seqs = [](int k, int n) {
      std::vector<Seq> r = {{}};
      size_t from = 0;
      for (int l = 0; l < n; l++) {
        size_t to = r.size();
        for (; from < to; from++)
          for (int s = 0; s < k; s++) {
            Seq q = r[from];
            q.push_back(s + 1);
            r.push_back(q);
          }
      }
      return r;
    };
    auto batch = [&](const Str& fam, const Seq& a, const std::vector<Seq>& bs, bool dirty) {
      ex.visit(fam, [&]() -> Str {
        ex.replay_text("library calls GetEditDistance / GetEditDistanceOnly on " + show(a));
        ex.outcome(fam + " |a|=" + std::to_string(a.size()));
        Out o = run_fn([&]() -> Str {
          for (auto& b : bs) {
            Str t = judge(ex, a, b, dirty);
            if (!t.empty()) return t;
          }
          return "";
        });
        // counters of the child are lost: account for them here
        for (auto& b : bs) {
          ex.states((a.size() + 1) * (b.size() + 1));
          ex.transitions(3 * (a.size() + 1) * (b.size() + 1));
          ex.trace();
          if (a != b) ex.nontrivial();
        }
        if (!o.ok()) return "a call failed: " + o.why();
        return o.log;
      });
    };
    auto all3 = seqs(3, th ? 7 : 6), all2 = seqs(2, th ? 10 : 8);
    for (auto& a : all3) batch("three symbols", a, all3, false);
    for (auto& a : all2) batch("two symbols", a, all2, false);
    auto small = seqs(3, 4);
    for (auto& a : small) batch("reused map vectors", a, small, true);
    // extreme values, and values that differ in one bit only
    auto ex4 = seqs(4, 4);
    Seq vals = {0, -1, 2147483647, (int)-2147483648LL};
    for (auto& q : ex4)
      for (auto& x : q) x = vals[x - 1];
    for (auto& a : ex4) batch("extreme values", a, ex4, false);
    // long sequences: every placement of up to two edits, and blocks
    for (int n : {40, 130, 300})
      for (int kind = 0; kind < 4; kind++) {
        Seq a;
        for (int i = 0; i < n; i++) a.push_back(kind == 0 ? i : kind == 1 ? i % 2 : kind == 2 ? 7 : (i * i) % 11);
        std::vector<Seq> bs;
        int step = n == 40 ? 1 : n / 20;
        for (int i = 0; i <= n; i += step)
          for (int j = i; j <= n; j += step * (th ? 1 : 3)) {
            Seq b = a, d = a, e = a;
            b.insert(b.begin() + j, 3);
            b.insert(b.begin() + i, 99);
            bs.push_back(b);
            d.erase(d.begin() + i, d.begin() + j);
            bs.push_back(d);
            for (int k = i; k < j; k++) e[k] = 1000 + k % 3;
            bs.push_back(e);
          }
        for (size_t k = 0; k < bs.size(); k += 40) {
          std::vector<Seq> part(bs.begin() + k, bs.begin() + std::min(bs.size(), k + 40));
          batch("long", a, part, false);
          ex.visit("long, swapped", [&]() -> Str {
            Out o = run_fn([&]() -> Str {
              for (auto& b : part) {
                Str t = judge(ex, b, a, false);
                if (!t.empty()) return t;
              }
              return "";
            }, 60);
            ex.trace();
            return o.ok() ? o.log : "a call failed: " + o.why();
          });
        }
      }
    // lengths and distances around the limits of small integer types
    for (int n : {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 70001})
      for (int k : {1, 2, 3}) {
        if (n > 300 && n < 40000 && k == 3) continue;
        Seq a, near, far;
        for (int i = 0; i < n; i++) a.push_back(i % 5 + i / 1000);
        for (int i = 0; i < k; i++) near.push_back(a[(i + 1) * n / (k + 1)]), far.push_back(-5 - i);
        batch("lengths", near, {a}, false);
        batch("lengths", a, {near, far}, false);
        batch("lengths", far, {a}, true);
      }
    for (int n : {127, 128, 129, 255, 256, 257, 1000}) {
      Seq a, b, d;
      for (int i = 0; i < n; i++) a.push_back(i), b.push_back(-1 - i), d.push_back(i % 3 ? i : -i - 1);
      batch("lengths", a, {a, b, d}, false);
      b.push_back(n / 2);
      batch("lengths", b, {a, d}, false);
    }
    // every map over {-1, 0, 1} and every limit around its length
    for (auto& q : seqs(3, th ? 10 : 9)) {
      if (q.size() < 3) {
      } else if (q[0] != 1 && q[1] != 1 && q[2] == 2 && !th && q.size() == 9 && false) {
        continue;
      }
      Seq mp;
      for (int x : q) mp.push_back(x - 2);
      ex.visit("streaks", [&]() -> Str {
        for (int lim = -1; lim <= (int)mp.size() + 1; lim++) {
          bool got = MapContainsErrorStreaks(mp, lim), want = streak(mp, lim);
          ex.states(1);
          ex.transitions(mp.size());
          ex.trace();
          if (want) ex.nontrivial();
          ex.outcome(want ? "streak" : "no streak");
          if (got != want) {
            ex.replay_text("MapContainsErrorStreaks(" + show(mp) + ", " + std::to_string(lim) + ")");
            return "MapContainsErrorStreaks(" + show(mp) + ", " + std::to_string(lim) + ") is " + (got ? "true" : "false");
          }
        }
        return "";
      });
    }
    for (int run : {98, 99, 100, 101, 102, 500})
      for (int lim : {99, 100, 101})
        for (int pre : {0, 1, 5})
          for (int post : {0, 1, 5})
            ex.visit("streaks, long", [&]() -> Str {
              Seq mp(pre, 1);
              mp.insert(mp.end(), run, -1);
              mp.insert(mp.end(), post, 1);
              ex.trace();
              bool got = MapContainsErrorStreaks(mp, lim), want = streak(mp, lim);
              return got == want ? "" : "a run of " + std::to_string(run) + " at limit " + std::to_string(lim) + " is judged " + (got ? "too long" : "fine");
            });
  }, m);
}
