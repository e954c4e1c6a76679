// P19: a lattice hypothesis is read along its most accurate path.
#include "graph.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with a lattice hypothesis; the product of the reference and the lattice is explored completely for the "
           "smallest number of errors over all paths, and the reported alignment is replayed on it; distinct = outcome classes by family and result";
  m.assumptions = {"lattices are acyclic and their arcs carry no weights", "standard composition, as documented for FST inputs"};
  return main_loop(c, v, "P19", [&](Explorer& ex) {
    bool deep = ex.thorough();
    int n = 0;
    auto judge = [&](const Strs& ref, const Str& rf, const Lattice& given, int style, const Strs& extra) -> Str {
      Lattice l = modelled(given);
      LatticeFile f = lattice_file(given, style & kOtherOrder ? Strs{"x", "c", "b", "a"} : Strs{}, style);
      Input in;
      in.rfmt = rf;
      in.hfmt = "fst";
      in.ref = as_format(ref, rf);
      in.hyp = f.fst;
      in.more["symbols.txt"] = f.symbols;
      in.o.approach = "standard";
      in.o.extra = {"--symbols", "symbols.txt"};
      in.o.extra.insert(in.o.extra.end(), extra.begin(), extra.end());
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      int F = edit_distance(l, ref, &ex);
      Strs rw, hw;
      for (auto& x : r.rows) {
        if (x.ref != "<ins>") rw.push_back(x.ref);
        if (x.hyp != "<del>") hw.push_back(x.hyp);
      }
      if (rw != ref) return "the reference side reads '" + join(rw) + "'";
      if (!accepts(l, hw)) return "the hypothesis side is no path of the lattice: '" + join(hw) + "'";
      Counts k = count_rows(r.rows);
      if (k.errors() != r.best.err || k.ins != r.best.ins || k.del != r.best.del || k.sub != r.best.sub || r.best.words != (int)ref.size())
        return "the totals are not those of the alignment";
      ex.outcome(std::to_string(std::min(3, k.errors())) + (k.errors() == F ? " errors, smallest" : k.errors() > F ? " errors, not smallest" : " errors, too few"));
      if (F) ex.nontrivial();
      if (k.errors() != F) return "reports " + std::to_string(k.errors()) + " errors, the best path has " + std::to_string(F);
      return "";
    };
    graph_space(deep, [&](const Str& fam, const Strs& ref, const Lattice& l) {
      n++;
      Str rf = Strs{"txt", "ctm", "nlp"}[n % 3];
      int style = mixed_style(n);
      Strs extra;
      if (n % 5 == 0) extra = {"--disable-approx-alignment"};
      ex.visit(fam, [&]() { return judge(ref, rf, l, style, extra); });
    });
    // references with several readings
    rich_space(ex, 1, [&](const Rich& q) -> Str {
      size_t key = q.rows.size() * 3 + q.hyp.size() * 5 + q.rules.size() + q.norm.size();
      if (q.o.approach != "standard" || !q.implied.empty()) return "";
      if (!deep && key % 3) return "";
      Rich p = q;
      Lattice g;  // the hypothesis, and a branch somewhere
      int at = p.hyp.empty() ? 0 : key % p.hyp.size(), x = 0;
      for (size_t i = 0; i < p.hyp.size(); i++) {
        int y = g.add();
        g.edge(x, y, p.hyp[i]);
        if ((int)i == at) {
          if (key % 4 == 0) g.edge(x, y, "x");
          if (key % 4 == 1) g.edge(x, y, "");
          if (key % 4 == 2) g.path(x, y, {p.hyp[i], "y"}, "");
          if (key % 4 == 3) g.path(x, y, {"x", "y"}, ""), g.edge(x, y, "b");
        }
        x = y;
      }
      g.final = x;
      LatticeFile f = lattice_file(g, {}, mixed_style(key));
      Input in = p.input();
      in.hfmt = "fst";
      in.hyp = f.fst;
      in.more["symbols.txt"] = f.symbols;
      in.o.extra.insert(in.o.extra.end(), {"--symbols", "symbols.txt", "--disable-approx-alignment"});
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      Strs hw;
      for (auto& z : r.rows)
        if (z.hyp != "<del>") hw.push_back(z.hyp);
      if (!accepts(g, hw)) return "the hypothesis side is no path of the lattice: '" + join(hw) + "'";
      Lattice l = p.lattice();
      Str t = validate_trace(l, hw, r.rows, true, Rich::class_eq);
      if (!t.empty()) return t;
      int E = count_rows(r.rows).errors(), F = 1 << 20, len = 1;
      if (E != r.best.err) return "the totals are not those of the alignment";
      for (auto& z : graph_alignments(l, g, &ex))
        if (z.first < F) F = z.first, len = std::max(1, z.second);
        else if (z.first == F) len = std::min(len, std::max(1, z.second));
      if (F) ex.nontrivial();
      ex.outcome("several readings, " + std::to_string(std::min(3, E)) + " errors");
      if (E < F) return "reports " + std::to_string(E) + " errors, the closest path and reading have " + std::to_string(F);
      if (!F && E) return "reports " + std::to_string(E) + " errors, a path is one of the reference's readings";
      if (E > F && (double)E / std::max(1, r.best.words) > (double)F / len + 1e-9)
        return "reports " + std::to_string(E) + " errors of " + std::to_string(r.best.words) + ", there is an alignment with " + std::to_string(F) + " of " + std::to_string(len);
      return "";
    });
  }, m);
}
