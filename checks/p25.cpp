// P25: a graph reference is read along the path closest to the hypothesis.
#include "graph.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with a graph reference; the product of the graph and the hypothesis is explored completely for the "
           "smallest number of errors over all paths, and the reported alignment is replayed on it; distinct = outcome classes by family and result";
  m.assumptions = {"lattices are acyclic and their arcs carry no weights", "standard composition, as documented for FST inputs"};
  return main_loop(c, v, "P25", [&](Explorer& ex) {
    bool deep = ex.thorough();
    int n = 0;
    auto judge = [&](const Strs& hyp, const Str& hf, const Lattice& given, int style, const Strs& extra) -> Str {
      Lattice l = modelled(given);
      LatticeFile f = lattice_file(given, style & kOtherOrder ? Strs{"x", "c", "b", "a"} : Strs{}, style);
      Input in;
      in.rfmt = "fst";
      in.hfmt = hf;
      in.ref = f.fst;
      in.hyp = as_format(hyp, hf);
      in.more["symbols.txt"] = f.symbols;
      in.o.approach = "standard";
      in.o.extra = {"--symbols", "symbols.txt"};
      in.o.extra.insert(in.o.extra.end(), extra.begin(), extra.end());
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      int F = edit_distance(l, hyp, &ex), E = r.best.err;
      Str t = validate_trace(l, hyp, r.rows);
      if (!t.empty()) return t;
      Counts k = count_rows(r.rows);
      if (k.errors() != E || k.ins != r.best.ins || k.del != r.best.del || k.sub != r.best.sub) return "the totals are not those of the alignment";
      ex.outcome(std::to_string(std::min(3, E)) + (E == F ? " errors, smallest" : E > F ? " errors, not smallest" : " errors, too few"));
      if (F) ex.nontrivial();
      if (E < F) return "reports " + std::to_string(E) + " errors, the closest path has " + std::to_string(F);
      if (E == F) return "";
      if (!F) return "reports " + std::to_string(E) + " errors for a hypothesis that is a path of the graph";
      int most = 1 << 20, len = 1;
      for (auto& x : alignments(l, hyp, false, &ex))
        if (x.first < most) most = x.first, len = std::max(1, x.second);
        else if (x.first == most) len = std::min(len, std::max(1, x.second));
      if ((double)E / std::max(1, r.best.words) > (double)most / len + 1e-9)
        return "reports " + std::to_string(E) + " errors of " + std::to_string(r.best.words) + ", there is an alignment with " + std::to_string(most) + " of " + std::to_string(len);
      return "";
    };
    graph_space(deep, [&](const Str& fam, const Strs& hyp, const Lattice& l) {
      n++;
      Str hf = Strs{"txt", "ctm", "nlp"}[n % 3];
      int style = mixed_style(n);
      Strs extra;
      if (n % 5 == 0) extra = {"--disable-approx-alignment"};
      ex.visit(fam, [&]() { return judge(hyp, hf, l, style, extra); });
    });
    // a graph on both sides
    std::vector<Lattice> some;
    graph_space(false, [&](const Str& fam, const Strs&, const Lattice& l) {
      if (fam != "three nodes" && fam != "several ends" && fam != "4 nodes") return;
      static size_t k = 0;
      if (fam == "4 nodes" ? k++ % (deep ? 61 : 199) == 7 : k++ % (deep ? 41 : 83) == 3) some.push_back(l);
    });
    for (size_t x = 0; x < some.size(); x++)
      for (size_t y = 0; y < some.size(); y++)
        ex.visit("a graph on both sides", [&]() -> Str {
          int way = mixed_style(x * 61 + y);
          LatticeFile f = lattice_file(some[x], {"a", "b", "x"}, way), g = lattice_file(some[y], {"a", "b", "x"}, way ^ kGraphStyles);
          if (f.symbols != g.symbols) return "the check's own symbol tables differ";
          Input in;
          in.rfmt = in.hfmt = "fst";
          in.ref = f.fst;
          in.hyp = g.fst;
          in.more["symbols.txt"] = f.symbols;
          in.o.approach = "standard";
          in.o.extra = {"--symbols", "symbols.txt", "--disable-approx-alignment"};
          Run r = execute(ex, in);
          if (!r.ok) return r.problem;
          ex.trace();
          Strs rw, hw;
          for (auto& z : r.rows) {
            if (z.ref != "<ins>") rw.push_back(z.ref);
            if (z.hyp != "<del>") hw.push_back(z.hyp);
          }
          Lattice A = modelled(some[x]), B = modelled(some[y]);
          if (!accepts(A, rw)) return "the reference side is no path of the reference graph: '" + join(rw) + "'";
          if (!accepts(B, hw)) return "the hypothesis side is no path of the hypothesis graph: '" + join(hw) + "'";
          int E = count_rows(r.rows).errors(), F = 1 << 20, len = 1;
          if (E != r.best.err) return "the totals are not those of the alignment";
          for (auto& z : graph_alignments(A, B, &ex))
            if (z.first < F) F = z.first, len = std::max(1, z.second);
            else if (z.first == F) len = std::min(len, std::max(1, z.second));
          if (F) ex.nontrivial();
          ex.outcome("both graphs, " + std::to_string(std::min(3, E)) + " errors");
          if (E < F) return "reports " + std::to_string(E) + " errors, the closest pair of paths has " + std::to_string(F);
          if (!F && E) return "reports " + std::to_string(E) + " errors, the graphs share a path";
          if (E > F && (double)E / std::max(1, r.best.words) > (double)F / len + 1e-9)
            return "reports " + std::to_string(E) + " errors of " + std::to_string(r.best.words) + ", there is an alignment with " + std::to_string(F) + " of " + std::to_string(len);
          return "";
        });
  }, m);
}
