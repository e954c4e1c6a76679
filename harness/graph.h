// Word graphs: OpenFST files of them, and a complete space of small ones.
#pragma once
#include <cmath>
#include "spaces.h"

namespace mc {

// OpenFST's binary format of a vector FST over standard arcs
template <class T>
inline void put(Str& s, T x) {
  s.append((const char*)&x, sizeof x);
}
inline void put_text(Str& s, const Str& t) {
  put<int32_t>(s, t.size());
  s += t;
}
struct LatticeFile {
  std::map<Str, int> ids;
  Str symbols, fst;
};
inline const Strs kVocabulary = {"a", "b", "c", "x", "y"};
// the same language with one final node
inline Lattice modelled(Lattice l) {
  for (int n : l.ends) l.edge(n, l.final, "");
  l.ends.clear();
  return l;
}
// ways to write the same graph
enum {
  kTabs = 1,         // in the symbols file
  kOwnNames = 2,     // the symbols file does not list the program's own symbols
  kOtherOrder = 4,   // of the symbols
  kGaps = 8,         // in the numbering of the symbols
  kNodesTurned = 16, // the nodes numbered from the end
  kLinesTurned = 32, // the lines of the symbols file in another order than the numbers
  kTablesInside = 64,// symbol tables inside the graph file
  kArcsTurned = 128, // the arcs of a node in another order
  kGraphStyles = kNodesTurned | kTablesInside | kArcsTurned
};
inline int mixed_style(size_t n) { return n * 2654435761u >> 9 & 255; }

inline LatticeFile lattice_file(const Lattice& l, const Strs& order, int style) {
  LatticeFile f;
  int id = 0;
  Str txt;
  auto sym = [&](const Str& w) {
    if (f.ids.count(w)) return;
    f.ids[w] = id;
    Str line = w + (style & kTabs ? "\t" : " ") + std::to_string(id) + "\n";
    txt = style & kLinesTurned ? line + txt : txt + line;
    id += style & kGaps ? 1 + id % 3 * 40 : 1;
  };
  sym("<eps>");
  if (!(style & kOwnNames))
    for (auto s : {"<oov>", "<ins>", "<del>", "<sub>", "<unk>"}) sym(s);
  for (auto& w : order) sym(w);
  for (auto& e : l.edges)
    if (!e.word.empty()) sym(e.word);
  f.symbols = txt;
  std::vector<std::vector<const Edge*>> out(l.nodes);
  for (auto& e : l.edges) out[e.from].push_back(&e);
  put<int32_t>(f.fst, 2125659606);
  put_text(f.fst, "vector");
  put_text(f.fst, "standard");
  put<int32_t>(f.fst, 2);   // version
  put<int32_t>(f.fst, style & kTablesInside ? 3 : 0);
  put<uint64_t>(f.fst, 3);  // expanded, mutable
  auto nr = [&](int i) { return style & kNodesTurned ? l.nodes - 1 - i : i; };
  put<int64_t>(f.fst, nr(0));  // start
  put<int64_t>(f.fst, l.nodes);
  put<int64_t>(f.fst, l.edges.size());
  for (int k = 0; style & kTablesInside && k < 2; k++) {
    put<int32_t>(f.fst, 2125658996);
    put_text(f.fst, "inside");
    put<int64_t>(f.fst, id);
    put<int64_t>(f.fst, f.ids.size());
    for (auto& s : f.ids) put_text(f.fst, s.first), put<int64_t>(f.fst, s.second);
  }
  for (int k = 0; k < l.nodes; k++) {
    int i = nr(k);  // turning twice is no turn
    if (style & kArcsTurned) std::reverse(out[i].begin(), out[i].end());
    bool last = i == l.final || std::count(l.ends.begin(), l.ends.end(), i);
    put<float>(f.fst, last ? 0.0f : INFINITY);
    put<int64_t>(f.fst, out[i].size());
    for (auto e : out[i]) {
      int w = e->word.empty() ? 0 : f.ids[e->word];
      put<int32_t>(f.fst, w);
      put<int32_t>(f.fst, w);
      put<float>(f.fst, 0.0f);
      put<int32_t>(f.fst, nr(e->to));
    }
  }
  return f;
}
// is the word sequence a path of the lattice
inline bool accepts(const Lattice& l, const Strs& w) {
  std::set<std::pair<int, int>> seen;
  std::function<bool(int, int)> go = [&](int at, int i) {
    if (!seen.insert({at, i}).second) return false;
    if (at == l.final && i == (int)w.size()) return true;
    for (auto& e : l.edges)
      if (e.from == at) {
        if (e.word.empty() ? go(e.to, i) : i < (int)w.size() && w[i] == e.word && go(e.to, i + 1)) return true;
      }
    return false;
  };
  return go(0, 0);
}
inline bool useful(const Lattice& l) {  // every node on a path
  std::vector<int> f(l.nodes), b(l.nodes);
  f[0] = b[l.final] = 1;
  for (int n : l.ends) b[n] = 1;
  for (int k = 0; k < l.nodes; k++)
    for (auto& e : l.edges) f[e.to] |= f[e.from], b[e.from] |= b[e.to];
  for (int i = 0; i < l.nodes; i++)
    if (!f[i] || !b[i]) return false;
  return true;
}

// go(family, words, graph): all graphs of 3, 4 and (thorough) 5 nodes with all or
// some word sequences, and long chains with a branch at every position
inline void graph_space(bool deep, const std::function<void(const Str&, const Strs&, const Lattice&)>& visit) {
  int skip = 0;
  auto go = [&](const Str& fam, const Strs& w, const Lattice& l) {
    if (!w.empty() && useful(l)) visit(fam, w, l);
  };
  // every lattice of three nodes: between two nodes any set of arcs
  std::vector<Strs> sets;
  Strs labels = {"", "a", "b"};
  for (int k = 0; k < 8; k++) {
    Strs s;
    for (int i = 0; i < 3; i++)
      if (k >> i & 1) s.push_back(labels[i]);
    sets.push_back(s);
  }
  auto fill = [](Lattice& l, int a, int b, const Strs& s) {
    for (auto& w : s) l.edge(a, b, w);
  };
  for (auto& s01 : sets)
    for (auto& s12 : sets)
      for (auto& s02 : sets) {
        Lattice l;
        l.add(), l.add();
        l.final = 2;
        fill(l, 0, 1, s01), fill(l, 1, 2, s12), fill(l, 0, 2, s02);
        sequences({"a", "b"}, 1, 3, [&](const Strs& r) { go("three nodes", r, l); });
      }
  // final nodes that can be left
  for (auto& s01 : sets)
    for (auto& s12 : sets)
      for (int more = 1; more < 4; more++)
        for (int s02 : {0, 2, 7}) {
          Lattice l;
          l.add(), l.add();
          l.final = 2;
          fill(l, 0, 1, s01), fill(l, 1, 2, s12), fill(l, 0, 2, sets[s02]);
          if (more & 1) l.ends.push_back(1);
          if (more & 2) l.ends.push_back(0);
          sequences({"a", "b"}, 1, deep ? 3 : 2, [&](const Strs& r) { go("several ends", r, l); });
        }
  // four and (thorough) five nodes, one arc or none between two nodes
  for (int N = 4; N <= (deep ? 5 : 4); N++) {
    std::vector<std::pair<int, int>> pr;
    for (int i = 0; i < N; i++)
      for (int j = i + 1; j < N; j++)
        if (N == 4 || j - i <= 3) pr.push_back({i, j});
    int K = N == 4 ? 4 : 3;
    std::function<void(size_t, Lattice)> rec = [&](size_t k, Lattice l) {
      if (k == pr.size()) {
        if (!useful(l)) return;
        int q = 0;
        for (auto& r : std::vector<Strs>{{"a"}, {"a", "b"}, {"b", "a", "a"}, {"a", "x", "b"}, {"b", "b", "a", "b"}}) {
          q++;
          if (!deep && ++skip % 3 == q % 3) continue;
          go(std::to_string(N) + " nodes", r, l);
        }
        return;
      }
      for (int x = 0; x < K; x++) {
        Lattice t = l;
        if (x == 1) t.edge(pr[k].first, pr[k].second, "a");
        if (x == 2) t.edge(pr[k].first, pr[k].second, "b");
        if (x == 3) t.edge(pr[k].first, pr[k].second, "");
        rec(k + 1, t);
      }
    };
    Lattice l;
    for (int i = 1; i < N; i++) l.add();
    l.final = N - 1;
    rec(0, l);
  }
  // longer ones: a chain with a branch, at every position
  for (int L : {12, 30, 60})
    for (int at = 0; at < L; at += L / 6)
      for (int kind = 0; kind < 6; kind++)
        for (int edit = 0; edit < (deep ? 12 : 6); edit++) {
          Strs ref;
          for (int i = 0; i < L; i++) ref.push_back("w" + std::to_string(i % 23));
          Lattice l;
          int p = 0;
          int ed = (at + 3 + edit * 5) % L;
          for (int i = 0; i < L; i++) {
            int q = l.add();
            if (i != ed || edit % 3 != 0) l.edge(p, q, i == ed && edit % 3 == 1 ? "z" : ref[i]);
            else l.edge(p, q, "");
            if (i == at) {
              if (kind == 0) l.edge(p, q, "x");
              if (kind == 1) l.edge(p, q, "");
              if (kind == 2) l.path(p, q, {"x", ref[i]}, "");
              if (kind == 3) l.path(p, q, {"x", "y", "z"}, "");
              if (kind == 4) l.path(p, q, {ref[(i + 1) % L], ref[i]}, ""), l.edge(p, q, "y");
              if (kind == 5) l.path(p, q, {ref[i], "x"}, ""), l.path(p, q, {"x", ref[i]}, ""), l.edge(p, q, "");
            }
            p = q;
          }
          l.final = p;
          Strs r2 = ref;
          if (edit % 2) r2.erase(r2.begin() + at);
          else if (edit % 4 == 2) r2.insert(r2.begin() + at, "x");
          go("chain with a branch", r2, l);
        }
}
// (errors, reference words) of every alignment of a path of one with a path of the other
inline std::set<std::pair<int, int>> graph_alignments(const Lattice& a, const Lattice& b, Explorer* ex) {
  std::map<std::pair<int, int>, std::set<std::pair<int, int>>> at;
  at[{0, 0}] = {{0, 0}};
  auto ta = a.topo(), tb = b.topo();
  for (int x : ta)
    for (int y : tb) {
      auto it = at.find({x, y});
      if (it == at.end()) continue;
      auto here = it->second;
      if (ex) ex->states(1);
      auto step = [&](int p, int q, int e, int w) {
        if (ex) ex->transitions(1);
        for (auto& k : here) at[{p, q}].insert({k.first + e, k.second + w});
      };
      for (auto& e : a.edges) {
        if (e.from != x) continue;
        step(e.to, y, !e.word.empty(), !e.word.empty());
        if (e.word.empty()) continue;
        for (auto& f : b.edges)
          if (f.from == y && !f.word.empty()) step(e.to, f.to, e.word != f.word, 1);
      }
      for (auto& f : b.edges)
        if (f.from == y) step(x, f.to, !f.word.empty(), 0);
    }
  return at[{a.final, b.final}];
}
}  // namespace mc
