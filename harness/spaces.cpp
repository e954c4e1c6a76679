#include "spaces.h"

#include <functional>

namespace mc {

Str rules_text(const std::vector<Rule>& r) {
  Str s;
  for (auto& q : r) {
    s += join(q.lhs) + " | ";
    for (size_t i = 0; i < q.rhs.size(); i++) s += (i ? " ; " : "") + join(q.rhs[i]);
    s += "\n";
  }
  return s;
}

Str norm_json(const std::map<Str, std::vector<Strs>>& n) {
  Json::Value v = Json::objectValue;
  for (auto& k : n) {
    Json::Value c = Json::arrayValue;
    for (auto& alt : k.second) {
      Json::Value a = Json::objectValue, ws = Json::arrayValue;
      for (auto& w : alt) ws.append(w);
      a["probability"] = 0.5;
      a["verbalization"] = ws;
      c.append(a);
    }
    v[k.first]["candidates"] = c;
    v[k.first]["class"] = "X";
  }
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v) + "\n";
}

Str label_of(const NlpRow& r) { return r.tags.empty() ? "" : r.tags[0]; }
Str label_id(const Str& l) { return l.substr(0, l.find(':')); }
Str label_class(const Str& l) { return l.substr(l.find(':') + 1); }

Input Rich::input() const {
  Input in;
  in.rfmt = rfmt;
  in.hfmt = hfmt;
  in.ref = rfmt == "nlp" ? nlp_file(rows) : as_format(tokens(rows), rfmt);
  in.hyp = as_format(hyp, hfmt);
  in.o = o;
  in.want_nlp = want_nlp;
  for (auto& x : rows)
    if (x.mark) {
      in.o.extra.push_back("--use-punctuation");
      break;
    }
  if (rfmt == "nlp" && give_norm) {
    in.more["n.json"] = norm_json(norm);
    in.o.extra.insert(in.o.extra.end(), {"--ref-json", "n.json"});
  }
  if (!rules.empty()) {
    in.more["s.txt"] = rules_text(rules);
    in.o.extra.insert(in.o.extra.end(), {"--syn", "s.txt"});
  }
  if (!sidecar.empty()) {
    in.more["w.json"] = sidecar;
    in.o.extra.insert(in.o.extra.end(), {"--wer-sidecar", "w.json"});
  }
  return in;
}

bool Rich::class_eq(const Str& model, const Str& shown) {
  if (model.empty()) return shown.empty();
  if (starts(model, "SYN_")) return starts(shown, "___") && ends(shown, "_" + model + "___");
  return shown == "___" + replace_all(model, ":", "_") + "___";
}

bool is_tag(const Str& w) { return w.size() > 2 && w[0] == '<' && w.find('>') == w.size() - 1; }
Str plain_tag(const Str& w) {
  size_t c = w.find(':');
  return is_tag(w) && c != Str::npos ? w.substr(0, c) + ">" : w;
}

Lattice Rich::lattice() const {
  Lattice l;
  int at = 0;
  bool nlp = rfmt == "nlp";
  // maximal linear stretches on which synonyms can match: (states, words)
  auto synonyms = [&](const std::vector<int>& st, const Strs& ws, const Str& outer) {
    for (auto* set : {&rules, &implied})
      for (auto& q : *set)
        for (size_t i = 0; i + q.lhs.size() <= ws.size(); i++) {
          bool m = true;
          for (size_t k = 0; k < q.lhs.size(); k++) m &= ws[i + k] == q.lhs[k];
          if (!m) continue;
          for (auto& alt : q.rhs) {
            size_t from = l.edges.size();
            l.path(st[i], st[i + q.lhs.size()], alt, outer.empty() ? syn_class(q, alt) : outer);
            for (; from < l.edges.size(); from++) l.edges[from].alt = true;
          }
        }
  };
  std::vector<int> st = {0};
  Strs ws;
  size_t i = 0;
  while (i < rows.size()) {
    Str lab = nlp ? label_of(rows[i]) : "";
    if (lab.empty()) {
      int n = l.add();
      // the type of a tag in an NLP file is no part of the word
      Str w = nlp ? plain_tag(rows[i].token) : rows[i].token;
      l.edge(at, n, w);
      at = n;
      st.push_back(at);
      ws.push_back(w);
      i++;
      continue;
    }
    synonyms(st, ws, "");
    Strs own;
    while (i < rows.size() && label_of(rows[i]) == lab) own.push_back(rows[i++].token);
    int n = l.add();
    auto alternative = [&](const Strs& a) {
      std::vector<int> s2 = {at};
      int x = at;
      for (size_t k = 0; k < a.size(); k++) {
        int y = l.add();
        l.edge(x, y, a[k], lab);
        x = y;
        s2.push_back(x);
      }
      l.edge(x, n, "", lab);
      synonyms(s2, a, lab);
    };
    alternative(own);
    auto it = norm.find(label_id(lab));
    if (give_norm && it != norm.end())
      for (auto& a : it->second) alternative(a);
    at = n;
    st = {at};
    ws.clear();
  }
  synonyms(st, ws, "");
  l.final = at;
  return l;
}

std::vector<Strs> readings(const Lattice& l, size_t limit) {
  std::vector<Strs> r;
  std::set<Strs> seen;
  std::function<void(int, Strs)> go = [&](int at, Strs w) {
    if (r.size() >= limit) return;
    if (at == l.final) {
      if (seen.insert(w).second) r.push_back(w);
      return;
    }
    for (auto& e : l.edges)
      if (e.from == at) {
        Strs x = w;
        if (!e.word.empty()) x.push_back(e.word);
        go(e.to, x);
      }
  };
  go(0, {});
  return r;
}

static std::vector<NlpRow> rows_of(const Strs& w, const Str& tag = "") {
  std::vector<NlpRow> r;
  for (auto& x : w) {
    NlpRow n(x);
    if (!tag.empty()) n.tags = {tag};
    r.push_back(n);
  }
  return r;
}
static void append(std::vector<NlpRow>& a, const std::vector<NlpRow>& b) { a.insert(a.end(), b.begin(), b.end()); }

void label_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  std::vector<Strs> pre = {{}, {"a"}}, own = {{"b"}, {"b", "c"}, {"a", "a", "b"}};
  std::vector<std::vector<NlpRow>> post = {{}, rows_of({"c"})};
  {
    auto p = rows_of({"a"}, "1:MONEY");
    post.push_back(p);  // a second label right behind the first
    p = rows_of({"c"});
    append(p, rows_of({"b", "a"}, "2:CARDINAL"));
    post.push_back(p);
  }
  std::vector<std::vector<Strs>> cands = {{}, {{"a"}}, {{"a", "b"}}, {{"c", "a", "b"}, {"a"}}, {{"b", "b"}, {"c"}}};
  for (auto& a : pre)
    for (auto& o : own)
      for (auto& z : post)
        for (auto& cs : cands) {
          Rich p;
          p.family = "labels";
          p.rows = rows_of(a);
          append(p.rows, rows_of(o, "0:CARDINAL"));
          append(p.rows, z);
          p.norm["0"] = cs;
          if (!cs.empty()) p.norm["2"] = {{"c"}};
          int n = 0;
          sequences({"a", "b", "c"}, level > 1 ? 0 : 1, level > 1 ? 4 : 3, [&](const Strs& h) {
            n++;
            for (int k = 0; k < 3; k++) {
              if (k == 1 && level < 2 && n % 2) continue;
              if (k == 2 && level < 2 && n % 2 == 0) continue;
              p.hyp = h;
              p.hfmt = k == 1 ? "txt" : "ctm";
              p.o.approach = k == 2 ? "standard" : "adapted";
              p.give_norm = !(cs.empty() && n % 2);
              ex.visit(p.family, [&]() { return body(p); });
            }
          });
        }
  // a label that may be read as nothing at all
  for (auto& a : pre)
    for (auto& o : std::vector<Strs>{{"b"}, {"b", "c"}})
      for (auto& z : post)
        for (auto& cs : std::vector<std::vector<Strs>>{{{}}, {{}, {"a"}}, {{"a", "b"}, {}}}) {
          Rich p;
          p.family = "labels read as nothing";
          p.rows = rows_of(a);
          append(p.rows, rows_of(o, "0:FALLBACK"));
          append(p.rows, z);
          p.norm["0"] = cs;
          p.norm["2"] = {{"c"}};
          int n = 0;
          sequences({"a", "b", "c"}, 1, level > 1 ? 3 : 2, [&](const Strs& h) {
            for (int k = 0; k < 2; k++) {
              n++;
              p.hyp = h;
              p.hfmt = n % 4 == 1 ? "txt" : "ctm";
              p.o.approach = k ? "standard" : "adapted";
              ex.visit(p.family, [&]() { return body(p); });
            }
          });
        }
}

void synonym_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  std::vector<std::vector<Rule>> sets = {
      {{{"a"}, {{"b"}}}},
      {{{"a"}, {{"b", "c"}}}},
      {{{"a", "b"}, {{"c"}}}},
      {{{"a"}, {{"b"}, {"c", "d"}}}},
      {{{"a"}, {{"b"}}}, {{"b"}, {{"a"}}}},
      {{{"a", "a"}, {{"a"}}}},
      {{{"a"}, {{"a", "a"}}}},
      {{{"a", "b"}, {{"b", "a"}}}, {{"b"}, {{"c", "c"}}}},
      {{{"a"}, {{"b"}}}, {{"a", "b"}, {{"c", "d", "c"}}}},
      {{{"a", "b", "a"}, {{"d"}}}, {{"c"}, {{"d"}}}},
  };
  for (auto& R : sets) {
    Rich p;
    p.rules = R;
    p.give_norm = false;
    int n = 0;
    sequences({"a", "b", "c"}, 1, 3, [&](const Strs& r) {
      bool has = false;
      p.rows = rows_of(r);
      for (auto& e : p.lattice().edges) has |= !e.klass.empty();
      p.family = has ? "synonyms" : "synonyms, none applies";
      std::set<Strs> hyps;
      sequences({"a", "b", "c", "d"}, 0, level > 1 ? 3 : 2, [&](const Strs& h) { hyps.insert(h); });
      if (has)  // every reading with up to one edit
        for (auto& w : readings(p.lattice(), 20)) edit_space(w, level > 1 ? 2 : 1, {"b", "d"}, [&](const Strs& h) { hyps.insert(h); });
      for (auto& h : hyps) {
        if (!has && level < 2 && h.size() > 1) continue;
        n++;
        for (int k = 0; k < 2; k++) {
          p.hyp = h;
          p.hfmt = n % 4 == 3 && !k ? "txt" : "ctm";
          p.rfmt = Strs{"txt", "nlp", "ctm"}[n % 3];
          p.o.approach = k ? "standard" : "adapted";
          ex.visit(p.family, [&]() { return body(p); });
        }
      }
    });
  }
}

// Every set of up to three rules whose left sides overlap in all ways: words over {a, b}.
void rule_set_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  std::vector<Strs> keys;
  sequences({"a", "b"}, 1, 4, [&](const Strs& k) { keys.push_back(k); });
  int K = keys.size(), n = 0;
  auto one = [&](const std::vector<int>& set) {
    Rich p;
    p.family = "rule sets";
    p.give_norm = false;
    for (size_t i = 0; i < set.size(); i++) p.rules.push_back({keys[set[i]], {Strs{"x" + std::to_string(i)}}});
    for (size_t i = 0; i < set.size(); i++)
      for (int form = 0; form < 3; form++) {
        Strs k = keys[set[i]], x = {"x" + std::to_string(i)}, r, h;
        auto add = [](Strs& to, const Strs& what) { to.insert(to.end(), what.begin(), what.end()); };
        if (form == 0) r = k, h = x;
        if (form == 1) add(r, {"c"}), add(r, k), add(r, k), add(h, {"c"}), add(h, x), add(h, k);
        if (form == 2) {  // the next rule's words right behind
          const Strs& k2 = keys[set[(i + 1) % set.size()]];
          add(r, k), add(r, k2), add(h, k), add(h, {"x" + std::to_string((i + 1) % set.size())});
        }
        n++;
        p.rows = rows_of(r);
        p.hyp = h;
        p.rfmt = n % 3 ? "txt" : "nlp";
        p.hfmt = "ctm";
        p.o.approach = n % 2 ? "adapted" : "standard";
        ex.visit(p.family, [&]() { return body(p); });
      }
  };
  for (int i = 0; i < K; i++) {
    one({i});
    for (int j = 0; j < K; j++) {
      if (j == i) continue;
      if (i < j) one({i, j});
      for (int l = j + 1; l < K; l++)
        if (i < j && (level > 1 || keys[l].size() < 4)) one({i, j, l});
    }
  }
}

void mixed_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  // long enough for the first pass; a label and two rules at different places
  Strs w = {"one", "two", "one", "three", "four", "five", "six", "two", "seven", "eight", "nine", "ten"};
  for (int lab = 0; lab <= 11; lab += level > 1 ? 1 : 3)
    for (int lablen : {1, 2}) {
      if (lab + lablen > (int)w.size()) continue;
      Rich p;
      p.family = "labels and synonyms, long";
      p.rows = rows_of(w);
      for (int k = 0; k < lablen; k++) p.rows[lab + k].tags = {"4:MONEY"};
      p.norm["4"] = {{"alpha", "beta"}, {"one", "two", "alpha"}};
      p.rules = {{{"one", "two"}, {{"beta"}}}, {{"six"}, {{"one", "six", "two"}, {"seven"}}}};
      auto rs = readings(p.lattice(), 40);
      int n = 0;
      for (auto& r : rs) {
        edit_space(r, level > 1 && rs.size() < 8 ? 2 : 1, {"six"}, [&](const Strs& h) {
          n++;
          if (level < 2 && n % 3) return;
          p.hyp = h;
          p.hfmt = n % 9 == 0 ? "txt" : "ctm";
          p.o.approx = n % 6 != 0;
          p.o.approach = n % 2 ? "adapted" : "standard";
          ex.visit(p.family, [&]() { return body(p); });
        });
      }
    }
}

// The same with growing numbers: labels, candidates, rules, alternatives, words of one.
void many_space(Explorer& ex, int level, const std::function<Str(const Rich&)>& body) {
  int n = 0;
  auto go = [&](Rich p, const Strs& h) {
    n++;
    p.hyp = h;
    p.hfmt = "ctm";
    p.o.approach = n % 3 ? "adapted" : "standard";
    p.o.approx = n % 4 != 0;
    ex.visit(p.family, [&]() { return body(p); });
  };
  auto num = [](const Str& c, int i) { return c + std::to_string(i); };
  auto put = [](const Strs& a, const Strs& b, const Strs& c) {
    Strs r = a;
    r.insert(r.end(), b.begin(), b.end());
    r.insert(r.end(), c.begin(), c.end());
    return r;
  };
  // K labels (or rules), each for one word; all, one or all but one of them used
  for (int K = 1; K <= 14; K++) {
    if (level < 2 && K > 4 && K < 10 && K != 7) continue;
    for (int apart = 0; apart < 2; apart++)
      for (int kind = 0; kind < 4; kind++) {  // classes all different, two, one; rules
        Rich p;
        p.family = kind < 3 ? "many labels" : "many rules";
        p.give_norm = kind < 3;
        Strs own, alt;
        std::vector<int> at;
        for (int k = 0; k < K; k++) {
          if (apart) {
            p.rows.push_back(NlpRow(num("p", k)));
            own.push_back(num("p", k)), alt.push_back(num("p", k));
          }
          NlpRow w(num("w", k));
          if (kind < 3) {
            w.tags = {std::to_string(k) + ":" + (kind == 0 ? num("C", k) : kind == 1 ? (k % 3 ? "MONEY" : "DATE") : "MONEY")};
            p.norm[std::to_string(k)] = {{num("v", k)}};
          } else {
            p.rules.push_back({{num("w", k)}, {{num("v", k)}}});
          }
          at.push_back(p.rows.size());
          p.rows.push_back(w);
          own.push_back(num("w", k)), alt.push_back(num("v", k));
        }
        go(p, own);
        go(p, alt);
        for (int k = 0; k < K; k++) {
          Strs h = own;
          h[at[k]] = num("v", k);
          go(p, h);
          h = alt;
          h[at[k]] = num("w", k);
          go(p, h);
          h = alt;
          h[at[k]] = "x";
          go(p, h);
          if (level > 1) {
            h.erase(h.begin() + at[k]);
            go(p, h);
            h = alt;
            h.insert(h.begin() + at[k], "x");
            go(p, h);
          }
        }
      }
  }
  // K candidates of one label (alternatives of one rule), each of them used
  for (int K = 1; K <= 14; K++) {
    if (level < 2 && K > 4 && K < 10 && K != 7) continue;
    for (int kind = 0; kind < 2; kind++) {
      Rich p;
      p.family = kind ? "many alternatives" : "many candidates";
      p.give_norm = !kind;
      p.rows = rows_of({"p", "w", "q"});
      std::vector<Strs> alts;
      for (int k = 0; k < K; k++) {
        Strs a;
        for (int i = 0; i <= k % 3; i++) a.push_back(num("v", k + i));
        alts.push_back(a);
      }
      if (kind) p.rules = {{{"w"}, alts}};
      else p.rows[1].tags = {"0:MONEY"}, p.norm["0"] = alts;
      for (auto& a : alts) {
        go(p, put({"p"}, a, {"q"}));
        go(p, put({"p", "x"}, a, {"q"}));
        go(p, put({}, a, {"q"}));
      }
    }
  }
  // both sides of up to seven words
  for (int a = 1; a <= 7; a++)
    for (int b = 1; b <= 7; b++)
      for (int kind = 0; kind < 2; kind++) {
        Rich p;
        p.family = kind ? "long rules" : "long labels";
        p.give_norm = !kind;
        Strs l, r;
        for (int i = 0; i < a; i++) l.push_back(num("w", i % 5));
        for (int i = 0; i < b; i++) r.push_back(num("v", i % 5));
        p.rows = rows_of(put({"p"}, l, {"q"}));
        if (kind) p.rules = {{l, {r}}};
        else {
          for (int i = 1; i <= a; i++) p.rows[i].tags = {"12:MONEY"};
          p.norm["12"] = {r};
        }
        Strs h = put({"p"}, r, {"q"});
        go(p, h);
        edit_space(h, 1, {"x"}, [&](const Strs& e) {
          if (level > 1 || n % 2) go(p, e);
          else n++;
        });
      }
}

Str judge_readings(Explorer& ex, const Rich& p, const Run& r) {
  ex.trace();
  Lattice l = p.lattice();
  int F = edit_distance(l, p.hyp, &ex), raw = levenshtein(p.raw(), p.hyp), E = r.best.err;
  ex.outcome(Str(F ? "closest reading has errors" : raw ? "free of errors by an alternative" : "free of errors as is") +
             (F < raw ? ", an alternative helps" : ""));
  if (F < raw) ex.nontrivial();
  Str t = validate_trace(l, p.hyp, r.rows, true, Rich::class_eq);
  if (!t.empty()) return t;
  if (count_rows(r.rows).errors() != E) return "the alignment does not have the " + std::to_string(E) + " errors reported";
  if (!F && E) return std::to_string(E) + " errors reported for a hypothesis that is one of the reference's readings";
  if (E < F) return std::to_string(E) + " errors reported, the closest reading of the reference has " + std::to_string(F);
  if (E == F) return "";
  // the first pass (both sides longer than 10) settles matches on the words as they are
  bool first_pass = p.o.approx && p.hyp.size() > 10 && p.rows.size() > 10;
  if (first_pass) return "";
  bool restrained = p.o.approach == "adapted";
  int most = 1 << 20, len = 1;
  for (auto& x : alignments(l, p.hyp, restrained, &ex))
    if (x.first < most) most = x.first, len = std::max(1, x.second);
    else if (x.first == most) len = std::min(len, std::max(1, x.second));
  if (p.end_marker()) most++;  // see the known findings: the end of such a hypothesis counts as a word in the search
  if (E > most && (double)E / std::max(1, r.best.words) > (double)most / len + 1e-9)
    return std::to_string(E) + " errors of " + std::to_string(r.best.words) + " reported, there is an alignment with " + std::to_string(most) + " of " +
           std::to_string(len);
  return "";
}
}  // namespace mc
