#include "model.h"

#include <algorithm>
#include <cmath>
#include <queue>
#include <sstream>

namespace mc {

Lattice Lattice::linear(const Strs& words) {
  Lattice l;
  int at = 0;
  for (auto& w : words) {
    int n = l.add();
    l.edge(at, n, w);
    at = n;
  }
  l.final = at;
  return l;
}

void Lattice::path(int from, int to, const Strs& words, const Str& klass) {
  if (words.empty()) {
    edge(from, to, "", klass);
    return;
  }
  int at = from;
  for (size_t i = 0; i < words.size(); i++) {
    int n = i + 1 == words.size() ? to : add();
    edge(at, n, words[i], klass);
    at = n;
  }
}

std::vector<int> Lattice::topo() const {
  std::vector<int> indeg(nodes, 0), order;
  std::vector<std::vector<int>> out(nodes);
  for (auto& e : edges) {
    indeg[e.to]++;
    out[e.from].push_back(e.to);
  }
  std::vector<int> q;
  for (int i = 0; i < nodes; i++)
    if (!indeg[i]) q.push_back(i);
  while (!q.empty()) {
    int x = q.back();
    q.pop_back();
    order.push_back(x);
    for (int y : out[x])
      if (--indeg[y] == 0) q.push_back(y);
  }
  return order;
}

Best best_alignment(const Lattice& ref, const Strs& hyp, double ins, double del, double sub, Explorer* ex) {
  int H = hyp.size();
  std::vector<std::vector<Best>> d(ref.nodes, std::vector<Best>(H + 1));
  std::vector<std::vector<const Edge*>> out(ref.nodes);
  for (auto& e : ref.edges) out[e.from].push_back(&e);
  uint64_t st = 0, tr = 0;
  auto relax = [&](const Best& from, double c, int e, Best& to) {
    tr++;
    double nc = from.cost + c;
    if (nc < to.cost - 1e-9) {
      to.cost = nc;
      to.min_err = from.min_err + e;
      to.max_err = from.max_err + e;
    } else if (nc < to.cost + 1e-9) {
      to.min_err = std::min(to.min_err, from.min_err + e);
      to.max_err = std::max(to.max_err, from.max_err + e);
    }
  };
  d[0][0].cost = 0;
  d[0][0].min_err = d[0][0].max_err = 0;
  for (int a : ref.topo())
    for (int b = 0; b <= H; b++) {
      const Best cur = d[a][b];
      if (cur.cost > 1e17) continue;
      st++;
      if (b < H) relax(cur, ins, 1, d[a][b + 1]);
      for (auto* e : out[a]) {
        if (e->word.empty()) {
          relax(cur, 0, 0, d[e->to][b]);
          continue;
        }
        relax(cur, del, 1, d[e->to][b]);
        if (b < H) {
          if (e->word == hyp[b])
            relax(cur, 0, 0, d[e->to][b + 1]);
          else
            relax(cur, sub, 1, d[e->to][b + 1]);
        }
      }
    }
  if (ex) {
    ex->states(st);
    ex->transitions(tr);
  }
  return d[ref.final][H];
}

std::set<std::pair<int, int>> alignments(const Lattice& l, const Strs& hyp, bool restrained, Explorer* ex) {
  using Set = std::set<std::pair<int, int>>;
  int H = hyp.size();
  std::vector<std::vector<Set>> d(l.nodes, std::vector<Set>(H + 1));
  std::vector<std::vector<const Edge*>> out(l.nodes);
  for (auto& e : l.edges) out[e.from].push_back(&e);
  uint64_t st = 0, tr = 0;
  auto put = [&](const Set& f, int e, int w, Set& t) {
    tr++;
    for (auto& x : f) t.insert({x.first + e, x.second + w});
  };
  d[0][0].insert({0, 0});
  for (int a : l.topo()) {
    bool inner = restrained && !out[a].empty();  // inside a synonym
    for (auto e : out[a]) inner = inner && e->alt;
    for (int b = 0; b <= H; b++) {
      const Set cur = d[a][b];
      if (cur.empty()) continue;
      st++;
      if (b < H && !inner) put(cur, 1, 0, d[a][b + 1]);
      for (auto* e : out[a]) {
        if (e->word.empty()) {
          put(cur, 0, 0, d[e->to][b]);
          continue;
        }
        bool match = b < H && e->word == hyp[b];
        if (!restrained || (!e->alt && out[a].size() == 1 && !match)) put(cur, 1, 1, d[e->to][b]);
        if (b < H && (match || !restrained || !e->alt)) put(cur, !match, 1, d[e->to][b + 1]);
      }
    }
  }
  if (ex) {
    ex->states(st);
    ex->transitions(tr);
  }
  return d[l.final][H];
}

int levenshtein(const Strs& a, const Strs& b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++)
    for (size_t j = 0; j <= b.size(); j++) {
      if (!i || !j)
        d[i][j] = i + j;
      else
        d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1)});
    }
  return d[a.size()][b.size()];
}

Sbs parse_sbs(const Str& text) {
  Sbs s;
  std::istringstream in(text);
  Str line;
  if (!std::getline(in, line) || line.find("ref_token") == Str::npos) {
    s.problem = "no header line";
    return s;
  }
  bool dashes = false;
  while (std::getline(in, line)) {
    if (starts(line, "------")) {
      dashes = true;
      break;
    }
    Strs f = split_on(line, '\t');
    if (f.size() != 5) {
      s.problem = "row without 5 columns: " + line;
      return s;
    }
    s.rows.push_back({strip(f[0]), strip(f[1]), strip(f[2]), strip(f[3]), strip(f[4])});
  }
  if (!dashes) {
    s.problem = "no separator line";
    return s;
  }
  if (!std::getline(in, line) || line.find("Line") == Str::npos) {
    s.problem = "no group header";
    return s;
  }
  while (std::getline(in, line)) {
    size_t t = line.find('\t');
    if (t == Str::npos) {
      s.problem = "bad group line: " + line;
      return s;
    }
    s.groups.push_back({atoi(strip(line.substr(0, t)).c_str()), line.substr(t + 1)});
  }
  s.ok = true;
  return s;
}

Str Counts::text() const {
  return "ins=" + std::to_string(ins) + " del=" + std::to_string(del) + " sub=" + std::to_string(sub) +
         " cor=" + std::to_string(cor);
}

Counts count_rows(const std::vector<Row>& rows) {
  Counts c;
  for (auto& r : rows) {
    if (r.ref == "<ins>")
      c.ins++;
    else if (r.hyp == "<del>")
      c.del++;
    else if (r.ref == r.hyp)
      c.cor++;
    else
      c.sub++;
  }
  return c;
}

Str validate_trace(const Lattice& ref, const Strs& hyp, const std::vector<Row>& rows, bool with_class,
                   const std::function<bool(const Str&, const Str&)>& klass_eq) {
  std::vector<std::vector<const Edge*>> out(ref.nodes);
  for (auto& e : ref.edges) out[e.from].push_back(&e);
  std::set<int> cur = {0};
  auto closure = [&](std::set<int>& s) {
    std::vector<int> q(s.begin(), s.end());
    while (!q.empty()) {
      int x = q.back();
      q.pop_back();
      for (auto* e : out[x])
        if (e->word.empty() && s.insert(e->to).second) q.push_back(e->to);
    }
  };
  closure(cur);
  size_t b = 0;
  int n = 0;
  for (auto& r : rows) {
    n++;
    bool i = r.ref == "<ins>", d = r.hyp == "<del>";
    Str where = "row " + std::to_string(n) + " (" + r.ref + " | " + r.hyp + ")";
    if (i && d) return where + " aligns nothing with nothing";
    if (!d) {
      if (b >= hyp.size()) return where + " has a hypothesis token beyond the end of the hypothesis";
      if (hyp[b] != r.hyp) return where + " does not show hypothesis token " + std::to_string(b) + " '" + hyp[b] + "'";
      b++;
    }
    if (!i) {
      std::set<int> nx;
      for (int x : cur)
        for (auto* e : out[x]) {
          if (e->word != r.ref || e->word.empty()) continue;
          if (with_class && !(klass_eq ? klass_eq(e->klass, r.klass) : e->klass == r.klass)) continue;
          nx.insert(e->to);
        }
      if (nx.empty()) return where + " does not continue any reading of the reference";
      closure(nx);
      cur = nx;
    }
  }
  if (b != hyp.size()) return "hypothesis tokens from " + std::to_string(b) + " on are missing from the alignment";
  if (!cur.count(ref.final)) return "the reference side stops before the end of the reference";
  return "";
}

bool parse_json(const Str& text, Json::Value* v) {
  Str t = replace_all(replace_all(text, "-1e+9999", "\"-inf\""), "1e+9999", "\"inf\"");
  Json::CharReaderBuilder b;
  std::istringstream in(t);
  Str errs;
  return Json::parseFromStream(b, in, v, &errs);
}

JsonWer json_wer(const Json::Value& v) {
  JsonWer w;
  if (!v.isObject() || !v.isMember("numErrors")) return w;
  w.present = true;
  w.ins = v["insertions"].asInt();
  w.del = v["deletions"].asInt();
  w.sub = v["substitutions"].asInt();
  w.err = v["numErrors"].asInt();
  w.words = v["numWordsInReference"].asInt();
  auto& x = v["wer"];
  if (x.isNull())
    w.wer_null = true;
  else if (x.isString())
    w.wer_inf = x.asString() == "inf";
  else
    w.wer = x.asDouble();
  return w;
}

bool close(double a, double b, double rel) {
  return std::fabs(a - b) <= rel * std::max({1.0, std::fabs(a), std::fabs(b)});
}

NlpOut parse_nlp(const Str& text) {
  NlpOut o;
  std::istringstream in(text);
  Str line;
  if (!std::getline(in, line)) return o;
  o.header = split_on(line, '|');
  while (std::getline(in, line)) o.rows.push_back(split_on(line, '|'));
  o.ok = true;
  return o;
}

Str txt(const Strs& words) { return join(words) + "\n"; }

Str ctm(const Strs& words) {
  Str r;
  char buf[200];
  for (size_t i = 0; i < words.size(); i++) {
    snprintf(buf, sizeof buf, "rec 1 %zu.25 0.50 %s\n", i * 10 + 1, words[i].c_str());
    r += buf;
  }
  return r;
}

Str nlp(const Strs& words) {
  Str r = "token|speaker|ts|endTs|punctuation|case|tags|wer_tags\n";
  for (auto& w : words) r += w + "|1|0.0000|0.0000||LC|[]|[]\n";
  return r;
}
}  // namespace mc
