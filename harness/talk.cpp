#include "talk.h"

#include <cmath>

namespace mc {

Str attribute(const Rich& p, const std::vector<Row>& rows, std::vector<Word>* out) {
  out->clear();
  size_t at = 0;  // next NLP row
  int hyp = 0, groups = 0;
  // rows of a FALLBACK label read as nothing leave no trace
  auto skip = [&](const Str& shown) {
    while (at < p.rows.size()) {
      Str lab = label_of(p.rows[at]);
      if (label_class(lab) != "FALLBACK" || Rich::class_eq(lab, shown)) return;
      auto it = p.norm.find(label_id(lab));
      bool empty = false;
      if (it != p.norm.end())
        for (auto& a : it->second) empty |= a.empty();
      if (!empty) return;
      while (at < p.rows.size() && label_of(p.rows[at]) == lab) at++;
    }
  };
  for (size_t i = 0; i < rows.size();) {
    if (rows[i].ref != "<ins>" || !rows[i].klass.empty()) skip(rows[i].klass);
    auto make = [&](const Row& r) {
      Word w;
      w.row = r;
      w.kind = r.ref == "<ins>" ? 'i' : r.hyp == "<del>" ? 'd' : r.ref == r.hyp ? '=' : 's';
      if (r.hyp != "<del>") w.hyp = hyp++;
      return w;
    };
    if (rows[i].klass.empty()) {
      Word w = make(rows[i]);
      if (w.kind != 'i') {
        if (at >= p.rows.size()) return "more reference words than rows in the reference";
        w.from = at;
        w.to = ++at;
      }
      out->push_back(w);
      i++;
      continue;
    }
    size_t j = i;
    while (j < rows.size() && rows[j].klass == rows[i].klass) j++;
    std::vector<Word> g;
    int first = -1;
    for (size_t k = i; k < j; k++) {
      g.push_back(make(rows[k]));
      if (first < 0 && g.back().kind != 'i') first = k - i;
    }
    if (first < 0) return "a class of the alignment without a reference word";
    size_t n = 0;
    size_t syn = rows[i].klass.find("_SYN_");
    int a = 0, b = 0;
    if (syn != Str::npos) {
      if (sscanf(rows[i].klass.c_str() + syn, "_SYN_%d-%d___", &a, &b) != 2) return "unreadable synonym class " + rows[i].klass;
      n = a;
    } else {
      if (at >= p.rows.size()) return "more reference words than rows in the reference";
      Str lab = label_of(p.rows[at]);
      if (lab.empty() || !Rich::class_eq(lab, rows[i].klass)) return "class " + rows[i].klass + " at an NLP row without it";
      while (at + n < p.rows.size() && label_of(p.rows[at + n]) == lab) n++;
    }
    if (at + n > p.rows.size()) return "more reference words than rows in the reference";
    for (int k = 0; k < (int)g.size(); k++) {
      g[k].group = groups;
      g[k].size = g.size() - first;
      g[k].pos = k - first;
      if (k >= first) g[k].from = at, g[k].to = at + n;
      out->push_back(g[k]);
    }
    groups++;
    at += n;
    i = j;
  }
  skip("");
  if (at != p.rows.size()) return "the alignment covers " + std::to_string(at) + " of " + std::to_string(p.rows.size()) + " reference rows";
  return "";
}

Str compare_tally(const Str& what, const Tally& t, const Json::Value& v) {
  JsonWer w = json_wer(v);
  if (!w.present) return "no entry for " + what;
  auto num = [](int i, int d, int s, int n) {
    return std::to_string(i) + " insertions, " + std::to_string(d) + " deletions, " + std::to_string(s) + " substitutions in " + std::to_string(n) + " words";
  };
  if (w.ins != t.ins || w.del != t.del || w.sub != t.sub || w.words != t.words)
    return what + " reports " + num(w.ins, w.del, w.sub, w.words) + ", the alignment has " + num(t.ins, t.del, t.sub, t.words);
  if (w.err != t.errors()) return what + " reports " + std::to_string(w.err) + " errors of " + std::to_string(t.errors());
  if (t.words > 0 && (w.wer_null || w.wer_inf || !close(w.wer, (double)t.errors() / t.words)))
    return what + " reports a rate that is not errors over words";
  return "";
}

static Str nth(const Strs& v, size_t i) { return v[i % v.size()]; }

static void dress(const TalkScale& s, std::vector<NlpRow>& rows) {  // the fixed rotation
  for (size_t i = 0; i < rows.size(); i++) {
    if (!s.speakers) rows[i].speaker = i % 4 < 2 ? "1" : "2";
    if (!s.punct) rows[i].punct = i % 3 == 2 ? "." : i % 3 == 1 ? "," : "";
    if (!s.wer_tags && i % 3 == 0) rows[i].wer_tags = {"7"};
    if (i % 5 == 1) rows[i].casing = "UC";
  }
}

// as long as a real transcript, with labels and synonyms all over
void long_talk(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body) {
  Strs fm = split_ws(s.hfmts);
  size_t turn = 0;
  auto go = [&](Rich p, const Strs& h) {
    p.hyp = h;
    turn++;
    p.hfmt = nth(fm, turn);
    p.o.approach = turn % 7 == 4 ? "standard" : "adapted";
    p.o.extra = s.extra;
    p.want_nlp = s.want_nlp;
    ex.visit(p.family, [&]() { return body(p); });
  };
  for (int v = 0; v < (ex.thorough() ? 12 : 6); v++) {
    Rich p;
    p.family = "very long";
    p.give_norm = true;
    const int n = v % 3 ? 300 : 120;
    for (int i = 0; i < n; i++) p.rows.push_back(NlpRow(i % 4 == 3 ? "a" : "w" + std::to_string(i)));
    dress(s, p.rows);
    Strs h, exact;
    for (int i = 0; i < n; i++) {
      int blk = i / 10, in = i % 10;  // a stretch of up to three rows starts at the third of ten
      int R = 1 + blk % 3;
      bool group = in >= 3 && in < 3 + R && blk % 5 != 4;
      Str id = std::to_string(blk + 1);
      auto& row = p.rows[i];
      if (s.speakers) row.speaker = Strs{"1", "2", "x", "1", "10"}[(blk + (in >= 3 + R + v % 3)) % 5];
      else row.speaker = blk % 2 ? "1" : "2";
      if (s.wer_tags) row.wer_tags = group ? Strs{id} : in % 3 == v % 3 ? Strs{"1", id} : Strs{};
      if (s.punct) row.punct = in == 2 + R || in == 8 ? "." : in == 9 && v % 2 ? "?" : "";
      if (in >= 3 && in < 2 + R) row.punct = "";
      Strs alt;
      for (int k = 0; k <= (blk / 3) % 3; k++) alt.push_back("v" + std::to_string(k));
      bool other = (blk + v) % 2;
      if (group) {
        if (in == 3) {
          if (blk % 2) {
            Rule q;
            for (int k = 0; k < R; k++) q.lhs.push_back(p.rows[i + k].token);
            q.rhs = {alt};
            bool plain = std::find(q.lhs.begin(), q.lhs.end(), "a") == q.lhs.end();
            if (plain) p.rules.push_back(q);
            else other = false;
          } else
            p.norm[id] = {alt};
        }
        if (blk % 2 && p.rules.size() && std::find(p.rules.back().lhs.begin(), p.rules.back().lhs.end(), row.token) == p.rules.back().lhs.end()) other = false;
        if (blk % 2 == 0) row.tags = {id + (blk % 4 ? ":MONEY" : ":DATE")};
        if (other) {
          if (in == 3) h.insert(h.end(), alt.begin(), alt.end()), exact.insert(exact.end(), alt.begin(), alt.end());
          continue;
        }
      }
      exact.push_back(row.token);
      // a few errors
      int e = (i * 7 + v) % 41;
      if (e == 0) continue;
      if (e == 13) h.push_back("x");
      if (e == 27) h.push_back("y");
      else h.push_back(row.token);
    }
    go(p, h);
    h.pop_back();
    h.erase(h.begin());
    go(p, h);
    go(p, exact);
  }
}

// bursts of errors: many insertions, deletions or substitutions at one place, in and around a group
void burst_talk(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body) {
  Strs fm = split_ws(s.hfmts);
  size_t turn = 0;
  for (int kind = 0; kind < 4; kind++)  // plain, a label read as itself, as other words, a synonym
    for (int n : {4, 9})
      for (int v = 0; v < 2; v++) {
        Rich p;
        p.family = "bursts";
        p.give_norm = kind > 0;
        const int rows = n + 4, a = 2, b = 2 + n;  // the group
        for (int i = 0; i < rows; i++) p.rows.push_back(NlpRow("w" + std::to_string(i)));
        dress(s, p.rows);
        Strs alt;
        for (int i = 0; i < n - 1 + 2 * v; i++) alt.push_back("v" + std::to_string(i));
        for (int i = 0; i < rows; i++) {
          bool in = i >= a && i < b;
          if (s.speakers) p.rows[i].speaker = in ? "2" : i < a ? "1" : "3";
          else p.rows[i].speaker = i < b ? "1" : "2";
          if (s.wer_tags) p.rows[i].wer_tags = in ? Strs{"1"} : i < a ? Strs{"1", "2"} : Strs{};
          p.rows[i].punct = in && i < b - 1 ? "" : i == b - 1 || i == a - 1 ? (s.punct ? "." : ",") : "";
          if (in && kind && kind < 3) p.rows[i].tags = {"5:MONEY"};
        }
        Strs ref = tokens(p.rows), read = ref;
        if (kind == 1 || kind == 2) p.norm["5"] = {alt};
        if (kind == 3) {
          Rule q;
          q.lhs = Strs(ref.begin() + a, ref.begin() + b);
          q.rhs = {alt};
          p.rules = {q};
        }
        if (kind >= 2) {
          read.erase(read.begin() + a, read.begin() + b);
          read.insert(read.begin() + a, alt.begin(), alt.end());
        }
        for (int op = 0; op < 3; op++)
          for (int len = 1; len <= 7; len++)
            for (size_t at = 0; at <= read.size(); at++) {
              if (op && at + len > read.size()) continue;
              if (!ex.thorough() && (at + len + op) % 2 != (size_t)v && len < 3) continue;
              Strs h = read;
              if (op) h.erase(h.begin() + at, h.begin() + at + len);
              for (int i = 0; i < len && op < 2; i++) h.insert(h.begin() + at, "x" + std::to_string(i % 3));
              if (h.empty()) continue;
              p.hyp = h;
              turn++;
              p.hfmt = nth(fm, turn);
              p.o.approach = turn % 5 == 4 ? "standard" : "adapted";
              p.o.extra = s.extra;
              p.want_nlp = s.want_nlp;
              ex.visit(p.family, [&]() { return body(p); });
            }
      }
}

void talk_space(Explorer& ex, const TalkScale& s, const std::function<Str(const Rich&)>& body) {
  Strs fm = split_ws(s.hfmts);
  size_t turn = 0;
  auto dress = [&](std::vector<NlpRow>& rows) { mc::dress(s, rows); };
  auto go = [&](Rich p, const Strs& h) {
    p.hyp = h;
    turn++;
    p.hfmt = nth(fm, turn);
    p.o.approach = turn % 5 == 4 ? "standard" : "adapted";
    p.o.extra = s.extra;
    p.want_nlp = s.want_nlp;
    ex.visit(p.family, [&]() { return body(p); });
  };
  // the patterns of the varied field, for n rows
  auto patterns = [&](int n, const std::function<void(std::vector<NlpRow>&)>& f) {
    std::vector<NlpRow> rows;
    for (int i = 0; i < n; i++) rows.push_back(NlpRow("w" + std::to_string(i)));
    dress(rows);
    if (s.speakers) {
      sequence_pairs_canonical({"1", "2", "3"}, n, n, 0, 0, [&](const Strs& v, const Strs&) {
        for (int i = 0; i < n; i++) rows[i].speaker = v[i];
        f(rows);
      });
    } else if (s.punct) {
      sequences(n < 3 ? Strs{"", ".", "?", "!", ",", "...", "?!", ".,", "!!", "\xE3\x80\x82", "-", ";"} : n < 4 ? Strs{"", ".", "?", ","} : Strs{"", "!", ","}, n, n, [&](const Strs& v) {
        for (int i = 0; i < n; i++) rows[i].punct = v[i];
        f(rows);
      });
    } else if (s.wer_tags) {
      std::vector<Strs> sets = {{}, {"1"}, {"1", "22"}, {"3", "1"}};
      sequences(n < 4 ? Strs{"0", "1", "2", "3"} : Strs{"0", "1", "2"}, n, n, [&](const Strs& v) {
        for (int i = 0; i < n; i++) rows[i].wer_tags = sets[v[i][0] - '0'];
        f(rows);
      });
    } else {
      f(rows);
    }
  };
  for (int n = 1; n <= s.rows; n++)
    patterns(n, [&](std::vector<NlpRow>& rows) {
      Rich p;
      p.family = "plain rows";
      p.rows = rows;
      p.give_norm = false;
      if (n < 4 || ex.thorough()) {
        // the same with the punctuation marks as words
        Rich q = p;
        q.family = "plain rows, marks as words";
        q.rows = with_marks(rows);
        if (q.rows.size() > rows.size())
          edit_space(tokens(q.rows), n < 3 ? s.edits : 1, {"x", "."}, [&](const Strs& h) { go(q, h); });
      }
      edit_space(tokens(rows), n < 4 ? s.edits : std::max(1, s.edits - 1), {"x", "w0"}, [&](const Strs& h) { go(p, h); });
    });
  if (s.groups)
    for (int n : {3, 5})
      for (int at = 0; at < n; at++)
        for (int R = 1; R <= 3 && at + R <= n; R++)
          for (int kind = 0; kind < 6; kind++) {
            Rich p;
            p.give_norm = false;
            for (int i = 0; i < n; i++) p.rows.push_back(NlpRow("w" + std::to_string(i)));
            dress(p.rows);
            // readings of one, two and three words
            Strs alt = kind % 3 == 0 ? Strs{"v0"} : kind % 3 == 1 ? Strs{"v0", "v1"} : Strs{"v0", "v1", "v2"};
            if (kind == 5) {
              p.family = "label read as nothing";
              for (int i = at; i < at + R; i++) p.rows[i].tags = {"5:FALLBACK"};
              p.norm["5"] = {{}};
              p.give_norm = true;
            } else if (kind < 3) {
              p.family = "label group";
              for (int i = at; i < at + R; i++) p.rows[i].tags = {"5:MONEY"};
              p.norm["5"] = {alt};
              p.give_norm = true;
            } else {
              p.family = "synonym group";
              Rule q;
              for (int i = at; i < at + R; i++) q.lhs.push_back(p.rows[i].token);
              q.rhs = {kind == 3 ? Strs{"v0", "v1", "v2"} : Strs{"v0"}};
              p.rules = {q};
            }
            // one speaker and one tag set per group, the end of a sentence only behind it;
            // the group is the second speaker's
            for (int v = 0; v < 2; v++) {
              for (int i = 0; i < n; i++) {
                bool in = i >= at && i < at + R;
                if (kind == 5) {  // where the nothing stands among insertions is not shown: keep it inconspicuous
                  if (s.speakers) p.rows[i].speaker = at == 0 || i < (v ? std::max(at - 1, 1) : at + R) ? "1" : "2";
                  if (s.speakers && v && at == 1) p.rows[i].speaker = "2";
                  if (s.punct) p.rows[i].punct = i + 1 == at + R ? (v ? "?" : ".") : in ? "" : i % 2 == v ? "." : "";
                  p.rows[i].wer_tags = in || v ? Strs{"1"} : Strs{};
                  if (!s.speakers) p.rows[i].speaker = i < at + R ? "1" : "2";
                  if (in && i + 1 < at + R) p.rows[i].punct = "";
                  continue;
                }
                if (s.speakers) p.rows[i].speaker = v ? (in ? "2" : "1") : (i < at ? "1" : "2");
                if (!s.speakers) p.rows[i].speaker = i < at + R ? "1" : "2";
                if (s.wer_tags) p.rows[i].wer_tags = in ? (v ? Strs{"1", "22"} : Strs{"1"}) : (i % 2 ? Strs{"1"} : Strs{});
                if (!s.wer_tags) p.rows[i].wer_tags = in ? Strs{"7"} : Strs{};
                if (in && i + 1 < at + R) p.rows[i].punct = "";
                if (s.punct) p.rows[i].punct = i + 1 == at + R ? (v ? "." : ",") : (!in && i % 2 ? "?" : "");
              }
              if (kind != 5 && n == 3) {
                Rich q = p;
                q.family += ", marks as words";
                q.rows = with_marks(p.rows);
                if (kind < 3 && q.rows.size() > p.rows.size())
                  for (auto& w : readings(q.lattice(), 12)) edit_space(w, 1, {"x"}, [&](const Strs& h) { go(q, h); });
                if (kind < 3 && R > 1) {  // marks inside the group, as well
                  q.rows = p.rows;
                  for (int i = at; i + 1 < at + R; i++)
                    if (v || i == at) q.rows[i].punct = ",";
                  q.rows = with_marks(q.rows);
                  for (auto& w : readings(q.lattice(), 12)) edit_space(w, 1, {"x"}, [&](const Strs& h) { go(q, h); });
                }
              }
              int k = 0;
              for (auto& w : readings(p.lattice(), 12))
                edit_space(w, 1, {"x"}, [&](const Strs& h) {
                  k++;
                  if (n == 5 && !ex.thorough() && k % 3 != v) return;
                  go(p, h);
                });
            }
          }
  // words of a labelled stretch replaced by a synonym
  if (s.groups)
    for (int R = 1; R <= 3; R++)
      for (int k = 0; k < R; k++)
        for (int len = 1; len <= 3; len++)
          for (int len2 = 0; len2 <= 2; len2++) {
            Rich p;
            p.family = "synonym inside a label";
            p.give_norm = true;
            const int n = R + 3;
            for (int i = 0; i < n; i++) p.rows.push_back(NlpRow("w" + std::to_string(i)));
            dress(p.rows);
            p.norm["5"] = {{"q"}, {"q", "r"}};
            for (int i = 0; i < n; i++) {
              bool in = i >= 1 && i < 1 + R;
              if (in) p.rows[i].tags = {"5:MONEY"};
              p.rows[i].speaker = i < 1 + R ? "1" : "2";
              if (s.speakers) p.rows[i].speaker = i == 0 ? "1" : in ? "2" : "3";
              p.rows[i].wer_tags = in ? Strs{"1"} : s.wer_tags ? Strs{"22"} : Strs{};
              p.rows[i].punct = in && i < R ? "" : i == R ? (s.punct ? "." : ",") : s.punct ? "?" : "";
            }
            Rule q;
            q.lhs = {p.rows[1 + k].token};
            Strs alt;
            for (int i = 0; i < len; i++) alt.push_back("v" + std::to_string(i));
            q.rhs = {alt};
            p.rules = {q};
            if (len2) {  // and a word behind the stretch, too
              Rule o;
              o.lhs = {p.rows[1 + R].token};
              o.rhs = {len2 == 1 ? Strs{"u"} : Strs{"u", "t"}};
              p.rules.push_back(o);
            }
            for (auto& w : readings(p.lattice(), 12))
              edit_space(w, ex.thorough() ? 1 : 0, {"x"}, [&](const Strs& h) { go(p, h); });
          }
  if (s.longs)
    for (int v = 0; v < 4; v++) {
      Rich p;
      p.family = "long";
      p.give_norm = false;
      for (int i = 0; i < 12; i++) p.rows.push_back(NlpRow(i % 3 ? "w" + std::to_string(i) : "a"));
      dress(p.rows);
      for (int i = 0; i < 12; i++) {
        if (s.speakers) p.rows[i].speaker = Strs{"1", "two", "3"}[(i / (v + 1)) % (v % 2 + 2)];
        if (s.punct) p.rows[i].punct = (i % (v + 2)) == v ? nth({".", "?", "!"}, i) : i % 2 ? "," : "";
        if (s.wer_tags) p.rows[i].wer_tags = (i / (v + 1)) % 2 ? Strs{"1", "10", "3"} : (i % 4 ? Strs{} : Strs{"10"});
      }
      int k = 0;
      edit_space(tokens(p.rows), 2, {"a", "x"}, [&](const Strs& h) {
        if (!ex.thorough() && k++ % 4 != v) return;
        go(p, h);
      });
    }
  // two groups next to each other or one word apart, of one class or of two
  if (s.groups)
    for (int gap = 0; gap < 2; gap++)
      for (int shape = 0; shape < 4; shape++)
        for (int len = 0; len < 9; len++)
          for (int v = 0; v < 2; v++) {
            int R1 = 1 + shape % 2, R2 = 1 + shape / 2, n = 1 + R1 + gap + R2 + 1;
            Rich p;
            p.family = "two groups";
            p.give_norm = true;
            for (int i = 0; i < n; i++) p.rows.push_back(NlpRow("w" + std::to_string(i)));
            dress(p.rows);
            auto words = [](Str c, int k) {
              Strs r;
              for (int i = 0; i < k; i++) r.push_back(c + std::to_string(i));
              return r;
            };
            p.norm["5"] = {words("u", 1 + len % 3)};
            p.norm["6"] = {words("v", 1 + len / 3)};
            for (int i = 0; i < n; i++) {
              bool one = i >= 1 && i < 1 + R1, two = i >= 1 + R1 + gap && i < n - 1;
              bool last = i == R1 || i == n - 2;
              if (one) p.rows[i].tags = {"5:MONEY"};
              if (two) p.rows[i].tags = {v ? "6:MONEY" : "6:DATE"};
              if (s.speakers) p.rows[i].speaker = one ? "2" : two ? (v ? "1" : "3") : "1";
              else p.rows[i].speaker = i < 1 + R1 ? "1" : "2";
              if (s.wer_tags) p.rows[i].wer_tags = one ? Strs{"1"} : two ? (v ? Strs{"1", "22"} : Strs{"3"}) : Strs{};
              else p.rows[i].wer_tags = one ? Strs{"7"} : Strs{};
              if (one || two) p.rows[i].punct = last && s.punct ? (one == (v == 0) ? "." : ",") : "";
              else if (s.punct) p.rows[i].punct = v ? "." : "";
            }
            int k = 0;
            for (auto& w : readings(p.lattice(), 4))
              edit_space(w, 1, {"x"}, [&](const Strs& h) {
                k++;
                if (!ex.thorough() && k % 4 != (len + v) % 4) return;
                go(p, h);
              });
          }
  // many different values of the field, in runs of one to three rows
  if (s.longs)
    for (int K = 1; K <= 12; K++)
      for (int L = 1; L <= 3; L++) {
        if (!ex.thorough() && K > 3 && K < 9 && K != 5) continue;
        Rich p;
        p.family = "many";
        p.give_norm = false;
        const int n = 36;
        for (int i = 0; i < n; i++) p.rows.push_back(NlpRow("w" + std::to_string(i)));
        dress(p.rows);
        static const Strs names = {"1", "10", "2", "Speaker 3", "11", "100", "3", "speaker 3", "0", "-", "12", "Z\xc3\xbc"};
        for (int i = 0; i < n; i++) {
          int x = (i / L) % K;
          if (s.speakers) p.rows[i].speaker = names[x];
          if (s.punct) p.rows[i].punct = x == K - 1 && i % L == L - 1 ? nth({".", "?", "!"}, i) : nth({"", ",", ";", ":", "-"}, i / L);
          if (s.wer_tags) {
            p.rows[i].wer_tags.clear();
            for (int t = 0; t <= x; t += L) p.rows[i].wer_tags.push_back(std::to_string(t == 11 ? 1234 : t));
          }
        }
        int k = 0;
        edit_space(tokens(p.rows), 1, {"x"}, [&](const Strs& h) {
          if (!ex.thorough() && k++ % 3 != K % 3) return;
          go(p, h);
        });
      }
  if (s.longs) long_talk(ex, s, body);
  if (s.groups || s.longs) burst_talk(ex, s, body);
}
}  // namespace mc
