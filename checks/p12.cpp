// P12: the aligned NLP output is the reference with the hypothesis' timings.
#include "talk.h"
#include <algorithm>
using namespace mc;

static Str fixed4(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.4f", x);
  return b;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run of wer or align writing the aligned NLP file; a model builds, from the alignment and the "
           "reference's rows, the rows the file must have; distinct = outcome classes by row kinds";
  m.assumptions = {"inside a class group that changes the number of words only its last row carries punctuation"};
  return main_loop(c, v, "P12", [&](Explorer& ex) {
    TalkScale s;
    s.want_nlp = true;
    s.hfmts = "ctm ctm ctm nlp txt";
    if (ex.thorough()) s.rows = 6;
    int mode = 0;
    auto judge = [&](const Rich& q, int mode, int clock = 0) -> Str {
      Rich p = q;
      for (size_t i = 0; i < p.rows.size(); i++) {
        auto& w = p.rows[i];
        if (w.mark) continue;
        if (w.casing == "UC") w.token[0] = toupper(w.token[0]);
        w.ts = i % 2 ? std::to_string(i) + ".5" : "";
        w.endTs = i % 3 ? std::to_string(i + 1) + ".25" : "";
        if (i % 4 == 2) w.prepunct = "(";
      }
      bool marks = std::any_of(p.rows.begin(), p.rows.end(), [](const NlpRow& w) { return w.mark; });
      bool align = mode == 1 && p.hfmt == "ctm" && !marks, inserts = mode == 2;
      Input in = p.input();
      in.ref = nlp_file(p.rows, true);
      std::vector<CtmRow> ct = ctm_rows(p.hyp);
      if (clock) {  // times as they occur, which single precision does not hold exactly
        static const double at[] = {0, 0.01, 0.1, 9.99, 59.999, 60, 99.95, 100.3, 599.9, 999.999, 1000, 3599.87, 3600, 3600.1, 7200.2, 9999.9};
        static const double len[] = {0, 0.01, 0.1, 0.333, 1, 1.7, 12.34, 100.1};
        for (size_t i = 0; i < ct.size(); i++) ct[i].start = at[(i * 5 + clock) % 16], ct[i].dur = len[(i * 3 + clock / 2) % 8];
        if (p.hfmt == "ctm") in.hyp = ctm_file(ct);
      }
      if (p.hfmt == "nlp") {
        std::vector<NlpRow> hr;
        for (size_t i = 0; i < ct.size(); i++) {
          NlpRow w(p.hyp[i]);
          if (i % 4 != 1) w.ts = fixed4(ct[i].start);
          if (i % 4 != 2) w.endTs = fixed4(ct[i].start + ct[i].dur);
          hr.push_back(w);
        }
        in.hyp = nlp_file(hr);
        if (hr.empty()) return "";
      }
      if (inserts) in.o.extra.push_back("--add-inserts-nlp");
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      if (align) {  // the same alignment, written by the other command
        Str want = r.out.files["o.nlp"];
        in.o.sub = "align";
        in.o.extra.clear();
        for (auto& f : {"n.json", "s.txt"})
          if (in.more.count(f)) in.o.extra.insert(in.o.extra.end(), {Str(f) == "n.json" ? "--ref-json" : "--syn", f});
        Run a = execute(ex, in);
        if (!a.ok) return a.problem;
        // only confidences may differ: none are given
        if (a.out.files["o.nlp"] != want) return "align writes another file than wer";
      }
      ex.trace();
      std::vector<Word> ws;
      Str t = attribute(p, r.rows, &ws);
      if (!t.empty()) return t;
      ex.states(ws.size() + 1);
      ex.transitions(ws.size());
      Strs head = {"token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags", "oldTs", "oldEndTs", "ali_comment", "confidence"};
      if (r.nlp.header != head) return "another header";
      size_t n = 0;
      std::set<Str> kinds;
      for (auto& w : ws) {
        if (w.kind == 'i' && !inserts) continue;
        if (n >= r.nlp.rows.size()) return "row " + std::to_string(n + 1) + " of the output is missing";
        const Strs& g = r.nlp.rows[n++];
        Str where = "output row " + std::to_string(n) + " (" + join(g, "|") + "): ";
        if (g.size() != 13) return where + "not 13 columns";
        Str ts, ets;
        if (w.hyp >= 0 && p.hfmt != "txt") {
          double a = ct[w.hyp].start, b = a + ct[w.hyp].dur;
          if (p.hfmt == "nlp" && w.hyp % 4 == 1) a = b;
          if (p.hfmt == "nlp" && w.hyp % 4 == 2) b = a;
          ts = fixed4(a);
          ets = fixed4(b);
        }
        if (w.hyp < 0 || p.hfmt != "txt") {
          auto fits = [&](const Str& got, const Str& want) {
            if (!clock || want.empty()) return got == want;
            size_t dot = got.find('.');
            return dot != Str::npos && got.size() == dot + 5 && std::abs(atof(got.c_str()) - atof(want.c_str())) < 0.0016;
          };
          if (!fits(g[2], ts) || !fits(g[3], ets)) return where + "times " + g[2] + " to " + g[3] + " instead of " + ts + " to " + ets;
        }
        if (w.kind == 'i') {
          kinds.insert("insertion");
          if (!g[0].empty()) return where + "an insertion has a token";
          if (g[11] != "ins(" + w.row.hyp + ")") return where + "not marked as the insertion of " + w.row.hyp;
          continue;
        }
        int R = w.to - w.from, S = w.group < 0 ? 1 : w.size;
        const NlpRow& a = p.rows[w.from];
        const NlpRow& z = p.rows[w.to - 1];
        bool one = w.group < 0 || R == S;      // row for row
        const NlpRow& mine = one ? p.rows[w.from + (w.group < 0 ? 0 : w.pos)] : R == 1 ? a : w.pos == 0 ? a : z;
        bool middle = !one && R > 1 && w.pos > 0 && w.pos < S - 1;
        // words: the reading's, in the reference's own casing where it is the reference's word
        Str tok = w.row.ref;
        if (!middle && (lower_letters(mine.token) == tok || is_tag(mine.token))) tok = mine.token;
        if (g[0] != tok) return where + "the token is not " + tok;
        const Str& sp = one ? mine.speaker : a.speaker;
        if (g[1] != sp) return where + "speaker is not " + sp;
        Str com = w.kind == 'd' ? "del" : w.kind == 's' ? "sub(" + w.row.hyp + ")" : "";
        if (!starts(g[11], com) || (g[11].size() > com.size() && g[11][com.size()] != ',') || (w.group < 0 && g[11] != com))
          return where + "comment is not " + com;
        const NlpRow& tagged = middle ? a : mine;
        Str tags = tagged.mark && tagged.tags.empty() ? "" : list_text(tagged.tags), wt = list_text(tagged.wer_tags);
        if (g[7] != tags) return where + "tags are not " + tags;
        if (g[8] != wt) return where + "wer_tags are not " + wt;
        // punctuation: row for row, else behind the group's last word
        Str pu = one ? mine.punct : w.pos == S - 1 ? z.punct : "";
        bool inner = !one && R > 1 && w.pos == 0 && S > 1 && !a.punct.empty();  // see the assumptions
        if (g[4] != pu && !inner) return where + "punctuation is not '" + pu + "'";
        if (one) {
          if (g[5] != mine.prepunct) return where + "prepunctuation is not '" + mine.prepunct + "'";
          if (g[6] != mine.casing) return where + "case is not " + mine.casing;
          if (g[9] != mine.ts || g[10] != mine.endTs) return where + "old times are not those of the reference";
        } else {
          // the case of the first row goes to the first word, that of the last of several rows to the last word
          const Str& cs = w.pos == 0 ? a.casing : R > 1 && !middle ? z.casing : Str("LC");
          if (g[6] != cs) return where + "case is not " + cs;
          if (!middle && S > 1 && (g[9] != mine.ts || g[10] != mine.endTs)) return where + "old times are not those of the reference";
        }
        kinds.insert(w.group < 0 ? Str(1, w.kind) : one ? "direct" : R == 1 ? "one row, several words" : S == 1 ? "several rows, one word" : "group");
      }
      if (n != r.nlp.rows.size()) return "the output has " + std::to_string(r.nlp.rows.size()) + " rows instead of " + std::to_string(n);
      if (kinds.size() > 1 || !kinds.count("=")) ex.nontrivial();
      for (auto& k : kinds) ex.outcome((align ? "align: " : inserts ? "with insertions: " : "") + k);
      return "";
    };
    talk_space(ex, s, [&](const Rich& q) -> Str {
      for (int mode = 0; mode < 3; mode++) {
        if (!ex.thorough() && mode != (int)((q.hyp.size() + q.rows.size()) % 3) && q.family == "long") continue;
        Str t = judge(q, mode);
        if (!t.empty()) return (mode == 1 ? "[align] " : mode == 2 ? "[with insertions] " : "") + t;
      }
      return "";
    });
    // times of all sizes, also out of order
    for (int clock = 1; clock <= 16; clock++)
      for (int n = 1; n <= 4; n++)
        for (auto hf : {"ctm", "nlp"}) {
          Rich p;
          p.family = "times";
          p.want_nlp = true;
          p.give_norm = false;
          for (int i = 0; i < n; i++) p.rows.push_back(NlpRow("w" + std::to_string(i), i > 1 ? "2" : "1", i % 2 ? "," : ""));
          edit_space(tokens(p.rows), 1, {"x"}, [&](const Strs& h) {
            if (h.empty() || (!ex.thorough() && (int)(h.size() + clock) % 3 != n % 3)) return;
            p.hyp = h;
            p.hfmt = hf;
            mode++;
            ex.visit(p.family, [&]() { return judge(p, mode % 3, clock); });
          });
        }
    // words of all casings keep their own, also of letters beyond ASCII
    for (auto& ref : std::vector<Strs>{{"Ab"}, {"AB", "c"}, {"aB", "Ab", "C"}, {"\xC3\x89t\xC3\xA9"}, {"\xC3\x89T\xC3\x89", "\xC3\xA9" "A"}, {"\xD0\x96\xD0\x96", "x", "\xCE\xA9m"}, {"\xC5\x81z", "\xC3\x9F"}})
      for (int e = 0; e < 3; e++) {
        Rich p;
        p.family = "own casing";
        p.want_nlp = true;
        p.give_norm = false;
        Strs low;
        for (auto& w : ref) p.rows.push_back(NlpRow(w)), low.push_back(lower_letters(w));
        if (e == 2) {  // read as a label's own words
          p.rows[0].tags = {"5:X"};
          p.norm["5"] = {{"v"}};
          p.give_norm = true;
        }
        edit_space(e ? low : ref, 1, {"x"}, [&](const Strs& h) {
          for (auto hf : {"ctm", "nlp", "txt"}) {
            if (hf[0] == 'n' && h.empty()) continue;
            Rich q = p;
            q.hyp = h;
            q.hfmt = hf;
            mode++;
            ex.visit(q.family, [&]() { return judge(q, mode % 3); });
          }
        });
      }
    // and with the case option, where another spelling is another word
    sequences({"ab", "Ab", "AB"}, 1, ex.thorough() ? 3 : 2, [&](const Strs& ref) {
      edit_space(ref, 1, {"ab", "Ab", "x"}, [&](const Strs& h) {
        for (auto hf : {"ctm", "nlp", "txt"}) {
          if (hf[0] == 'n' && h.empty()) continue;
          Rich p;
          p.family = "case counts";
          p.want_nlp = true;
          p.give_norm = false;
          for (auto& w : ref) p.rows.push_back(NlpRow(w, p.rows.empty() ? "1" : "2", p.rows.size() % 2 ? "." : ""));
          p.hyp = h;
          p.hfmt = hf;
          p.o.extra = {"--use-case"};
          mode++;
          ex.visit(p.family, [&]() { return judge(p, mode % 2 * 2); });
        }
      });
    });
    // tags, with a type and without, keep their spelling whatever they are read as
    for (Str t : {"<laugh>", "<foreign:fr>", "<a:b:c>"})
      sequences({"a", t, "<cough>"}, 1, ex.thorough() ? 4 : 3, [&](const Strs& ref) {
        if (std::count(ref.begin(), ref.end(), t) == 0) return;
        Rich p;
        p.family = "tags as words";
        p.want_nlp = true;
        p.give_norm = false;
        for (size_t i = 0; i < ref.size(); i++) {
          NlpRow w(ref[i]);
          w.speaker = i ? "2" : "1";
          w.punct = i % 2 ? "." : "";
          if (i % 3 == 0) w.wer_tags = {"7"};
          p.rows.push_back(w);
        }
        p.implied = {{{plain_tag(t)}, {{"<unk>"}}}, {{"<cough>"}, {{"<unk>"}}}};
        std::set<Strs> hs;
        for (auto& w : readings(p.lattice(), 30)) edit_space(w, 1, {"b", "<unk>"}, [&](const Strs& h) { hs.insert(h); });
        for (auto& h : hs)
          for (auto ap : {"adapted", "standard"}) {
            p.hyp = h;
            p.hfmt = h.size() % 3 ? "ctm" : "nlp";
            p.o.approach = ap;
            mode++;
            ex.visit(p.family, [&]() { return judge(p, mode % 3); });
          }
      });
  }, m);
}
