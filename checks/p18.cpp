// P18: the casing statistics count the aligned words by their capital letters.
#include "spaces.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; a model walks the rows of the alignment and classifies each aligned word by the capitals of "
           "the reference row and of the hypothesis word; distinct = outcome classes by the counts that occur";
  m.assumptions = {"casing column consistent with the token (LC if and only if there is no capital) or empty"};
  return main_loop(c, v, "P18", [&](Explorer& ex) {
    bool deep = ex.thorough();
    auto judge = [&](const std::vector<NlpRow>& rows, const Strs& hyp, const Str& hfmt, const Str& ap) -> Str {
      Input in;
      in.rfmt = "nlp";
      in.hfmt = hfmt;
      in.ref = nlp_file(rows);
      in.hyp = as_format(hyp, hfmt);
      in.o.approach = ap;
      in.o.extra = {"--record-case-stats"};
      for (auto& w : rows)
        if (w.mark) {
          in.o.extra.push_back("--use-punctuation");
          break;
        }
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      Strs low, rl;
      for (auto& w : hyp) low.push_back(lower_letters(w));
      for (auto& w : rows) rl.push_back(lower_letters(w.token));
      Str t = validate_trace(Lattice::linear(rl), low, r.rows);
      if (!t.empty()) return t;
      ex.states(r.rows.size() + 1);
      ex.transitions(r.rows.size());
      int n[2][3] = {};
      size_t i = 0, j = 0;
      for (auto& x : r.rows) {
        bool ins = x.ref == "<ins>", del = x.hyp == "<del>";
        if (!ins && !del) {
          int a = capitals(rows[i].token), b = capitals(hyp[j]);
          int k = a > b ? 2 : a < b ? 1 : 0;
          if (a || b) n[x.ref != x.hyp][k]++;
        }
        i += !ins;
        j += !del;
      }
      ex.outcome(Str(n[0][0] ? "tp " : "") + (n[0][1] ? "fp " : "") + (n[0][2] ? "fn " : "") + (n[1][0] + n[1][1] + n[1][2] ? "substitutions" : ""));
      if (n[0][1] + n[0][2] + n[1][0] + n[1][1] + n[1][2]) ex.nontrivial();
      const Json::Value& got = r.wer["caseWER"];
      for (int k = 0; k < 2; k++) {
        int tp = n[0][0] + (k ? n[1][0] : 0), fp = n[0][1] + (k ? n[1][1] : 0), fn = n[0][2] + (k ? n[1][2] : 0);
        const Json::Value& g = got[k ? "all" : "matching"];
        Str what = k ? "all words: " : "matching words: ";
        if (g["true_positive"].asInt() != tp || g["false_positive"].asInt() != fp || g["false_negative"].asInt() != fn)
          return what + "reported " + g["true_positive"].asString() + "/" + g["false_positive"].asString() + "/" + g["false_negative"].asString() +
                 " instead of " + std::to_string(tp) + "/" + std::to_string(fp) + "/" + std::to_string(fn);
        if (tp + fp && !close(g["precision"].asDouble(), (double)tp / (tp + fp))) return what + "another precision";
        if (tp + fn && !close(g["recall"].asDouble(), (double)tp / (tp + fn))) return what + "another recall";
      }
      return "";
    };
    struct Form { Str word, casing; };
    std::vector<Form> forms = {{"ab", "LC"}, {"Ab", "UC"}, {"AB", "CA"}, {"aB", "MC"}, {"cd", "LC"}, {"Cd", "UC"}, {"CD", "CA"}};
    Strs hforms = {"ab", "Ab", "AB", "aB", "cd", "Cd", "CD"}, idx;
    for (size_t i = 0; i < forms.size(); i++) idx.push_back(std::to_string(i));
    int n = 0;
    for (int L = 1; L <= (deep ? 3 : 2); L++)
      sequences(idx, L, L, [&](const Strs& q) {
        std::vector<NlpRow> rows;
        for (auto& i : q) {
          auto& f = forms[atoi(i.c_str())];
          rows.push_back(NlpRow(f.word));
          rows.back().casing = f.casing;
        }
        sequences(hforms, 0, 2, [&](const Strs& h) {
          n++;
          for (auto hf : {"ctm", "nlp", "txt"}) {
            if (Str(hf) == "nlp" && h.empty()) continue;
            if (h.size() == 2 && q.size() >= 2 && hf != Strs{"ctm", "nlp", "txt"}[n % 3]) continue;
            Str ap = n % 5 ? "adapted" : "standard", hs = hf;
            ex.visit("short", [&]() { return judge(rows, h, hs, ap); });
          }
        });
      });
    // long enough for the first pass, every casing of one word, with an edit elsewhere
    for (int at = 0; at < 12; at++)
      for (auto& f : std::vector<Form>{{"wxyz", "LC"}, {"Wxyz", "UC"}, {"WXYZ", "CA"}, {"wXyZ", "MC"}})
        for (auto& g : Strs{"wxyz", "Wxyz", "WXYZ", "wXyZ", "Q", "q"})
          for (int e = 0; e < (deep ? 12 : 3); e++) {
            std::vector<NlpRow> rows;
            Strs h;
            for (int i = 0; i < 12; i++) {
              rows.push_back(NlpRow("w" + std::to_string(i)));
              h.push_back((i % 3 ? "w" : "W") + std::to_string(i));
            }
            rows[at].token = f.word;
            rows[at].casing = f.casing;
            h[at] = g;
            int d = (at + 4 * e + 5) % 12;
            if (e % 2) h.insert(h.begin() + d, "X");
            else h.erase(h.begin() + d);
            Str hf = Strs{"ctm", "nlp", "txt"}[(at + e) % 3];
            ex.visit("long", [&]() { return judge(rows, h, hf, "adapted"); });
          }
    // the casing column is optional, and may be empty
    for (auto& f : forms)
      for (auto& g : hforms)
        for (auto& z : Strs{"cd", "Cd"}) {
          std::vector<NlpRow> rows = {NlpRow(f.word), NlpRow(z)};
          rows[0].casing = rows[1].casing = "";
          for (auto hf : {"ctm", "nlp", "txt"})
            for (auto& h : std::vector<Strs>{{g, z}, {g, "cd"}, {g}, {"x", g, "Cd"}}) {
              Str hs = hf;
              ex.visit("no casing given", [&]() { return judge(rows, h, hs, "adapted"); });
            }
        }
    // letters beyond ASCII
    {
      std::vector<Form> fs = {{"\xC3\xA9t\xC3\xA9", "LC"}, {"\xC3\x89t\xC3\xA9", "UC"}, {"\xC3\x89T\xC3\x89", "CA"}, {"\xC3\xA9T\xC3\x89", "MC"},
                              {"\xD0\xB6" "d", "LC"}, {"\xD0\x96" "d", "UC"}, {"\xC3\x9F", "LC"}, {"1", "LC"}, {"\xE4\xB8\xAD", "LC"}};
      for (auto& f : fs)
        for (auto& g : fs)
          for (auto& z : fs) {
            if (!deep && f.word.size() + g.word.size() + z.word.size() > 9) continue;
            std::vector<NlpRow> rows = {NlpRow(f.word), NlpRow(z.word)};
            rows[0].casing = f.casing;
            rows[1].casing = z.casing;
            if (z.casing == "UC") rows[0].casing = rows[1].casing = "";
            for (auto hf : {"ctm", "nlp", "txt"})
              for (auto& h : std::vector<Strs>{{g.word, z.word}, {g.word}, {"x", g.word, f.word}}) {
                Str hs = hf;
                ex.visit("letters", [&]() { return judge(rows, h, hs, h.size() == 2 ? "adapted" : "standard"); });
              }
          }
      int k = 0;
      for (auto& x : letter_pairs())
        for (int how = 0; how < 4; how++) {
          k++;
          Str up = utf8(x.first), lo = utf8(x.second);
          std::vector<NlpRow> rows = {NlpRow(how & 1 ? up + "a" : "a" + lo + "b")};
          rows[0].casing = how & 1 ? "UC" : "LC";
          Strs h = {how & 1 ? (how & 2 ? "A" + up + "c" : lo + "a") : (how & 2 ? "a" + up + "b" : "a" + up + "d")};
          Str hf = Strs{"ctm", "nlp", "txt"}[k % 3];
          ex.visit("every letter", [&]() { return judge(rows, h, hf, "adapted"); });
        }
    }
    // punctuation marks as words
    for (auto& f : forms)
      for (auto& g : hforms)
        for (auto& mark : Strs{".", ","})
          for (int where = 1; where < 4; where++)
            for (auto& hm : Strs{"", ".", ",", "A"}) {
              std::vector<NlpRow> rows = {NlpRow(f.word), NlpRow("ef")};
              rows[0].casing = f.casing;
              if (where & 1) rows[0].punct = mark;
              if (where & 2) rows[1].punct = mark;
              rows = with_marks(rows);
              Strs h = {g};
              if (where & 1 && !hm.empty()) h.push_back(hm);
              h.push_back("Ef");
              if (where & 2 && !hm.empty()) h.push_back(hm);
              Str hf = Strs{"ctm", "nlp", "txt"}[where - 1];
              ex.visit("marks as words", [&]() { return judge(rows, h, hf, "adapted"); });
            }
  }, m);
}
