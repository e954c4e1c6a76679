// P24: the JSON log follows its schema, and the console tells the same numbers.
#include <cmath>
#include "talk.h"
using namespace mc;

struct Result {  // of one breakdown entry
  int err = 0, words = 0;
  double wer = 0;
  bool undefined = false;
};
static Str integer(const Json::Value& v, const Str& k, int* out) {
  if (!v.isMember(k)) return "lacks " + k;
  if (!v[k].isInt()) return "has a " + k + " that is no integer: " + v[k].toStyledString();
  *out = v[k].asInt();
  return *out < 0 ? "has a negative " + k : "";
}
static Str rate(const Json::Value& v, const Str& k, int num, int den, double* out) {
  if (!v.isMember(k)) return "lacks " + k;
  const Json::Value& x = v[k];
  if (!den) {  // undefined: null, infinite, or zero
    if (!x.isNull() && !x.isNumeric() && x != "inf") return "has a " + k + " that is no number";
    if (x.isNumeric() && std::isfinite(x.asDouble()) && x.asDouble() != 0) return "has a " + k + " of " + x.toStyledString() + " without any word";
    return "";
  }
  if (!x.isNumeric()) return "has a " + k + " that is no number: " + x.toStyledString();
  *out = x.asDouble();
  if (!mc::close(*out, (double)num / den)) return "has a " + k + " of " + x.toStyledString() + "instead of " + std::to_string(num) + "/" + std::to_string(den);
  return "";
}
static const std::set<Str> kWer = {"insertions", "deletions", "substitutions", "numErrors", "numWordsInReference", "wer"};
static Str wer_result(const Str& what, const Json::Value& v, bool meta, Result* r, std::set<Str> more = {}) {
  if (!v.isObject()) return what + " is no object";
  int i, d, s, e, n;
  Str t;
  for (auto& f : std::vector<std::pair<Str, int*>>{{"insertions", &i}, {"deletions", &d}, {"substitutions", &s}, {"numErrors", &e}, {"numWordsInReference", &n}})
    if (!(t = integer(v, f.first, f.second)).empty()) return what + " " + t;
  if (e != i + d + s) return what + " has numErrors " + std::to_string(e) + ", not the sum";
  if (d + s > n) return what + " has more deletions and substitutions than reference words";
  r->err = e, r->words = n;
  if (!(t = rate(v, "wer", e, n, &r->wer)).empty()) return what + " " + t;
  if (meta && !v["meta"].isObject()) return what + " has no meta object";
  more.insert(kWer.begin(), kWer.end());
  if (meta) more.insert("meta");
  for (auto& k : v.getMemberNames())
    if (!more.count(k)) return what + " has the field " + k;
  return "";
}
static Str pr_result(const Str& what, const Json::Value& v) {
  if (!v.isObject()) return what + " is no object";
  int i, d, fp, fn, c;
  Str t;
  for (auto& f : std::vector<std::pair<Str, int*>>{{"insertions", &i}, {"deletions", &d}, {"substitutions_fp", &fp}, {"substitutions_fn", &fn}, {"correct", &c}})
    if (!(t = integer(v, f.first, f.second)).empty()) return what + " " + t;
  double x;
  if (!(t = rate(v, "precision", 100 * c, c + i + fp, &x)).empty()) return what + " " + t;
  if (!(t = rate(v, "recall", 100 * c, c + d + fn, &x)).empty()) return what + " " + t;
  if (v.size() != 7) return what + " has other fields";
  return "";
}
// "e/n = x ..." on the console
static Str told(const Str& what, const Str& text, const Result& r) {
  int e = -1, n = -1, k = 0;
  char x[64] = "";
  if (sscanf(text.c_str(), "%d/%d = %60s%n", &e, &n, x, &k) != 3) return "the console's line on " + what + " is unreadable: " + text;
  if (e != r.err || n != r.words)
    return "the console gives " + what + " " + std::to_string(e) + "/" + std::to_string(n) + ", the JSON log " + std::to_string(r.err) + "/" + std::to_string(r.words);
  if (r.words && std::fabs(atof(x) - r.wer) > 6e-5 * std::max(1.0, r.wer)) return "the console gives " + what + " a rate of " + x;
  return "";
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; every object of its JSON log is checked against the schema, and the lines of the console are matched one to one "
           "with its objects; distinct = sections present";
  m.assumptions = {"a rate without any word to count over may be null, infinite or zero"};
  return main_loop(c, v, "P24", [&](Explorer& ex) {
    bool deep = ex.thorough();
    auto judge = [&](Input in, bool talk, bool cased) -> Str {
      if (cased) in.o.extra.push_back("--record-case-stats");
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      if (r.best.err) ex.nontrivial();
      std::map<Str, Str> lines;  // of the console: what precedes " WER: " or ": " -> what follows
      Strs seen_lines;
      for (auto& l : split_on(r.out.log, '\n')) {
        size_t a = l.find("] [wer] ");
        if (a == Str::npos) continue;
        Str t = l.substr(a + 8);
        if (!starts(t, "class ") && !starts(t, "speaker ") && !starts(t, "Speaker switch") && !starts(t, "Wer Entity") && !starts(t, "case WER")) continue;
        size_t w = starts(t, "case WER") || t.find("INS:") != Str::npos ? t.find(": ") + 2 : t.find("WER: ") == Str::npos ? Str::npos : t.find("WER: ") + 5;
        if (w == Str::npos) continue;
        Str key = t.substr(0, w);
        if (starts(t, "Speaker switch") && t.find("INS:") != Str::npos) key += "counts";
        while (key.find("  ") != Str::npos) key.erase(key.find("  "), 1);
        if (lines.count(key)) return "two lines on the console: " + key;
        lines[key] = t.substr(w);
      }
      if (r.json.getMemberNames() != Strs{"wer"}) return "the JSON log has other sections";
      Str t, sections;
      auto tell = [&](const Str& key, const Str& what, const Result& q) -> Str {
        auto it = lines.find(key);
        if (it == lines.end()) return "the console has no line on " + what;
        Str t = told(what, it->second, q);
        lines.erase(it);
        return t;
      };
      for (auto& k : r.wer.getMemberNames()) {
        const Json::Value& x = r.wer[k];
        sections += k.substr(0, 3) + (k.size() > 3 ? k.substr(k.size() - 4, 1) : "") + " ";
        ex.states(1);
        if (k == "bestWER") {
          Result q;
          if (!(t = wer_result(k, x, true, &q, {"precision", "recall"})).empty()) return t;
        } else if (k == "classWER" || k == "speakerWER" || k == "wer_tag") {
          if (!x.isObject()) return k + " is no object";
          for (auto& id : x.getMemberNames()) {
            Result q;
            Str what = k + " '" + id + "'";
            ex.transitions(1);
            if (!(t = wer_result(what, x[id], true, &q)).empty()) return t;
            Str key = (k[0] == 'c' ? "class " + id : k[0] == 's' ? "speaker " + id : "Wer Entity ID " + id) + " WER: ";
            while (key.find("  ") != Str::npos) key.erase(key.find("  "), 1);
            if (!(t = tell(key, what, q)).empty()) return t;
          }
        } else if (k == "speakerSwitchWER") {
          Result q;
          if (!(t = wer_result(k, x, true, &q)).empty()) return t;
          if (x["meta"].getMemberNames() != Strs{"windowSize"} || !x["meta"]["windowSize"].isInt()) return k + " does not tell the window size";
          int want = 5;
          for (size_t i = 0; i + 1 < in.o.extra.size(); i++)
            if (in.o.extra[i] == "--speaker-switch-context") want = atoi(in.o.extra[i + 1].c_str());
          if (x["meta"]["windowSize"].asInt() != want) return k + " tells another window size";
          if (!(t = tell("Speaker switch WER: ", k, q)).empty()) return t;
          auto it = lines.find("Speaker switch WER: counts");
          int i = -1, d = -1, s = -1;
          if (it == lines.end() || sscanf(it->second.c_str(), "INS:%d DEL:%d SUB:%d", &i, &d, &s) != 3) return "the console has no counts on the speaker switches";
          if (i != x["insertions"].asInt() || d != x["deletions"].asInt() || s != x["substitutions"].asInt()) return "the console's counts on the speaker switches differ";
          lines.erase(it);
        } else if (k == "sentenceWer") {
          if (!x.isArray()) return k + " is no array";
          for (auto& y : x) {
            Result q;
            if (!(t = wer_result(k, y, false, &q)).empty()) return t;
            ex.transitions(1);
          }
        } else if (k == "unigrams" || k == "bigrams") {
          if (!x.isObject() || x.empty()) return k + " is no object with entries";
          for (auto& id : x.getMemberNames())
            if (!(t = pr_result(k + " '" + id + "'", x[id])).empty()) return t;
          ex.transitions(x.size());
        } else if (k == "caseWER") {
          if (!cased) return "casing statistics nobody asked for";
          if (x.getMemberNames() != Strs{"all", "matching"}) return "caseWER has other parts";
          for (auto part : {"matching", "all"}) {
            int tp, fp, fn;
            const Json::Value& y = x[part];
            Str what = Str("caseWER ") + part;
            for (auto& f : std::vector<std::pair<Str, int*>>{{"true_positive", &tp}, {"false_positive", &fp}, {"false_negative", &fn}})
              if (!(t = integer(y, f.first, f.second)).empty()) return what + " " + t;
            double P = 0, R = 0;
            if (!(t = rate(y, "precision", tp, tp + fp, &P)).empty()) return what + " " + t;
            if (!(t = rate(y, "recall", tp, tp + fn, &R)).empty()) return what + " " + t;
            auto it = lines.find(part[0] == 'm' ? "case WER, (matching words only): " : "case WER, (all including substitutions): ");
            char p[64] = "", q[64] = "";
            if (it == lines.end() || sscanf(it->second.c_str(), "Precision:%60s Recall:%60s", p, q) != 2) return "the console has no line on " + what;
            if ((tp + fp && std::fabs(atof(p) - P) > 2e-6) || (tp + fn && std::fabs(atof(q) - R) > 2e-6)) return "the console gives other numbers on " + what;
            lines.erase(it);
          }
        } else {
          return "the JSON log has the section " + k;
        }
      }
      for (auto k : {"bestWER", "classWER"})
        if (!r.wer.isMember(k)) return Str("the JSON log lacks ") + k;
      if (r.rows.size() && !r.wer.isMember("unigrams")) return "the JSON log lacks unigrams";
      if (cased && talk && !r.wer.isMember("caseWER")) return "the JSON log lacks caseWER";
      if (talk && (!r.wer.isMember("speakerWER") || (!r.wer.isMember("sentenceWer") && r.best.words + r.best.ins) || !r.wer.isMember("speakerSwitchWER"))) return "the JSON log lacks the breakdowns of a reference with speakers";
      if (!lines.empty()) return "a line on the console without an object in the JSON log: " + lines.begin()->first + lines.begin()->second;
      ex.outcome(sections);
      return "";
    };
    PlainScale s;
    s.tiny = 2;
    s.deep = deep ? 4 : 3;
    s.edits = 1;
    s.longs = deep;
    s.approx_off = false;
    plain_space(ex, s, [&](const Plain& p) { return judge(p.input(), false, p.ref.size() % 2); });
    rich_space(ex, 1, [&](const Rich& p) -> Str {
      if (!deep && (p.rows.size() * 3 + p.hyp.size() * 5) % 5) return "";
      return judge(p.input(), false, p.hyp.size() % 2);
    });
    TalkScale t;
    t.speakers = t.punct = t.wer_tags = true;
    t.rows = deep ? 4 : 3;
    t.edits = deep ? 2 : 1;
    talk_space(ex, t, [&](const Rich& p) { return judge(p.input(), true, (p.rows.size() + p.hyp.size()) % 2); });
    for (auto n : {"1", "3"}) {
      t.extra = {"--speaker-switch-context", n};
      t.rows = 3, t.edits = 1;
      talk_space(ex, t, [&](const Rich& p) { return judge(p.input(), true, false); });
    }
  }, m);
}
