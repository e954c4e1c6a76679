// P23: only which words are equal matters, not how they are spelled.
#include "talk.h"
using namespace mc;

using Map = std::function<Str(const Str&)>;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is a pair of runs, one of them on transcripts (and rules, candidates) with the words renamed one to one; the two alignments must be "
           "the same up to the renaming and all totals equal; distinct = the renamings";
  m.assumptions = {"names without hyphens, without three underscores in front, not in angle brackets, and without the separators of the file formats (these have a meaning)"};
  return main_loop(c, v, "P23", [&](Explorer& ex) {
    bool deep = ex.thorough();
    // renamings of the words of the spaces (a, b, c, x, w0, ...); one to one on any words
    std::vector<std::pair<Str, Map>> maps = {
        {"reversed order", [](const Str& w) {
           Str r = "q";
           for (unsigned char ch : w) r += (char)(ch >= 'a' && ch <= 'z' ? 'a' + 'z' - ch : ch >= '0' && ch <= '9' ? '0' + '9' - ch : ch);
           return r;
         }},
        {"numbers", [](const Str& w) {
           Str r = "1";
           for (unsigned char ch : w) r += std::to_string(100 + ch);
           return r;
         }},
        {"other scripts", [](const Str& w) {
           Str r;
           for (unsigned char ch : w) r += Str("\xD0") + (char)(0xB0 + ch % 16) + "\xE4\xB8" + (char)(0x80 + ch / 16);
           return r;
         }},
        {"long with a common start", [](const Str& w) { return Str(300, 'w') + w; }},
        {"long with a common end", [](const Str& w) { return w + Str(300, 'w'); }},
        {"underscores", [](const Str& w) { return "_" + w + "_"; }},
        {"apostrophes and dots", [](const Str& w) { return w + "'s." + w; }},
        {"like the program's own names", [](const Str& w) { return "ins" + w + "del_eps"; }},
        {"brackets inside", [](const Str& w) { return "<b>" + w; }},
        {"an opening bracket", [](const Str& w) { return "<" + w; }},
        {"a closing bracket", [](const Str& w) { return w + ">"; }},
        {"in square brackets", [](const Str& w) { return "[" + w + "]"; }},
        {"in parentheses", [](const Str& w) { return "(" + w + ")"; }},
        {"quoted", [](const Str& w) { return "\"" + w + "\""; }},
        {"an opening quote", [](const Str& w) { return "\"" + w; }},
        {"comment signs", [](const Str& w) { return "#" + w; }},
        {"other comment signs", [](const Str& w) { return ";;" + w + "//"; }},
        {"two underscores", [](const Str& w) { return "__" + w + "__"; }},
        {"underscores inside", [](const Str& w) { return "syn__" + w + "_syn_"; }},
        {"like options", [](const Str& w) { return "+ref=" + w + "%s\\n$" + "{0}*?"; }},
    };
    size_t turn = 0;
    // with several readings, those with the same error rate may be ordered by name
    auto same = [&](const Str& name, const Map& f, Run a, Run b, bool choice = false) -> Str {
      if (!a.ok) return a.problem;
      if (!b.ok) return "renamed (" + name + "): " + b.problem;
      ex.trace();
      ex.trace();
      ex.states(a.rows.size() + 1);
      ex.transitions(a.rows.size());
      ex.outcome(name);
      if (a.best.err) ex.nontrivial();
      auto g = [&](const Str& w) { return w == "<ins>" || w == "<del>" ? w : f(w); };
      if (choice) {
        double x = (double)a.best.err * b.best.words, y = (double)b.best.err * a.best.words;
        if (x != y || !a.best.err != !b.best.err)
          return "renamed (" + name + "): " + std::to_string(b.best.err) + " errors in " + std::to_string(b.best.words) + " words instead of " + std::to_string(a.best.err) + " in " +
                 std::to_string(a.best.words);
        return "";
      }
      if (a.rows.size() != b.rows.size()) return "renamed (" + name + "): an alignment of another length";
      for (size_t i = 0; i < a.rows.size(); i++)
        if (g(a.rows[i].ref) != b.rows[i].ref || g(a.rows[i].hyp) != b.rows[i].hyp || a.rows[i].err != b.rows[i].err)
          return "renamed (" + name + "): row " + std::to_string(i + 1) + " is '" + b.rows[i].ref + "' '" + b.rows[i].hyp + "' instead of '" + g(a.rows[i].ref) + "' '" +
                 g(a.rows[i].hyp) + "'";
      for (auto k : {"bestWER", "classWER", "speakerWER", "speakerSwitchWER"})
        if (a.wer[k] != b.wer[k]) return "renamed (" + name + "): another " + k;
      if (a.wer["unigrams"].size() != b.wer["unigrams"].size()) return "renamed (" + name + "): other unigrams";
      for (auto& w : a.wer["unigrams"].getMemberNames())
        if (a.wer["unigrams"][w] != b.wer["unigrams"][f(w)]) return "renamed (" + name + "): another count of '" + w + "'";
      return "";
    };
    auto all = [&](const Strs& w, const Map& f) {
      Strs r;
      for (auto& x : w) r.push_back(f(x));
      return r;
    };
    PlainScale s;
    s.tiny = 3;
    s.deep = deep ? 5 : 4;
    s.edits = deep ? 2 : 1;
    s.approx_off = false;
    s.longs = deep;
    plain_space(ex, s, [&](const Plain& p) -> Str {
      turn = p.ref.size() * 5 + p.hyp.size() * 3 + p.rfmt[0] + p.hfmt[0] + p.o.approach[0] + (p.hyp.empty() ? 0 : p.hyp[p.hyp.size() / 2][0]);
      Run a = execute(ex, p.input());
      for (size_t k = 0; k < maps.size(); k++) {
        if ((k + turn) % (deep ? 3 : maps.size())) continue;
        Plain q = p;
        q.ref = all(p.ref, maps[k].second);
        q.hyp = all(p.hyp, maps[k].second);
        Str t = same(maps[k].first, maps[k].second, a, execute(ex, q.input()));
        if (!t.empty()) return t;
      }
      return "";
    });
    auto rich = [&](const Rich& p) -> Str {
      turn = p.rows.size() * 5 + p.hyp.size() * 3 + p.rfmt[0] + p.hfmt[0] + p.o.approach[0] + (p.hyp.empty() ? 0 : p.hyp[p.hyp.size() / 2][0]);
      if (!deep && p.family[0] == 's' && turn % 3) return "";
      Run a = execute(ex, p.input());
      for (size_t k = 0; k < maps.size(); k++) {
        if ((k + turn) % (deep ? 4 : maps.size())) continue;
        if (ends(maps[k].first, "comment signs") && !p.rules.empty()) continue;  // "#" and ";" mean something in a file of rules
        // a mark as a word of its own is written in another column and keeps its name
        Map f = [&](const Str& w) {
          for (auto& x : p.rows)
            if (x.mark && w == x.token) return w;
          return maps[k].second(w);
        };
        Rich q = p;
        for (auto& x : q.rows)
          if (!x.mark) x.token = f(x.token);
        q.hyp = all(p.hyp, f);
        for (auto& n : q.norm)
          for (auto& x : n.second) x = all(x, f);
        for (auto& r : q.rules) {
          r.lhs = all(r.lhs, f);
          for (auto& x : r.rhs) x = all(x, f);
        }
        Str t = same(maps[k].first, f, a, execute(ex, q.input()), !p.rules.empty() || !p.norm.empty());
        if (!t.empty()) return t;
      }
      return "";
    };
    rich_space(ex, deep ? 2 : 1, rich);
    TalkScale t;
    t.speakers = true;
    t.rows = 3;
    t.edits = 1;
    talk_space(ex, t, rich);
  }, m);
}
