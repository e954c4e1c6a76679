// P20: the side-by-side file is laid out as documented and its groups index its errors.
#include "spaces.h"
using namespace mc;

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run; the side-by-side file is rebuilt, byte by byte, from its own rows by a model of its layout, "
           "with the list of groups derived from the rows; distinct = outcome classes by number and kinds of groups";
  m.assumptions = {"words of at most 20 characters are padded to 20 columns"};
  return main_loop(c, v, "P20", [&](Explorer& ex) {
    bool deep = ex.thorough();
    auto judge = [&](const Input& in, const Strs& hyp) -> Str {
      Run r = execute(ex, in);
      if (!r.ok) return r.problem;
      ex.trace();
      ex.states(r.rows.size() + 1);
      ex.transitions(r.rows.size());
      auto width = [](const Str& s) {
        int n = 0;
        for (unsigned char ch : s) n += (ch & 0xC0) != 0x80;
        return n;
      };
      auto pad = [&](const Str& s) { return Str(std::max(0, 20 - width(s)), ' '); };
      Str want = pad("ref_token") + "ref_token\thyp_token" + pad("hyp_token") + "\tIsErr\tClass\tWer_Tag_Entities\n";
      std::vector<std::pair<int, std::pair<Str, Str>>> groups;
      bool open = false;
      Strs hs;
      Str kinds;
      for (size_t i = 0; i < r.rows.size(); i++) {
        auto& x = r.rows[i];
        bool err = x.ref != x.hyp;
        want += pad(x.ref) + x.ref + "\t" + x.hyp + pad(x.hyp) + "\t" + (err ? "ERR" : "") + "\t" + x.klass + "\t" + x.tags + "\n";
        if (x.hyp != "<del>") hs.push_back(x.hyp);
        if (err && !open) groups.push_back({(int)i + 2, {}});
        if (err) {
          if (x.ref != "<ins>") groups.back().second.first += x.ref + " ";
          if (x.hyp != "<del>") groups.back().second.second += " " + x.hyp;
        }
        open = err;
      }
      want += Str(60, '-') + "\n" + pad("Line") + "Line\tGroup" + pad("Group") + "\n";
      for (auto& g : groups) {
        Str l = std::to_string(g.first), a = g.second.first, b = g.second.second;
        kinds += Str(a.empty() ? "i" : b.empty() ? "d" : "s");
        want += pad(l) + l + "\t" + (a.empty() ? "*** " : a) + "<->" + (b.empty() ? " ***" : b) + "\n";
      }
      if (groups.size() > 3) kinds = "many";
      ex.outcome("groups: " + kinds);
      if (!groups.empty()) ex.nontrivial();
      if (hs != hyp) return "the hypothesis column is not the hypothesis";
      const Str& got = r.out.files["o.sbs"];
      if (got != want) {
        Strs a = split_on(got, '\n'), b = split_on(want, '\n');
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        return "line " + std::to_string(i + 1) + " of the file is '" + (i < a.size() ? a[i] : "") + "' instead of '" + (i < b.size() ? b[i] : "") + "'";
      }
      return "";
    };
    PlainScale s;
    s.deep = deep ? 5 : 4;
    s.deep_symbols = 2;
    s.edits = deep ? 2 : 1;
    plain_space(ex, s, [&](const Plain& p) -> Str {
      if (!deep && p.family[0] == 'a' && (p.rfmt != "txt" || (p.hfmt != "ctm" && p.hfmt != "txt"))) return "";
      return judge(p.input(), p.hyp);
    });
    rich_space(ex, deep ? 2 : 1, [&](const Rich& p) -> Str {
      if (!deep && p.family[0] == 's' && (p.rows.size() * 3 + p.hyp.size()) % 3) return "";
      return judge(p.input(), p.hyp);
    });
    // words that look like tags or like parts of the layout
    sequences({"a", "<unk>", "<laugh>", "<x", "y>", "***", "<->", "{}", "%s", "err", "line", "<insert>", "del"}, 1, 2, [&](const Strs& r) {
      sequences({"a", "<unk>", "<laugh>", "<x", "y>", "***", "<->", "{}", "%s", "err", "-----", "<insert>", "del"}, 0, 2, [&](const Strs& h) {
        if (r.size() + h.size() > 3 && !deep && (r[0].size() + r[1].size() + h[0].size() + h[1].size()) % 5) return;
        Plain p{"words as signs", r, h, "txt", r.size() + h.size() > 3 ? "txt" : "ctm", {}};
        ex.visit(p.family, [&]() { return judge(p.input(), p.hyp); });
      });
    });
    // words of all lengths around the columns' width, and of characters of several bytes
    Strs words = {"x", "exactly-twenty-chars", "one-more-than-twenty1", "nineteen-characters", "a-word-that-is-much-longer-than-the-column-is-wide",
                  "\xC3\xA9t\xC3\xA9", "\xD1\x81\xD0\xBB\xD0\xBE\xD0\xB2\xD0\xBE", "\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9"};
    sequences(words, 1, 2, [&](const Strs& r) {
      sequences(words, 0, 2, [&](const Strs& h) {
        if (r.size() + h.size() > 3 && !deep && (r[0].size() + h[0].size() + h[1].size()) % 4) return;
        Plain p{"wide words", r, h, "txt", "ctm", {}};
        p.o.extra = {"--disable-hyphen-ignore"};
        ex.visit(p.family, [&]() { return judge(p.input(), p.hyp); });
      });
    });
  }, m);
}
