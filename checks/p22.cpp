// P22: options that select or extend outputs do not change the results; runs are reproducible.
#include "talk.h"
using namespace mc;

struct Option {
  Str name;
  Strs args;
  std::map<Str, Str> files;
};

static std::map<Str, Str> sections(const Str& json) {
  std::map<Str, Str> r;
  Json::Value v;
  if (!parse_json(json, &v)) {
    r["unreadable"] = json;
    return r;
  }
  for (auto& k : v["wer"].getMemberNames()) r[k] = v["wer"][k].toStyledString();
  for (auto& k : v.getMemberNames())
    if (k != "wer") r["/" + k] = v[k].toStyledString();
  return r;
}
static Strs messages(const Str& log, bool only_totals) {  // without the times
  Strs r;
  for (auto& l : split_on(log, '\n')) {
    size_t a = l.find("] [");
    size_t b = a == Str::npos ? a : l.find("] [", a + 1);
    if (b == Str::npos) continue;
    Str t = l.substr(b + 2);
    if (!only_totals || t.find("WER") != Str::npos) r.push_back(t);
  }
  return r;
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run with one subset of the options; each output, and each section of the JSON log, must be byte-identical "
           "to that of the run with only the options it depends on; the second part repeats runs with disturbed memory contents, memory layout and "
           "environment; distinct = which outputs were compared";
  return main_loop(c, v, "P22", [&](Explorer& ex) {
    bool deep = ex.thorough();
    const std::vector<Option> opts = {{"json", {"--json-log", "o.json"}, {}},
                                      {"sbs", {"--output-sbs", "o.sbs"}, {}},
                                      {"nlp", {"--output-nlp", "o.nlp"}, {}},
                                      {"log", {"--log", "o.log"}, {}},
                                      {"case", {"--record-case-stats"}, {}},
                                      {"threshold", {"--pr_threshold", "2"}, {}},
                                      {"context", {"--speaker-switch-context", "1"}, {}},
                                      {"sidecar", {"--wer-sidecar", "w.json"}, {{"w.json", "{\"7\":{\"entity_type\":\"E\"}}"}}},
                                      {"inserts", {"--add-inserts-nlp"}, {}},
                                      {"stale", {}, {{"o.json", Str(9000, '{')}, {"o.sbs", Str(9000, 's')}, {"o.nlp", Str(9000, 'n')}}}};
    enum { JSON, SBS, NLP, LOG, CASE, THRESHOLD, CONTEXT, SIDECAR, INSERTS, STALE };
    const int N = opts.size();

    std::vector<Rich> cases;
    for (int k = 0; k < (deep ? 12 : 4); k++) {
      Rich p;
      p.give_norm = k % 2;
      int n = k % 4 < 3 ? 6 : 13;
      for (int i = 0; i < n; i++) {
        p.rows.push_back(NlpRow(i % 4 == 3 ? "a" : "w" + std::to_string(i), i < 3 ? "1" : i % 5 ? "2" : "3", i % 3 == 1 ? "." : ""));
        auto& x = p.rows.back();
        if (i % 3 == 0) x.casing = "UC", x.token[0] ^= 32;
        if (i % 2) x.wer_tags = {"7"};
        if (i == 2) x.wer_tags = {"7", "8"};
        if (k % 2 && (i == 1 || i == 2)) x.tags = {"4:MONEY"};
      }
      if (k % 2) p.norm["4"] = {{"v", "v2", "v3"}, {"u"}};
      if (k % 4 >= 2) p.rules = {{{"w4"}, {{"y", "z"}}}, {{"a"}, {{"aa"}}}};
      p.hyp = {"x"};
      for (int i = 0; i < n; i++) {
        if ((i + k) % 5 == 4) continue;
        p.hyp.push_back((i + k) % 7 == 3 ? "q" : p.rows[i].token);
        if ((i * k) % 6 == 5) p.hyp.push_back("a");
      }
      p.hfmt = Strs{"ctm", "txt", "nlp"}[k % 3];
      cases.push_back(p);
    }
    {  // readings of every kind: tags, cut-off words, compounds, rules and labels
      Rich p;
      p.give_norm = true;
      for (auto w : {"<laugh>", "Uh-", "long-term", "New", "York", "<crosstalk>", "Ten", "dollars", "isn't", "UM", "fine", "time", "line"})
        p.rows.push_back(NlpRow(w, p.rows.size() < 5 ? "1" : "2", p.rows.size() % 3 ? "" : "."));
      for (size_t i = 0; i < p.rows.size(); i++) {
        auto& x = p.rows[i];
        x.casing = isupper(x.token[0]) ? "UC" : "LC";
        if (i % 3 == 0) x.wer_tags = {"7"};
        if (i == 6 || i == 7) x.tags = {"4:MONEY"};
        if (i == 9) x.tags = {"5:FALLBACK"};
      }
      p.norm["4"] = {{"$10"}, {"ten", "bucks"}};
      p.norm["5"] = {{}};
      p.rules = {{{"isn't"}, {{"is", "not"}}}, {{"new", "york"}, {{"ny"}}}};
      for (auto h : {Strs{"<unk>", "uh", "long", "Term", "NY", "<unk>", "$10", "Is", "not", "fine", "time", "line"},
                     Strs{"<laugh>", "Uh-", "longterm", "new", "York", "x", "ten", "Bucks", "isn't", "Fine", "time-line"},
                     Strs{"x", "<unk>", "y", "long", "New", "<laugh>", "ten", "z", "is", "Not", "um", "Time", "Line", "<unk>"}}) {
        p.hyp = h;
        p.hfmt = h.size() == 12 ? "nlp" : "ctm";
        cases.push_back(p);
      }
    }
    auto build = [&](const Rich& p, int mask) {
      Cmd c;
      Str rn = "r." + p.rfmt, hn = "h." + p.hfmt;
      Input in = p.input();
      c.files = in.more;
      c.files[rn] = in.ref;
      c.files[hn] = in.hyp;
      c.args = {"wer", "--ref", rn, "--hyp", hn, "--composition-approach", p.o.approach};
      c.args.insert(c.args.end(), in.o.extra.begin(), in.o.extra.end());
      for (int i = 0; i < N; i++)
        if (mask >> i & 1) {
          c.args.insert(c.args.end(), opts[i].args.begin(), opts[i].args.end());
          for (auto& f : opts[i].files) c.files[f.first] = f.second;
        }
      for (auto f : {"o.json", "o.sbs", "o.nlp", "o.log"})
        c.outputs.push_back(f);
      return c;
    };
    auto bit = [](int i) { return 1 << i; };
    std::map<std::pair<size_t, int>, Out> cache;
    auto base = [&](size_t k, const Rich& p, int mask) -> const Out& {
      auto it = cache.find({k, mask});
      if (it != cache.end()) return it->second;
      return cache[{k, mask}] = run(build(p, mask));
    };
    size_t id = 0;
    for (auto& q : cases)
      for (auto ap : {"adapted", "standard"}) {
        Rich p = q;
        p.o.approach = ap;
        id++;
        for (int mask = 0; mask < 1 << N; mask++) {
          if (mask & bit(STALE) && !(mask & (bit(JSON) | bit(SBS) | bit(NLP)))) continue;
          ex.visit("subsets of the options", [&]() -> Str {
            // an output not asked for must not be given as an existing file
            Cmd c = build(p, mask);
            if (!(mask & bit(JSON))) c.files.erase("o.json");
            if (!(mask & bit(SBS))) c.files.erase("o.sbs");
            if (!(mask & bit(NLP))) c.files.erase("o.nlp");
            ex.replay(c);
            Out o = run(c);
            ex.trace();
            ex.states(1);
            ex.transitions(o.files.size());
            if (!o.ok()) return "the program failed: " + o.why();
            if (mask) ex.nontrivial();
            Str seen;
            for (auto& w : std::vector<std::pair<int, Str>>{{JSON, "o.json"}, {SBS, "o.sbs"}, {NLP, "o.nlp"}, {LOG, "o.log"}}) {
              if (o.has(w.second) != (mask >> w.first & 1)) return w.second + (o.has(w.second) ? " was written unasked" : " was not written");
              if (mask >> w.first & 1) seen += w.second + " ";
            }
            ex.outcome("outputs: " + seen);
            int dep = mask & bit(SIDECAR);
            if (mask & bit(SBS) && o.files["o.sbs"] != base(id, p, bit(SBS) | dep).files.at("o.sbs")) return "the side-by-side file is another one";
            if (mask & bit(NLP) && o.files["o.nlp"] != base(id, p, bit(NLP) | dep | (mask & bit(INSERTS))).files.at("o.nlp")) return "the aligned NLP file is another one";
            if (mask & bit(JSON)) {
              auto got = sections(o.files["o.json"]);
              std::set<Str> names;
              for (auto& s : got) names.insert(s.first);
              for (auto& s : sections(base(id, p, bit(JSON)).files.at("o.json"))) names.insert(s.first);
              for (auto& s : names) {
                int d = s == "unigrams" || s == "bigrams" ? THRESHOLD : s == "speakerSwitchWER" ? CONTEXT : s == "caseWER" ? CASE : starts(s, "wer_tag") || s == "tagWER" ? SIDECAR : -1;
                auto want = sections(base(id, p, bit(JSON) | (d < 0 ? 0 : mask & bit(d))).files.at("o.json"));
                if (got.count(s) != want.count(s)) return "the section " + s + " of the JSON log " + (got.count(s) ? "appears" : "is missing");
                if (got[s] != want[s]) return "the section " + s + " of the JSON log is another one";
              }
            }
            Strs w0 = messages(base(id, p, mask & bit(CONTEXT)).log, true), w1 = messages(o.log, true);
            auto no_tags = [](Strs v) {
              Strs r;
              for (auto& s : v)
                if (s.find("Case") == Str::npos && s.find("case") == Str::npos) r.push_back(s);
              return r;
            };
            if (no_tags(w0) != no_tags(w1)) return "the totals on the console are others";
            if (mask & bit(LOG)) {
              Strs a = messages(o.files["o.log"], false), b = messages(o.log, false);
              std::multiset<Str> x(b.begin(), b.end());
              for (auto& s : a) {
                auto it = x.find(s);
                if (it == x.end()) return "the log file has a line the console does not have: " + s;
                x.erase(it);
              }
              for (auto& s : x)
                if (s.find("WER") != Str::npos) return "the log file lacks the line: " + s;
            }
            return "";
          });
        }
      }

    // the same run again, with other memory contents, memory layout and environment
    auto again = [&](Input in) -> Str {
      if (in.rfmt == "nlp") in.want_nlp = true;
      in.o.extra.push_back("--record-case-stats");
      Run a = execute(ex, in);
      if (!a.ok) return a.problem;
      if (a.best.err) ex.nontrivial();
      for (int d : deep ? std::vector<int>{1, 0xA5, 0xFF} : std::vector<int>{1 + (int)(in.ref.size() * 7 + in.hyp.size()) % 250}) {
        Cmd c = a.cmd;
        c.disturb = d;
        Out o = run(c);
        ex.trace();
        if (!o.ok()) return "the repeated run failed: " + o.why();
        for (auto& f : a.out.files)
          if (o.files[f.first] != f.second) return f.first + " differs between two runs on the same input";
        if (messages(o.log, true) != messages(a.out.log, true)) return "the totals on the console differ between two runs on the same input";
      }
      ex.outcome("repeated");
      return "";
    };
    PlainScale s;
    s.tiny = 2;
    s.deep = deep ? 4 : 3;
    s.edits = 1;
    s.longs = deep;
    s.approx_off = false;
    plain_space(ex, s, [&](const Plain& p) { return again(p.input()); });
    rich_space(ex, 1, [&](const Rich& p) -> Str {
      if (!deep && (p.rows.size() * 3 + p.hyp.size() * 5) % 9) return "";
      return again(p.input());
    });
    TalkScale t;
    t.rows = 3;
    t.edits = 1;
    t.speakers = true;
    t.longs = deep;
    t.groups = deep;
    talk_space(ex, t, [&](const Rich& p) { return again(p.input()); });

    // more candidate alignments never make the result worse
    auto more = [&](Input in) -> Str {
      double last = 1e30;
      for (auto nb : {"1", "2", "3", "10", "100", "1000"}) {
        Input x = in;
        x.o.extra.insert(x.o.extra.end(), {"--numbests", nb});
        Run r = execute(ex, x);
        if (!r.ok) return r.problem;
        ex.trace();
        double w = r.best.words ? (double)r.best.err / r.best.words : r.best.err;
        if (w > last + 1e-9) return Str("a worse result with --numbests ") + nb;
        if (w < last && last < 1e29) ex.nontrivial();
        last = w;
      }
      ex.outcome("number of candidates");
      return "";
    };
    for (auto ap : {"adapted", "standard"}) {
      sequence_pairs_canonical({"a", "b", "c"}, 1, deep ? 4 : 3, 1, deep ? 4 : 3, [&](const Strs& r, const Strs& h) {
        Plain p{"candidates", r, h, "txt", "ctm", {}};
        p.o.approach = ap;
        ex.visit(p.family, [&]() { return more(p.input()); });
      });
      mixed_space(ex, 1, [&](const Rich& q) -> Str {
        if (!deep && (q.rows.size() + q.hyp.size()) % 4) return "";
        Rich p = q;
        p.o.approach = ap;
        return more(p.input());
      });
    }
  }, m);
}
