// P21: every input gets a complete result or is refused; nothing crashes the program.
#include "spaces.h"
using namespace mc;

static const Str kHead = "token|speaker|ts|endTs|punctuation|case|tags|wer_tags\n";

struct Job {
  std::map<Str, Str> files;
  Strs args;
  Cmd cmd() const {
    Cmd c;
    c.files = files;
    c.args = args;
    c.outputs = {"o.json", "o.sbs", "o.nlp"};
    return c;
  }
};

// "" when the run ended in one of the two allowed ways
static Str judge(Explorer& ex, const Job& j, int want /* 1 result, 0 refusal, -1 either, -2 any ending but a crash */, Run* out = nullptr) {
  Cmd c = j.cmd();
  ex.replay(c);
  Out o = run(c, 30);
  if (o.timeout) o = run(c, 120);
  ex.trace();
  ex.states(1);
  if (o.timeout) return "did not terminate";
  bool thrown = o.sig == 6 && o.err.find("terminate called after throwing") != Str::npos;
  if (o.sig && !thrown) return "crashed: " + o.why();
  bool refused = thrown || o.code != 0;
  ex.outcome(refused ? "refused" : "result");
  if (refused) {
    if (strip(o.err).empty() && strip(o.log).empty()) return "refused without a word";
    if (want == 1) return "refused a valid input: " + o.why();
    if (o.has("o.json")) return "refused, but a JSON log was written";
    return "";
  }
  if (want == 0) return "accepted";
  if (want == -2) return "";
  bool wer = !c.args.empty() && c.args[0] == "wer";
  if (!wer) return o.has("o.nlp") && !o.files["o.nlp"].empty() ? "" : "no aligned file";
  Run r;
  r.out = o;
  if (!o.has("o.json") || !o.has("o.sbs")) return "an output file is missing";
  if (!parse_json(o.files["o.json"], &r.json)) return "unreadable JSON log";
  r.sbs = parse_sbs(o.files["o.sbs"]);
  if (!r.sbs.ok) return "unreadable side-by-side file: " + r.sbs.problem;
  r.rows = r.sbs.rows;
  r.wer = r.json["wer"];
  r.best = json_wer(r.wer["bestWER"]);
  if (!r.best.present) return "no totals in the JSON log";
  Counts k = count_rows(r.rows);
  if (k.ins != r.best.ins || k.del != r.best.del || k.sub != r.best.sub || k.errors() != r.best.err || k.ref_words() != r.best.words)
    return "the totals are not those of the alignment";
  for (auto f : {"unigrams", "bigrams", "speakerSwitchWER"})
    if (r.wer.isMember(f) && !r.wer[f].isObject() && !r.wer[f].isNull()) return Str("malformed ") + f;
  if (r.best.err) ex.nontrivial();
  if (out) *out = r;
  return "";
}

int main(int c, char** v) {
  Meta m;
  m.rule = "each case is one run of the program built with the address and undefined-behaviour sanitizers and with checked "
           "containers; it has to end with a complete, consistent result or with a refusal and a reason; distinct = kinds of ending";
  return main_loop(c, v, "P21", [&](Explorer& ex) {
    bool deep = ex.thorough();
    // transcripts at the edge of nothing, of every format, against each other
    struct File { Str ext, text; int words; };
    std::vector<File> tiny = {{"txt", "", 0}, {"txt", "\n", 0}, {"txt", " \n\n \n", 0}, {"txt", "a", 1}, {"txt", "a\n", 1}, {"txt", "a b\n", 2},
                              {"ctm", "", 0}, {"ctm", "\n", 0}, {"ctm", "r 1 0 1 a", 1}, {"ctm", "r 1 0 1 a\n", 1}, {"ctm", "r 1 0 1 a 0.5\nr 1 1 1 b 1\n", 2},
                              {"nlp", kHead, 0}, {"nlp", kHead.substr(0, kHead.size() - 1), 0}, {"nlp", kHead + "a|1||||LC|[]|[]\n", 1},
                              {"nlp", kHead + "a|1|||.|LC|['0:X']|['1']", 1}, {"nlp", kHead + "A||0|1|?|UC|[]|[]\nb|2|1|2|,|LC|['1:Y']|['1', '2']\n", 2}};
    std::vector<Strs> optsets = {{}, {"--disable-approx-alignment"}, {"--use-punctuation", "--use-case"}, {"--record-case-stats", "--add-inserts-nlp", "--speaker-switch-context", "1"},
                                 {"--pr_threshold", "3", "--numbests", "1"}, {"--speaker-switch-context", "0", "--disable-cutoffs", "--disable-hyphen-ignore"},
                                 {"--speaker-switch-context", "-3", "--pr_threshold", "-1", "--levenstein-max-error-streak", "-1"}};
    for (auto& a : tiny)
      for (auto& b : tiny)
        for (auto ap : {"adapted", "standard"})
          for (auto& x : optsets) {
            Job j;
            j.files["r." + a.ext] = a.text;
            j.files["h." + b.ext] = b.text;
            j.args = {"wer", "--ref", "r." + a.ext, "--hyp", "h." + b.ext, "--composition-approach", ap, "--json-log", "o.json", "--output-sbs", "o.sbs", "--output-nlp", "o.nlp"};
            j.args.insert(j.args.end(), x.begin(), x.end());
            bool punct = !x.empty() && x[0] == "--use-punctuation";
            ex.visit("tiny", [&]() -> Str {
              Run r;
              Str t = judge(ex, j, 1, &r);
              if (!t.empty() || punct) return t;
              if (r.best.words != a.words) return "another number of reference words";
              if (!a.words && r.best.err != b.words) return "another number of insertions";
              if (!b.words && r.best.err != a.words) return "another number of deletions";
              return "";
            });
          }
    // nothing or little against enough words for the first pass
    for (int la : {0, 1, 2, 9, 10, 11, 12, 13})
      for (int lb : {0, 1, 2, 9, 10, 11, 12, 13, 60})
        for (int sw = 0; sw < 2; sw++)
          for (int common = 0; common < 3; common++)
            for (int f = 0; f < 9; f++) {
              if (!deep && (la + lb + common) % 3 != f % 3) continue;
              Strs a, b;
              for (int i = 0; i < la; i++) a.push_back("w" + std::to_string(i));
              for (int i = 0; i < lb; i++) b.push_back((common == 0 ? "w" : common == 1 && i % 2 ? "w" : "v") + std::to_string(i));
              if (sw) std::swap(a, b);
              Job j;
              Str re = Strs{"txt", "ctm", "nlp"}[f / 3], he = Strs{"txt", "ctm", "nlp"}[f % 3];
              j.files["r." + re] = as_format(a, re);
              j.files["h." + he] = as_format(b, he);
              j.args = {"wer", "--ref", "r." + re, "--hyp", "h." + he, "--composition-approach", (la + f) % 2 ? "adapted" : "standard", "--json-log", "o.json", "--output-sbs", "o.sbs"};
              if (lb % 3 == 0) j.args.insert(j.args.end(), {"--levenstein-max-error-streak", "0"});
              ex.visit("lengths", [&]() { return judge(ex, j, 1); });
            }
    // words that look like the program's own symbols, and other odd ones
    Strs odd = {"-", "--", "a-", "-a", "a--b", "-a-", "<", ">", "<>", "<a", "a>", "<laugh>", "<foreign:fr>", "<:>", "<unk>", "<ins>", "<del>", "<sub>", "<oov>", "<eps>",
                "___", "______", "___1___", "___1_X___", "___100000_SYN_1-1___", "_", "#", "|x", ";", "'", "\"", "\\", "\xff\xfe", "\xC3", "\xE2\x82\xAC", Str(3000, 'w'),
                "1e999", "nan", "0", "\x01"};
    auto reserved = [](const Str& w) { return w == "<ins>" || w == "<del>" || w == "<sub>" || w == "<eps>" || (w.size() > 2 && w.substr(0, 3) == "___"); };
    for (auto& w : odd)
      for (auto& u : odd)
        for (auto ap : {"adapted", "standard"})
          for (int shape = 0; shape < 3; shape++) {
            if (!deep && &w != &u && shape == 1) continue;
            Job j;
            Strs r = shape ? Strs{"a", w, "b"} : Strs{w}, h = shape == 2 ? Strs{u, u, "b"} : shape ? Strs{"a", u, "b"} : Strs{u};
            j.files["r.txt"] = join(r) + "\n";
            j.files["h.ctm"] = ctm(h);
            j.args = {"wer", "--ref", "r.txt", "--hyp", "h.ctm", "--composition-approach", ap, "--json-log", "o.json", "--output-sbs", "o.sbs"};
            ex.visit("odd words", [&]() { return judge(ex, j, reserved(w) || reserved(u) ? -2 : -1); });
          }

    // the align command
    for (auto& a : tiny)
      for (auto& b : tiny)
        for (auto ap : {"adapted", "standard"}) {
          Job j;
          j.files["r." + a.ext] = a.text;
          j.files["h." + b.ext] = b.text;
          j.args = {"align", "--ref", "r." + a.ext, "--hyp", "h." + b.ext, "--composition-approach", ap, "--output-nlp", "o.nlp"};
          ex.visit("align", [&]() { return judge(ex, j, a.ext == "nlp" && b.ext == "ctm"); });
        }

    // one run with every kind of input file
    struct Base { std::map<Str, Str> files; Strs args; };
    std::vector<Base> bases;
    {
      Base b;
      b.files["r.nlp"] = kHead + "In|1||||UC|[]|[]\n2020|2|1|2|.|CA|['0:YEAR', '1:X']|['7', '8']\na-b|2||||LC|[]|[]\n";
      b.files["h.ctm"] = "r 1 0.5 1 in 0.9\nr 1 2 0.25 twenty 1\nr 1 3 1 twenty 1\nr 1 4 1 c 0\n";
      b.files["n.json"] = "{\"0\":{\"candidates\":[{\"probability\":0.5,\"verbalization\":[\"twenty\",\"twenty\"]}],\"class\":\"YEAR\"}}";
      b.files["w.json"] = "{\"7\":{\"entity_type\":\"E\"},\"8\":{\"entity_type\":\"F\"}}";
      b.files["s.rules"] = "# rules\na-b | c ; d e\nin | inn\n";
      b.args = {"--ref", "r.nlp", "--hyp", "h.ctm", "--ref-json", "n.json", "--wer-sidecar", "w.json", "--syn", "s.rules"};
      bases.push_back(b);
      b.files.erase("h.ctm");
      b.files["h.nlp"] = kHead + "In|1|0|1||UC|['0:Y']|['1']\ntwenty|1|1|2|,|LC|[]|[]\n";
      b.args[3] = "h.nlp";
      bases.push_back(b);
      Base d;
      d.files["r.txt"] = "a b c\n";
      d.files["s.txt"] = "<eps> 0\na 1\nb 2\nc 3\n";
      d.files["h.txt"] = "a c c\n";
      d.args = {"--ref", "r.txt", "--hyp", "h.txt", "--symbols", "s.txt"};
      bases.push_back(d);
    }
    auto job = [&](const Base& b, const Str& ap) {
      Job j;
      j.files = b.files;
      j.args = {"wer"};
      j.args.insert(j.args.end(), b.args.begin(), b.args.end());
      j.args.insert(j.args.end(), {"--composition-approach", ap, "--json-log", "o.json", "--output-sbs", "o.sbs", "--output-nlp", "o.nlp"});
      return j;
    };
    for (auto& b : bases)
      for (auto ap : {"adapted", "standard"}) {
        ex.visit("all files", [&]() { return judge(ex, job(b, ap), 1); });
        // every file missing, empty where that is invalid, or not of its format
        for (auto& f : b.files) {
          Job j = job(b, ap);
          j.files.erase(f.first);
          ex.visit("missing files", [&]() { return judge(ex, j, 0); });
          std::vector<Str> bad;
          if (ends(f.first, ".json")) bad = {"", "{", "{\"0\":", "x", "{\"0\":{\"candidates\":[}", "[1"};
          if (ends(f.first, ".nlp")) bad = {"", kHead + "a|1\n", kHead + "a|1||||LC|[]|[]\nb\n", kHead + "a|1||||LC|[]|[]\n\nb|1||||LC|[]|[]\n"};
          if (ends(f.first, ".ctm")) bad = {"a b\n", "r 1 0 1\n", "r 1 x 1 a\n", "r 1 0 y a\n", "r 1 0 1 a\nr 1 0\n", "r 1 0 1 a 0.5\nr 1 1 1 b\n", "r 1 0 1 a\nr 1 1 1 b 0.5\n", "r 1 0 1 a x\n"};
          if (f.first == "s.txt") bad = {"a\n", "a 1 2\n", "a b c d\n", "a x\n"};
          for (auto& t : bad) {
            Job k = job(b, ap);
            k.files[f.first] = t;
            ex.visit("malformed files", [&]() { return judge(ex, k, 0); });
          }
        }
      }
    // torn and damaged files: every prefix, every byte replaced or removed
    for (size_t bi = 0; bi < bases.size(); bi++)
      for (auto& f : bases[bi].files) {
        if (bi == 1 && !starts(f.first, "h.")) continue;
        const Str& t = f.second;
        auto go = [&](const Str& fam, const Str& x, size_t n) {
          Job j = job(bases[bi], n % 2 ? "adapted" : "standard");
          j.files[f.first] = x;
          ex.visit(fam, [&]() { return judge(ex, j, -1); });
        };
        for (size_t n = 0; n < t.size(); n++) go("torn files", t.substr(0, n), n);
        const Str put = " |\n\"'[]:,;-<>_#.0\xff";
        for (size_t n = f.first == "s.txt" ? 8 : 0; n < t.size(); n++) {  // number 0 is <eps> in every OpenFST table
          Str x = t;
          x.erase(n, 1);
          go("damaged files", x, n);
          for (size_t q = 0; q < put.size(); q++) {
            if (!deep && (q + n) % 6) continue;
            if (put[q] == '\n' && ends(f.first, ".json")) continue;  // a word of two lines
            if (put[q] == '_' && ends(f.first, ".nlp")) continue;    // ids are numbers
            x = t;
            x[n] = put[q];
            go("damaged files", x, n + q / 6);
            if (deep) {
              x = t;
              x.insert(n, 1, put[q]);
              go("damaged files", x, n + q);
            }
          }
        }
      }
    // numbers at the ends of their range
    for (Str o : {"--numbests", "--pr_threshold", "--speaker-switch-context", "--levenstein-max-error-streak"})
      for (Str v : {"-2147483648", "-2147483647", "-1", "0", "1", "2147483646", "2147483647", "2147483648", "99999999999999999999"})
        for (auto sub : {"wer", "align"})
          for (bool same : {true, false}) {
            if (sub[0] == 'a' && o == "--speaker-switch-context") continue;
            Job j;
            Str rows, ctm;
            for (int i = 0; i < 14; i++) {
              Str w = "w" + std::to_string(i);
              rows += w + "|" + (i % 4 == 3 ? "2" : "1") + "|||" + (i % 3 ? "" : ".") + "|LC|[]|[]\n";
              if (same || i != 5) ctm += "r 1 " + std::to_string(i) + " 1 " + (same || i != 8 ? w : "x y") .substr(0, i == 8 && !same ? 1 : 9) + "\n";
            }
            j.files["r.nlp"] = kHead + rows;
            j.files["h.ctm"] = ctm;
            j.args = {sub, "--ref", "r.nlp", "--hyp", "h.ctm", "--output-sbs", "o.sbs", "--output-nlp", "o.nlp", o, v};
            if (sub[0] == 'w') j.args.insert(j.args.end(), {"--json-log", "o.json"});
            bool fits = v.size() < 11 && v != "2147483648";
            fits |= v[0] == '-';
            bool none = o == "--numbests" && v == "0";
            ex.visit("extreme numbers", [&]() { return judge(ex, j, !fits || none ? -1 : 1); });
          }
    // the command line
    for (auto& x : std::vector<std::pair<Strs, int>>{{{}, 0}, {{"--version"}, -3}, {{"--help"}, -3}, {{"wer", "--help"}, -3}, {{"--help-all"}, -3}, {{"x"}, 0}, {{"wer"}, 0}, {{"align"}, 0},
                                                     {{"wer", "--ref", "r.txt"}, 0}, {{"wer", "--hyp", "r.txt"}, 0}, {{"wer", "--ref", "r.txt", "--hyp", "r.txt", "--nothing"}, 0},
                                                     {{"wer", "--ref", "r.txt", "--hyp", "r.txt", "--numbests", "x"}, 0}, {{"wer", "--ref", "r.txt", "--hyp", "r.txt", "--composition-approach", "other"}, 0},
                                                     {{"wer", "--ref", "r.txt", "--hyp", "r.txt", "--pr_threshold"}, 0}, {{"align", "--ref", "r.txt", "--hyp", "r.txt", "--output-nlp", "o.nlp"}, 0},
                                                     {{"wer", "--ref", "r.txt", "--hyp", "r.txt", "--json-log", "o.json", "--output-sbs", "o.sbs"}, 1},
                                                     {{"wer", "-r", "r.txt", "--hyp", "r.txt", "--json-log", "o.json", "--output-sbs", "o.sbs", "-s", "s"}, 1}})
      ex.visit("command line", [&]() -> Str {
        Job j;
        j.args = x.first;
        j.files["r.txt"] = "a b\n";
        j.files["s"] = "a | b\n";
        if (x.second != -3) return judge(ex, j, x.second);
        ex.replay(j.cmd());
        Out o = run(j.cmd());
        ex.trace();
  ex.states(1);
        ex.outcome("help");
        return o.ok() && !o.log.empty() ? "" : "no answer: " + o.why();
      });
  }, m);
}
