#include "mc.h"

#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>

#include <json/json.h>

#ifdef WITH_MAIN
int fstalign_main(int argc, char** argv);
#endif

#ifndef __has_feature
#define __has_feature(x) 0
#endif
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2000"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
namespace mc {

static Str g_scratch;  // the worker's scratch directory
struct Shared {
  volatile int stop;
  volatile uint64_t done;
};
static Shared* g_shared = nullptr;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static Str slurp(const Str& p, bool* ok = nullptr) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) {
    if (ok) *ok = false;
    return "";
  }
  Str s;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  close(fd);
  if (ok) *ok = true;
  return s;
}

static void spit(const Str& p, const Str& s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) {
    perror(p.c_str());
    _exit(97);
  }
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = write(fd, s.data() + off, s.size() - off);
    if (n <= 0) {
      perror("write");
      _exit(97);
    }
    off += n;
  }
  close(fd);
}

Str Cmd::text() const {
  Str r = (program.empty() ? Str("fstalign") : program) + " " + join(args) + "\n";
  for (auto& f : files) r += "--- " + f.first + "\n" + f.second + (ends(f.second, "\n") ? "" : "\n");
  return r;
}

Str Out::why() const {
  if (timeout) return "did not terminate in time";
  if (sig) return "killed by signal " + std::to_string(sig) + " " + err.substr(0, 300);
  if (code) return "exit status " + std::to_string(code) + " " + err.substr(0, 300);
  return "ok";
}

static Out spawn(const std::function<int()>& child, int timeout_s) {
  Out o;
  Str so = g_scratch + "/.stdout", se = g_scratch + "/.stderr";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(97);
  }
  if (pid == 0) {
    int fd = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    int fe = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fe, 2);
    struct rlimit rl = {(rlim_t)3 << 30, (rlim_t)3 << 30};
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
    setrlimit(RLIMIT_AS, &rl);
#endif
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl = {256u << 20, 256u << 20};
    setrlimit(RLIMIT_FSIZE, &rl);
    alarm(timeout_s);
    int rc = 98;
    if (chdir(g_scratch.c_str()) != 0) _exit(97);
    try {
      rc = child();
    } catch (const std::exception& e) {
      std::cerr << "exception: " << e.what() << std::endl;
      rc = 99;
    } catch (const char* e) {
      std::cerr << "exception: " << e << std::endl;
      rc = 99;
    } catch (...) {
      std::cerr << "exception" << std::endl;
      rc = 99;
    }
    std::cout.flush();
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  if (WIFSIGNALED(st)) {
    o.sig = WTERMSIG(st);
    if (o.sig == SIGALRM) o.timeout = true;
  } else {
    o.code = WEXITSTATUS(st);
  }
  o.log = slurp(so);
  o.err = slurp(se);
  return o;
}

Out run(const Cmd& c, int timeout_s) {
#ifdef WITH_MAIN
  for (auto& f : c.files) spit(g_scratch + "/" + f.first, f.second);
  for (auto& f : c.outputs)
    if (!c.files.count(f)) unlink((g_scratch + "/" + f).c_str());
  Strs a = c.args;
  int disturb = c.disturb;
  Out o = spawn(
      [&]() {
        if (disturb) {
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
          mallopt(M_PERTURB, disturb);
#endif
          for (int i = 0; i < 300; i++) {  // holes of many sizes, filled with garbage
            size_t n = 8 + (i * 37 * disturb) % 900;
            void* p = malloc(n);
            memset(p, disturb * 31 + i, n);
            if (i % (disturb % 5 + 2)) free(p);
          }
          setenv("TZ", disturb % 2 ? "Asia/Tokyo" : "America/New_York", 1);
          setenv("LC_ALL", disturb % 2 ? "C" : "C.UTF-8", 1);
          setenv("LANG", disturb % 2 ? "C" : "C.UTF-8", 1);
          setenv("HOME", "/nonexistent", 1);
        }
        std::vector<char*> argv;
        static char name[] = "fstalign";
        argv.push_back(c.program.empty() ? name : const_cast<char*>(c.program.c_str()));
        for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
        argv.push_back(nullptr);
        if (!c.program.empty()) {
          execvp(argv[0], argv.data());
          return 97;
        }
        return fstalign_main((int)argv.size() - 1, argv.data());
      },
      timeout_s);
  for (auto& f : c.outputs) {
    bool ok = false;
    Str s = slurp(g_scratch + "/" + f, &ok);
    if (ok) o.files[f] = s;
  }
  for (auto& f : c.files) unlink((g_scratch + "/" + f.first).c_str());
  return o;
#else
  (void)c;
  (void)timeout_s;
  abort();
#endif
}

Out run_fn(const std::function<Str()>& fn, int timeout_s) {
  Str res = g_scratch + "/.result";
  unlink(res.c_str());
  Out o = spawn(
      [&]() {
        Str s = fn();
        spit(res, s);
        return 0;
      },
      timeout_s);
  o.log = slurp(res);
  return o;
}

// ------------------------------------------------------------------ explorer
Explorer::Explorer(const Str& property, const Str& tier, long seed) : property_(property), tier_(tier), seed_(seed) {}

bool Explorer::stopped() const { return g_shared->stop != 0; }

void Explorer::visit(const Str& family, const std::function<Str()>& body) {
  uint64_t i = index_++;
  if ((int)(i % workers_) != worker_) return;
  if (g_shared->stop || capped_) return;
  if (deadline_ && now() > deadline_) {
    capped_ = true;
    return;
  }
  c_.cases++;
  families_[family]++;
  have_cmd_ = false;
  last_text_.clear();
  last_key_.clear();
  Str v = body();
  if (v.empty()) return;
  // replay before report: the same case must fail the same way again
  Str key = last_key_;
  auto save = c_;
  have_cmd_ = false;
  Str v2 = body();
  c_ = save;
  if (v2 != v) {
    std::cerr << "note: a failing case did not fail the same way on replay\n first: " << v << "\n again: " << v2
              << std::endl;
    if (v2.empty()) {
      v2 = body();
      c_ = save;
      if (v2.empty()) return;
    }
    v = v2;
  }
  for (auto& k : known_)
    if (!key.empty() && k.first == key) {
      known_hit_.insert(key);
      return;
    }
  if (!__sync_bool_compare_and_swap(&g_shared->stop, 0, 1)) return;
  vio_ = "[" + family + "] " + v;
  Str rep = "property: " + property_ + "\ncase: " + vio_ + "\n";
  if (!key.empty()) rep += "key: " + key + "\n";
  if (!last_text_.empty()) rep += last_text_ + "\n";
  if (have_cmd_) rep += last_cmd_.text();
  viopath_ = rep;
}

static Str jsonq(const Str& s) { return Json::valueToQuotedString(s.c_str()); }

int main_loop(int argc, char** argv, const Str& property, const std::function<void(Explorer&)>& enumerate,
              const Meta& meta) {
  const char* t = getenv("VERIF_TIER");
  Str tier = (argc > 1) ? argv[1] : (t && *t ? t : "quick");
  const char* sd = getenv("VERIF_SEED");
  long seed = sd && *sd ? atol(sd) : 1;
  const char* hd = getenv("VERIF_HOME");
  Str home = hd && *hd ? hd : "/verif";
  double t0 = now();
  int W = 8;
  if (const char* w = getenv("VERIF_WORKERS")) W = atoi(w);
  char tmpl[] = "/tmp/verif-run-XXXXXX";
  const char* base = getenv("VERIF_SCRATCH");
  Str root = base && *base ? base : mkdtemp(tmpl);
  mkdir(root.c_str(), 0755);
  g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)g_shared, 0, sizeof *g_shared);

  // known findings of this property: lines "KNOWN <property> <key> :: <what>"
  std::vector<std::pair<Str, Str>> known;
  {
    std::ifstream in(home + "/known_findings.txt");
    Str line;
    while (std::getline(in, line)) {
      if (!starts(line, "KNOWN ")) continue;
      std::istringstream ss(line.substr(6));
      Str p, k;
      ss >> p >> k;
      size_t at = line.find(" :: ");
      if (p == property) known.push_back({k, at == Str::npos ? k : line.substr(at + 4)});
    }
  }

  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      Explorer ex(property, tier, seed);
      ex.worker_ = w;
      ex.workers_ = W;
      ex.known_ = known;
      double budget = tier == "thorough" ? 780 : 600;
      if (const char* b = getenv("VERIF_BUDGET")) budget = atof(b);
      ex.deadline_ = t0 + budget;
      g_scratch = root + "/w" + std::to_string(w);
      mkdir(g_scratch.c_str(), 0755);
      try {
        enumerate(ex);
      } catch (const std::exception& e) {
        std::cerr << "check error: " << e.what() << std::endl;
        _exit(3);
      }
      std::ostringstream o;
      o << "cases " << ex.c_.cases << "\nstates " << ex.c_.states << "\ntransitions " << ex.c_.transitions
        << "\ntraces " << ex.c_.traces << "\nnontrivial " << ex.c_.nontrivial << "\nindex " << ex.index_
        << "\ncapped " << ex.capped_ << "\n";
      for (auto& f : ex.families_) o << "family " << f.second << " " << f.first << "\n";
      for (auto& f : ex.c_.classes) o << "class " << f.second << " " << f.first << "\n";
      for (auto& f : ex.c_.samples) o << "sample " << replace_all(f, "\n", "\\n") << "\n";
      for (auto& k : ex.known_hit_) o << "known " << k << "\n";
      spit(root + "/w" + std::to_string(w) + ".stats", o.str());
      if (!ex.vio_.empty()) {
        spit(root + "/vio.txt", ex.viopath_);
        spit(root + "/vio.msg", ex.vio_);
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  bool bad = false;
  for (auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true;
  }
  std::map<Str, uint64_t> tot, fam, cls;
  std::set<Str> samples, knownhit;
  for (int w = 0; w < W; w++) {
    std::ifstream in(root + "/w" + std::to_string(w) + ".stats");
    Str line;
    while (std::getline(in, line)) {
      std::istringstream ss(line);
      Str k;
      ss >> k;
      if (k == "family" || k == "class") {
        uint64_t n;
        ss >> n;
        Str rest;
        std::getline(ss, rest);
        (k == "family" ? fam : cls)[strip(rest)] += n;
      } else if (k == "sample") {
        Str rest;
        std::getline(ss, rest);
        samples.insert(strip(rest));
      } else if (k == "known") {
        Str rest;
        ss >> rest;
        knownhit.insert(rest);
      } else if (k == "index") {
        uint64_t n;
        ss >> n;
        tot[k] = n;
      } else {
        uint64_t n;
        ss >> n;
        tot[k] += n;
      }
    }
  }
  bool vio_ok = false;
  Str vio = slurp(root + "/vio.txt", &vio_ok);
  Str viomsg = slurp(root + "/vio.msg");
  bool stopped = g_shared->stop;
  bool capped = tot["capped"] > 0;
  double wall = now() - t0;

  // evidence
  Json::Value ev;
  ev["property"] = property;
  ev["tier"] = tier == "thorough" ? "thorough" : "quick";
  ev["seed"] = (Json::Int64)seed;
  ev["level"] = meta.level;
  ev["wall_s"] = wall;
  ev["violations"] = vio_ok ? 1 : 0;
  Json::Value& cov = ev["coverage"];
  cov["states"] = (Json::UInt64)tot["states"];
  cov["transitions"] = (Json::UInt64)tot["transitions"];
  cov["traces_validated_against_impl"] = (Json::UInt64)tot["traces"];
  cov["evaluations"] = (Json::UInt64)tot["cases"];
  cov["distinct_nontrivial"] = (Json::UInt64)tot["nontrivial"];
  cov["space_size"] = (Json::UInt64)tot["index"];
  cov["rule"] = meta.rule;
  cov["distinct_outcomes"] = (Json::UInt64)cls.size();
  cov["exhaustive"] = meta.exhaustive && !stopped && !capped && !bad;
  for (auto& f : fam) cov["families"][f.first] = (Json::UInt64)f.second;
  int nc = 0;
  for (auto& f : cls)
    if (nc++ < 40) cov["outcomes"][f.first] = (Json::UInt64)f.second;
  cov["samples"] = Json::arrayValue;
  nc = 0;
  for (auto& s : samples)
    if (nc++ < 6) cov["samples"].append(s);
  ev["assumptions"] = Json::arrayValue;
  for (auto& a : meta.assumptions) ev["assumptions"].append(a);
  {
    Json::StreamWriterBuilder b;
    b["indentation"] = " ";
    mkdir((home + "/evidence").c_str(), 0755);
    spit(home + "/evidence/" + property + ".json", Json::writeString(b, ev) + "\n");
  }
  std::cout << property << " " << tier << ": cases=" << tot["cases"] << "/" << tot["index"]
            << " states=" << tot["states"] << " transitions=" << tot["transitions"] << " traces=" << tot["traces"]
            << " outcomes=" << cls.size() << " wall=" << wall << "s" << (capped ? " CAPPED" : "") << std::endl;
  for (auto& f : fam) std::cout << "  family " << f.first << ": " << f.second << std::endl;
  for (auto& k : known)
    if (knownhit.count(k.first)) std::cout << "KNOWN-FINDING: property=" << property << " " << k.second << std::endl;
  int rc = 0;
  if (vio_ok) {
    mkdir((home + "/replay").c_str(), 0755);
    Str path = home + "/replay/" + property + ".txt";
    spit(path, vio);
    std::cout << viomsg.substr(0, 2000) << std::endl;
    std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl;
    rc = 1;
  } else if (bad || stopped) {
    std::cout << "check error: a worker failed" << std::endl;
    rc = 3;
  }
  // remove the scratch directory (absolute path below /tmp)
  for (int w = 0; w < W; w++) {
    Str d = root + "/w" + std::to_string(w);
    if (DIR* dp = opendir(d.c_str())) {
      while (dirent* e = readdir(dp)) {
        Str n = e->d_name;
        if (n != "." && n != "..") unlink((d + "/" + n).c_str());
      }
      closedir(dp);
    }
    rmdir(d.c_str());
    unlink((d + ".stats").c_str());
  }
  unlink((root + "/vio.txt").c_str());
  unlink((root + "/vio.msg").c_str());
  rmdir(root.c_str());
  return rc;
}

// --------------------------------------------------------------------- utils
Str join(const Strs& v, const Str& sep) {
  Str r;
  for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i];
  return r;
}
Strs split_ws(const Str& s) {
  std::istringstream ss(s);
  Strs r;
  Str t;
  while (ss >> t) r.push_back(t);
  return r;
}
Strs split_on(const Str& s, char sep) {
  Strs r;
  Str cur;
  for (char ch : s) {
    if (ch == sep) {
      r.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  }
  r.push_back(cur);
  return r;
}
Str strip(const Str& s) {
  size_t a = s.find_first_not_of(" \t\r\n");
  if (a == Str::npos) return "";
  size_t b = s.find_last_not_of(" \t\r\n");
  return s.substr(a, b - a + 1);
}
Str rstrip(const Str& s) {
  size_t b = s.find_last_not_of(" \t\r\n");
  return b == Str::npos ? "" : s.substr(0, b + 1);
}
bool starts(const Str& s, const Str& p) { return s.compare(0, p.size(), p) == 0; }
bool ends(const Str& s, const Str& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
Str replace_all(Str s, const Str& a, const Str& b) {
  size_t p = 0;
  while ((p = s.find(a, p)) != Str::npos) {
    s.replace(p, a.size(), b);
    p += b.size();
  }
  return s;
}
Str utf8(unsigned c) {
  Str r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) r += (char)(0xC0 | c >> 6), r += (char)(0x80 | (c & 63));
  else if (c < 0x10000) r += (char)(0xE0 | c >> 12), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
  else r += (char)(0xF0 | c >> 18), r += (char)(0x80 | (c >> 12 & 63)), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
  return r;
}
// upper and lower case letters of several scripts (no context-dependent ones)
const std::vector<std::pair<unsigned, unsigned>>& letter_pairs() {
  static std::vector<std::pair<unsigned, unsigned>> r;
  if (!r.empty()) return r;
  auto shift = [&](unsigned a, unsigned b, unsigned d) {
    for (unsigned c = a; c <= b; c++)
      if (c != 0xD7 && c != 0x3A2) r.push_back({c, c + d});
  };
  auto next = [&](unsigned a, unsigned b) {
    for (unsigned c = a; c <= b; c += 2)
      if (c != 0x130) r.push_back({c, c + 1});
  };
  shift('A', 'Z', 32);
  shift(0xC0, 0xDE, 32);
  next(0x100, 0x136);
  next(0x139, 0x147);
  next(0x14A, 0x176);
  r.push_back({0x178, 0xFF});
  next(0x179, 0x17D);
  shift(0x391, 0x3AB, 32);
  shift(0x410, 0x42F, 32);
  shift(0x400, 0x40F, 80);
  shift(0x531, 0x556, 48);
  next(0x1E00, 0x1E94);
  next(0x1EA0, 0x1EF8);
  shift(0xFF21, 0xFF3A, 32);
  shift(0x10400, 0x10427, 40);
  return r;
}

static const std::map<Str, Str>& lower_map() {
  static std::map<Str, Str> m;
  if (m.empty())
    for (auto& x : letter_pairs()) m[utf8(x.first)] = utf8(x.second);
  return m;
}
Strs characters(const Str& s) {
  Strs r;
  for (char c : s)
    if ((c & 0xC0) != 0x80 || r.empty()) r.push_back(Str(1, c));
    else r.back() += c;
  return r;
}
Str lower_letters(const Str& s) {
  Str r;
  for (auto& c : characters(s)) {
    auto it = lower_map().find(c);
    r += it == lower_map().end() ? c : it->second;
  }
  return r;
}
int capitals(const Str& s) {
  int n = 0;
  for (auto& c : characters(s)) n += lower_map().count(c);
  return n;
}

Str lower_ascii(Str s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}

void sequences(const Strs& alphabet, int lo, int hi, const std::function<void(const Strs&)>& f) {
  for (int n = lo; n <= hi; n++) {
    std::vector<int> ix(n, 0);
    for (;;) {
      Strs s;
      for (int i : ix) s.push_back(alphabet[i]);
      f(s);
      int k = n - 1;
      while (k >= 0 && ++ix[k] == (int)alphabet.size()) ix[k--] = 0;
      if (k < 0) break;
    }
  }
}

static void rg(const Strs& alphabet, int n, int pos, int used, std::vector<int>& ix,
               const std::function<void(const std::vector<int>&)>& f) {
  if (pos == n) {
    f(ix);
    return;
  }
  int lim = std::min(used + 1, (int)alphabet.size());
  for (int i = 0; i < lim; i++) {
    ix[pos] = i;
    rg(alphabet, n, pos + 1, std::max(used, i + 1), ix, f);
  }
}

void sequence_pairs_canonical(const Strs& alphabet, int lo1, int hi1, int lo2, int hi2,
                              const std::function<void(const Strs&, const Strs&)>& f) {
  for (int n = lo1 + lo2; n <= hi1 + hi2; n++)
    for (int a = lo1; a <= hi1; a++) {
      int b = n - a;
      if (b < lo2 || b > hi2) continue;
      std::vector<int> ix(n);
      rg(alphabet, n, 0, 0, ix, [&](const std::vector<int>& v) {
        Strs x, y;
        for (int i = 0; i < n; i++) (i < a ? x : y).push_back(alphabet[v[i]]);
        f(x, y);
      });
    }
}
}  // namespace mc
