#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t kMaxTape = 1 << 17;

struct Shared {               // one per worker, in shared memory
  std::atomic<int> sub;
  std::atomic<int64_t> index; // case being executed, -1 when idle
  std::atomic<int64_t> done;  // cases finished
  std::atomic<int64_t> start_ms;
  std::atomic<int> failed;    // the current case failed an oracle
};
struct Record {               // used by a single-case child
  std::atomic<uint64_t> n;
  uint64_t tape[kMaxTape];
  int status;                 // 0 unknown (crash), 1 pass, 2 discard, 3 fail
  char tag[256];
  char msg[8192];
  char notes[16384];
};
Record* g_record = nullptr;
Case* g_isolated_case = nullptr;

// Best effort: keep the notes of a case that is about to die.
void SaveNotesOnSignal(int sig) {
  signal(sig, SIG_DFL);
  if (g_isolated_case && g_record)
    snprintf(g_record->notes, sizeof g_record->notes, "%s", g_isolated_case->notes_.str().c_str());
  raise(sig);
}
std::atomic<int>* g_stop = nullptr;

double NowSec() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t HashStr(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

void RecordDraw(uint64_t v) {
  uint64_t n = g_record->n.load(std::memory_order_relaxed);
  if (n < kMaxTape) {
    g_record->tape[n] = v;
    g_record->n.store(n + 1, std::memory_order_relaxed);
  }
}

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"') o += "\\\"";
    else if (ch == '\\') o += "\\\\";
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += static_cast<char>(ch);
  }
  return o;
}

enum Outcome { kPass, kDiscard, kFail };

Outcome RunCase(const Sub& sub, Case& c, Failure* f) {
  try {
    sub.fn(c);
    return kPass;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const Failure& e) {
    *f = e;
    return kFail;
  } catch (const std::exception& e) {
    f->tag = "exception";
    f->msg = std::string("uncaught exception: ") + e.what();
    return kFail;
  }
}

int SizeFor(int64_t index, int64_t total) {
  // Sizes cycle so that every stretch of the run sees small and large cases.
  (void)total;
  return static_cast<int>((index * 37) % 101);
}

void SeedCase(Case& c, uint64_t seed, const Sub& sub, int64_t index, int64_t total) {
  c.rng_ = Mix(seed * 0x100000001b3ull ^ Mix(HashStr(sub.name) ^ Mix(static_cast<uint64_t>(index))));
  c.index_ = index;
  c.size_ = SizeFor(index, total);
}

struct Result {
  Outcome outcome = kPass;
  bool crashed = false, hung = false;
  Failure failure;
  std::vector<uint64_t> tape;
  std::string notes;
};

struct Config {
  std::string property, rule, dir, replay_file, only, evidence, debug_case;
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.0;
  double budget = 0;
  int workers = 8;
  double hang_wall = 90;
  int force_size = -1;
} cfg;

std::string Tail(const std::string& path, size_t n) {
  std::ifstream in(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  if (s.size() > n) s = s.substr(s.size() - n);
  return s;
}

double ProcCpu(pid_t pid) {
  char p[64];
  snprintf(p, sizeof p, "/proc/%d/stat", pid);
  std::ifstream in(p);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  size_t r = s.rfind(')');
  if (r == std::string::npos) return 0;
  std::istringstream is(s.substr(r + 2));
  std::string x;
  double v = 0;
  for (int i = 3; i <= 15 && (is >> x); ++i) if (i == 14 || i == 15) v += atof(x.c_str());
  return v / sysconf(_SC_CLK_TCK);
}

void QuietChild(const std::string& errfile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && !getenv("PBT_SHOW")) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

// True when the process looks hung rather than merely starved of CPU.
bool LooksHung(pid_t pid, double wall, double cpu_used) {
  (void)pid;
  if (wall < cfg.hang_wall) return false;
  return cpu_used > 0.4 * cfg.hang_wall || cpu_used < 0.02 * wall || wall > 5 * cfg.hang_wall;
}

// Runs one case in a forked child. tape==nullptr: generate from the seed.
Result RunIsolated(const Sub& sub, const std::vector<uint64_t>* tape, int64_t index,
                   int64_t total, int size) {
  memset(static_cast<void*>(&g_record->n), 0, sizeof(g_record->n));
  g_record->status = 0;
  g_record->tag[0] = g_record->msg[0] = g_record->notes[0] = 0;
  const std::string err = cfg.dir + "/isolated.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    QuietChild(err);
    Case c;
    c.quiet_ = true;
    c.thorough_ = cfg.thorough;
    SeedCase(c, cfg.seed, sub, index, total);
    if (tape) { c.replay_ = true; c.tape_ = *tape; }
    c.size_ = size;
    c.on_draw_ = RecordDraw;
    g_isolated_case = &c;
    for (int sig : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(sig, SaveNotesOnSignal);
    Failure f;
    Outcome o = RunCase(sub, c, &f);
    if (o == kFail) {
      snprintf(g_record->tag, sizeof g_record->tag, "%s", f.tag.c_str());
      snprintf(g_record->msg, sizeof g_record->msg, "%s", f.msg.c_str());
    }
    snprintf(g_record->notes, sizeof g_record->notes, "%s", c.notes_.str().c_str());
    g_record->status = o == kPass ? 1 : o == kDiscard ? 2 : 3;
    _exit(0);
  }
  const double t0 = NowSec();
  int st = 0;
  Result r;
  int polls = 0;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    usleep(polls++ < 200 ? 500 : 20000);
    if (polls % 64 == 0) {
      double wall = NowSec() - t0;
      if (wall > cfg.hang_wall && LooksHung(pid, wall, ProcCpu(pid))) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        r.hung = true;
        break;
      }
    }
  }
  uint64_t n = g_record->n.load();
  r.tape.assign(g_record->tape, g_record->tape + n);
  r.notes = g_record->notes;
  if (r.hung) {
    r.outcome = kFail;
    r.failure.tag = "hang";
    r.failure.msg = Str("the case did not finish within ", cfg.hang_wall, " s");
    return r;
  }
  if (g_record->status == 1) { r.outcome = kPass; }
  else if (g_record->status == 2) { r.outcome = kDiscard; }
  else if (g_record->status == 3) { r.outcome = kFail; r.failure = {g_record->tag, g_record->msg}; }
  else {
    r.outcome = kFail;
    r.crashed = true;
    r.failure.tag = WIFSIGNALED(st) ? std::string("crash-") + strsignal(WTERMSIG(st))
                                    : Str("crash-exit-", WEXITSTATUS(st));
    r.failure.msg = r.failure.tag + "; output: " + Tail(err, 3000);
  }
  return r;
}

bool g_shrink_deadline_hit = false;

std::vector<uint64_t> Shrink(const Sub& sub, std::vector<uint64_t> best, const std::string& tag,
                             int64_t index, int64_t total, int size, int* evals) {
  const double deadline = NowSec() + 45;
  const int max_evals = 3000;
  auto bad = [&](const std::vector<uint64_t>& t) {
    if (*evals >= max_evals || NowSec() > deadline) { g_shrink_deadline_hit = true; return false; }
    ++*evals;
    Result r = RunIsolated(sub, &t, index, total, size);
    return r.outcome == kFail && r.failure.tag == tag;
  };
  bool improved = true;
  while (improved && !g_shrink_deadline_hit) {
    improved = false;
    // Truncate.
    for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
      while (best.size() >= cut) {
        std::vector<uint64_t> t(best.begin(), best.end() - cut);
        if (!bad(t)) break;
        best = t;
        improved = true;
      }
    }
    // Delete chunks.
    for (size_t k : {16, 8, 4, 2, 1}) {
      if (k > best.size()) continue;
      for (size_t i = best.size() - k + 1; i-- > 0;) {
        if (i + k > best.size()) continue;
        std::vector<uint64_t> t = best;
        t.erase(t.begin() + i, t.begin() + i + k);
        if (bad(t)) { best = t; improved = true; }
        if (g_shrink_deadline_hit) return best;
      }
    }
    // Zero chunks.
    for (size_t k : {8, 4, 1}) {
      for (size_t i = 0; i + k <= best.size(); i += k) {
        std::vector<uint64_t> t = best;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) { any = any || t[j]; t[j] = 0; }
        if (any && bad(t)) { best = t; improved = true; }
        if (g_shrink_deadline_hit) return best;
      }
    }
    // Lower values.
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      uint64_t lo = 0, hi = best[i];
      int guard = 0;
      while (lo + 1 < hi && guard++ < 24) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> t = best;
        t[i] = mid;
        if (bad(t)) { hi = mid; best = t; improved = true; } else { lo = mid; }
        if (g_shrink_deadline_hit) return best;
      }
      if (best[i] > 0) {
        std::vector<uint64_t> t = best;
        t[i] -= 1;
        if (bad(t)) { best = t; improved = true; }
      }
    }
    if (best.size() > 600) break;
  }
  return best;
}

std::vector<std::pair<std::string, std::string>> LoadKnown() {
  // Lines: finding: property=<id> tag=<sub/tag> <text>
  std::vector<std::pair<std::string, std::string>> out;
  const char* p = getenv("PBT_KNOWN");
  if (!p) return out;
  std::ifstream in(p);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("finding:", 0) != 0) continue;
    if (line.find("property=" + cfg.property + " ") == std::string::npos) continue;
    size_t t = line.find("tag=");
    if (t == std::string::npos) continue;
    size_t e = line.find(' ', t);
    std::string tag = line.substr(t + 4, e == std::string::npos ? e : e - t - 4);
    out.push_back({tag, e == std::string::npos ? "" : line.substr(e + 1)});
  }
  return out;
}

int ReplayMain() {
  std::ifstream in(cfg.replay_file);
  std::string all((std::istreambuf_iterator<char>(in)), {});
  auto field = [&](const std::string& k) {
    size_t p = all.find("\"" + k + "\":");
    if (p == std::string::npos) return std::string();
    p = all.find_first_not_of(" ", p + k.size() + 3);
    if (all[p] == '"') return all.substr(p + 1, all.find('"', p + 1) - p - 1);
    if (all[p] == '[') return all.substr(p + 1, all.find(']', p) - p - 1);
    return all.substr(p, all.find_first_of(",}\n", p) - p);
  };
  const std::string name = field("sub");
  std::vector<uint64_t> tape;
  std::string t = field("tape");
  for (char& ch : t) if (ch == ',') ch = ' ';
  std::istringstream is(t);
  uint64_t v;
  while (is >> v) tape.push_back(v);
  cfg.seed = strtoull(field("seed").c_str(), nullptr, 10);
  cfg.thorough = field("tier") == "thorough";
  for (const Sub& s : Subs()) {
    if (name != s.name) continue;
    int fails = 0;
    Result r;
    const int reps = s.schedule ? 100 : 1;
    for (int i = 0; i < reps && !fails; ++i) {
      r = RunIsolated(s, &tape, atoll(field("index").c_str()), 1, atoi(field("size").c_str()));
      fails += r.outcome == kFail;
    }
    printf("%s: %s/%s\n%s\n--- case ---\n%s\n", fails ? "REPRODUCED" : "passes now", s.name,
           r.failure.tag.c_str(), r.failure.msg.c_str(), r.notes.c_str());
    return fails ? 1 : 0;
  }
  fprintf(stderr, "no sub-property %s\n", name.c_str());
  return 2;
}

}  // namespace

uint64_t Case::draw(uint64_t max) {
  uint64_t v;
  if (replay_) {
    v = pos_ < tape_.size() ? tape_[pos_] : 0;
    if (v > max) v = max;
    ++pos_;
    if (pos_ > kMaxTape) throw Discard();
  } else {
    rng_ += 0x9e3779b97f4a7c15ull;
    uint64_t x = rng_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    x ^= x >> 31;
    v = max == ~0ull ? x : static_cast<uint64_t>((static_cast<unsigned __int128>(x) * (max + 1)) >> 64);
    tape_.push_back(v);
    if (tape_.size() > kMaxTape) throw Discard();
  }
  if (on_draw_) on_draw_(v);
  return v;
}

double Case::sym(double scale) {
  switch (draw(7)) {
    case 0: return 0.0;
    case 1: {  // small integers
      double v = static_cast<double>(range(1, 4));
      return (coin() ? -v : v) * (scale / 4);
    }
    default: {
      double v = unit();
      return (coin() ? -v : v) * scale;
    }
  }
}

std::vector<int> Case::permutation(int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  // Shrinks to the identity: swap i with i + draw(...), zero draws do nothing.
  for (int i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + draw(n - 1 - i)]);
  return p;
}

std::vector<Sub>& Subs() {
  static std::vector<Sub> s;
  return s;
}

int Main(int argc, char** argv, const char* property, const char* rule) {
  // Disable address-space randomisation so runs depend on code and seed only
  // (Abseil's hash tables are salted with an address).
  if (!getenv("PBT_REEXEC")) {
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) {
      setenv("PBT_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  cfg.property = property;
  cfg.rule = rule;
  cfg.dir = "/tmp";
  if (const char* s = getenv("VERIF_SEED")) cfg.seed = strtoull(s, nullptr, 10);
  if (const char* s = getenv("VERIF_TIER")) cfg.thorough = std::string(s) == "thorough";
  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  cfg.workers = ncpu > 0 ? static_cast<int>(std::min<long>(ncpu, 16)) : 4;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") cfg.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") cfg.thorough = next() == "thorough";
    else if (a == "--dir") cfg.dir = next();
    else if (a == "--evidence") cfg.evidence = next();
    else if (a == "--replay") cfg.replay_file = next();
    else if (a == "--case") cfg.debug_case = next();  // SUB:INDEX, run in this process (debugging aid)
    else if (a == "--only") cfg.only = next();
    else if (a == "--scale") cfg.scale = atof(next().c_str());
    else if (a == "--budget") cfg.budget = atof(next().c_str());
    else if (a == "--workers") cfg.workers = atoi(next().c_str());
    else if (a == "--hang") cfg.hang_wall = atof(next().c_str());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (cfg.budget <= 0) cfg.budget = cfg.thorough ? 3 * 3600 : 400;
  mkdir(cfg.dir.c_str(), 0755);
  g_record = static_cast<Record*>(mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (!cfg.replay_file.empty()) return ReplayMain();

  const double t0 = NowSec();
  // The work list: (sub, index), interleaved so that a budget hit still
  // leaves every sub-property explored.
  std::vector<Sub> subs;
  for (const Sub& s : Subs())
    if (cfg.only.empty() || cfg.only == s.name) subs.push_back(s);
  std::vector<int64_t> totals;
  for (const Sub& s : subs) {
    int64_t n = static_cast<int64_t>((cfg.thorough ? s.thorough : s.quick) * cfg.scale);
    totals.push_back(std::max<int64_t>(n, 1));
  }
  struct Chunk { int sub; int64_t begin, end; };
  std::vector<Chunk> chunks;
  const int kParts = 64;
  for (int p = 0; p < kParts; ++p)
    for (size_t s = 0; s < subs.size(); ++s) {
      int64_t b = totals[s] * p / kParts, e = totals[s] * (p + 1) / kParts;
      if (b < e) chunks.push_back({static_cast<int>(s), b, e});
    }
  if (!cfg.debug_case.empty()) {
    const size_t colon = cfg.debug_case.find(':');
    for (size_t i = 0; i < subs.size(); ++i) {
      if (cfg.debug_case.substr(0, colon) != subs[i].name) continue;
      Case c;
      c.thorough_ = cfg.thorough;
      SeedCase(c, cfg.seed, subs[i], atoll(cfg.debug_case.c_str() + colon + 1), totals[i]);
      Failure f;
      Outcome o = RunCase(subs[i], c, &f);
      printf("%s\n%s %s %s\n", c.notes_.str().c_str(), o == kFail ? "FAILED" : o == kPass ? "passed" : "discarded", f.tag.c_str(), f.msg.c_str());
    }
    return 0;
  }
  const int W = cfg.workers;
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Global { std::atomic<int> stop; std::atomic<int64_t> next_chunk; };
  Global* gl = static_cast<Global*>(mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  gl->stop = 0;
  gl->next_chunk = 0;

  const auto known = LoadKnown();
  std::map<std::string, int64_t> labels, known_hits;
  std::map<std::string, std::vector<std::string>> samples;
  std::vector<int64_t> evals(subs.size(), 0), nontriv(subs.size(), 0), discards(subs.size(), 0);
  std::vector<std::unordered_set<uint64_t>> distinct(subs.size());
  bool budget_hit = false;
  struct Candidate { int sub; int64_t index; bool hung; std::string msg; };
  std::vector<Candidate> candidates;
  std::vector<std::pair<int, int64_t>> skip;  // cases that killed a worker (known / unconfirmed)

  auto worker_main = [&](int w, bool resume) {
    QuietChild(cfg.dir + Str("/worker", w, ".err"));
    (void)resume;
    std::ofstream out(cfg.dir + Str("/worker", w, ".out"), std::ios::app | std::ios::binary);
    while (!gl->stop.load()) {
      int64_t ci = gl->next_chunk.fetch_add(1);
      if (ci >= static_cast<int64_t>(chunks.size())) break;
      const Chunk ch = chunks[ci];
      const Sub& sub = subs[ch.sub];
      std::map<std::string, int64_t> lab;
      int64_t ev = 0, nt = 0, di = 0;
      for (int64_t i = ch.begin; i < ch.end && !gl->stop.load(); ++i) {
        if (std::find(skip.begin(), skip.end(), std::make_pair(ch.sub, i)) != skip.end()) continue;
        sh[w].sub = ch.sub;
        sh[w].start_ms = static_cast<int64_t>(NowSec() * 1000);
        sh[w].index = i;
        Case c;
        c.thorough_ = cfg.thorough;
        SeedCase(c, cfg.seed, sub, i, totals[ch.sub]);
        Failure f;
        Outcome o = RunCase(sub, c, &f);
        ++ev;
        if (o == kDiscard) ++di;
        for (auto& kv : c.labels_) lab[kv.first] += kv.second;
        if (o == kPass && c.nontrivial_) {
          ++nt;
          uint64_t h = 14695981039346656037ull;
          for (uint64_t v : c.tape_) h = Mix(h ^ v);
          out << "H " << ch.sub << " " << h << "\n";
          if (i < 24 || nt == 1) {
            std::string n = c.notes_.str();
            if (n.size() > 900) n = n.substr(0, 900) + "...";
            if (!n.empty()) out << "S " << ch.sub << " " << JsonEscape(n) << "\n";
          }
        }
        if (o == kFail) {
          bool is_known = false;
          for (auto& k : known)
            if (k.first == std::string(sub.name) + "/" + f.tag) {
              is_known = true;
              out << "K " << ch.sub << " " << f.tag << "\n";
            }
          if (!is_known) {
            out << "F " << ch.sub << " " << i << " " << f.tag << " " << JsonEscape(f.msg.substr(0, 300)) << "\n";
            out.flush();
            sh[w].failed = 1;
            gl->stop = 1;
            break;
          }
        }
        sh[w].index = -1;
        sh[w].done.fetch_add(1);
      }
      out << "E " << ch.sub << " " << ev << " " << nt << " " << di << "\n";
      for (auto& kv : lab) out << "L " << ch.sub << " " << kv.second << " " << JsonEscape(kv.first) << "\n";
      out.flush();
    }
    sh[w].index = -1;
    out.flush();
    out.close();
    _exit(0);
  };

  std::vector<pid_t> pids(W, 0);
  std::vector<double> cpu_at_start(W, 0);
  std::vector<int64_t> seen_index(W, -1), seen_start(W, 0);
  for (int w = 0; w < W; ++w) unlink((cfg.dir + Str("/worker", w, ".out")).c_str());

  int violations = 0;
  int64_t unconfirmed = 0;
  std::string violation_line;
  bool finished = false;
  while (!finished) {
    gl->stop = 0;
    candidates.clear();
    for (int w = 0; w < W; ++w) {
      sh[w].index = -1;
      sh[w].failed = 0;
      fflush(stdout);
      pids[w] = fork();
      if (pids[w] == 0) worker_main(w, false);
      seen_index[w] = -1;
    }
    int alive = W;
    double stop_deadline = 0;
    while (alive > 0) {
      usleep(10000);
      for (int w = 0; w < W; ++w) {
        if (!pids[w]) continue;
        int st;
        if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
          --alive;
          pids[w] = 0;
          bool crash = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
          if (crash && sh[w].index.load() >= 0 && stop_deadline == 0) {
            candidates.push_back({sh[w].sub.load(), sh[w].index.load(), false});
            gl->stop = 1;
          } else if (crash && sh[w].index.load() < 0 && stop_deadline == 0) {
            fprintf(stderr, "worker %d died outside a case (status %d)\n", w, st);
            return 3;
          }
          continue;
        }
        int64_t idx = sh[w].index.load(), start = sh[w].start_ms.load();
        if (idx >= 0 && (idx != seen_index[w] || start != seen_start[w])) {
          seen_index[w] = idx;
          seen_start[w] = start;
          cpu_at_start[w] = -1;
        } else if (idx >= 0) {
          double wall = NowSec() - start / 1000.0;
          if (wall > 1 && cpu_at_start[w] < 0) cpu_at_start[w] = ProcCpu(pids[w]);
          if (wall > cfg.hang_wall && LooksHung(pids[w], wall, ProcCpu(pids[w]) - cpu_at_start[w])) {
            candidates.push_back({sh[w].sub.load(), idx, true});
            gl->stop = 1;
            kill(pids[w], SIGKILL);
          }
        }
      }
      if (!budget_hit && NowSec() - t0 > cfg.budget) { budget_hit = true; gl->stop = 1; }
      if (gl->stop.load()) {
        if (stop_deadline == 0) stop_deadline = NowSec() + (budget_hit ? 30 : 2);
        if (NowSec() > stop_deadline)
          for (int w = 0; w < W; ++w) if (pids[w]) kill(pids[w], SIGKILL);
      }
    }
    // Collect oracle failures reported by workers.
    for (int w = 0; w < W; ++w) {
      const std::string path = cfg.dir + Str("/worker", w, ".out");
      std::ifstream in(path, std::ios::binary);
      std::string line;
      while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string kind;
        int s;
        is >> kind >> s;
        if (!is || s < 0 || s >= static_cast<int>(subs.size())) continue;
        if (kind == "E") { int64_t a, b, d; if (is >> a >> b >> d) { evals[s] += a; nontriv[s] += b; discards[s] += d; } }
        else if (kind == "H") { uint64_t h; if (is >> h) distinct[s].insert(h); }
        else if (kind == "F") { int64_t i; if (is >> i) { candidates.push_back({s, i, false}); std::getline(is, candidates.back().msg); } }
        else if (kind == "K") { std::string t; is >> t; ++known_hits[std::string(subs[s].name) + "/" + t]; }
        else if (kind == "L") { int64_t n; std::string rest; is >> n; std::getline(is, rest); labels[std::string(subs[s].name) + ":" + rest.substr(rest.empty() ? 0 : 1)] += n; }
        else if (kind == "S") { std::string rest; std::getline(is, rest); auto& v = samples[subs[s].name]; if (v.size() < 3) v.push_back(rest.substr(rest.empty() ? 0 : 1)); }
      }
      unlink(path.c_str());
    }
    if (candidates.empty()) { finished = true; break; }

    // Confirm, shrink and report the first candidate (lowest sub / index).
    std::sort(candidates.begin(), candidates.end(), [](const Candidate& a, const Candidate& b) {
      return a.sub != b.sub ? a.sub < b.sub : a.index < b.index;
    });
    bool reported = false;
    for (const Candidate& cand : candidates) {
      const Sub& sub = subs[cand.sub];
      const int size = SizeFor(cand.index, totals[cand.sub]);
      Result first;
      int fails = 0, tries = sub.schedule ? 150 : 3, need = sub.schedule ? 1 : 2;
      double conf_deadline = NowSec() + (cand.hung ? 3.2 * cfg.hang_wall : 120);
      for (int k = 0; k < tries && fails < need && NowSec() < conf_deadline; ++k) {
        Result r = RunIsolated(sub, nullptr, cand.index, totals[cand.sub], size);
        if (r.outcome == kFail) { ++fails; first = r; }
      }
      if (fails < need) {
        ++unconfirmed;
        fprintf(stderr, "UNCONFIRMED sub=%s index=%lld (failed %d of %d replays)%s\n", sub.name,
                static_cast<long long>(cand.index), fails, tries, cand.msg.c_str());
        skip.push_back({cand.sub, cand.index});
        continue;
      }
      bool is_known = false;
      for (auto& k : known)
        if (k.first == std::string(sub.name) + "/" + first.failure.tag) {
          ++known_hits[k.first];
          is_known = true;
        }
      skip.push_back({cand.sub, cand.index});
      if (is_known) continue;
      std::vector<uint64_t> best = first.tape;
      int nevals = 0;
      g_shrink_deadline_hit = false;
      if (!first.hung && !sub.schedule)
        best = Shrink(sub, best, first.failure.tag, cand.index, totals[cand.sub], size, &nevals);
      Result fin = first.hung ? first : RunIsolated(sub, &best, cand.index, totals[cand.sub], size);
      if (fin.outcome != kFail || fin.failure.tag != first.failure.tag) {
        fin = first;
        best = first.tape;
      }
      // Replay three times from the replay tape (schedule properties: rates).
      const std::string path = cfg.dir + "/" + cfg.property + "-" + sub.name + Str("-seed", cfg.seed, "-", cand.index) + ".replay.json";
      std::ofstream o(path);
      o << "{\"property\": \"" << cfg.property << "\",\n \"sub\": \"" << sub.name << "\",\n \"tag\": \""
        << JsonEscape(fin.failure.tag) << "\",\n \"seed\": " << cfg.seed << ",\n \"tier\": \""
        << (cfg.thorough ? "thorough" : "quick") << "\",\n \"index\": " << cand.index
        << ",\n \"size\": " << size << ",\n \"shrink_evaluations\": " << nevals << ",\n \"tape\": [";
      for (size_t i = 0; i < best.size(); ++i) o << (i ? "," : "") << best[i];
      o << "],\n \"message\": \"" << JsonEscape(fin.failure.msg) << "\",\n \"case\": \""
        << JsonEscape(fin.notes) << "\"}\n";
      o.close();
      printf("FAILED %s/%s\n%s\n--- minimal case (%zu choices, was %zu) ---\n%s\n", sub.name,
             fin.failure.tag.c_str(), fin.failure.msg.substr(0, 3000).c_str(), best.size(),
             first.tape.size(), fin.notes.substr(0, 4000).c_str());
      violation_line = "VIOLATION property=" + cfg.property + " replay=" + path;
      ++violations;
      reported = true;
      break;
    }
    if (reported || budget_hit) finished = true;
    // Otherwise (known or unconfirmed only): resume with the remaining chunks.
  }
  for (auto& kh : known_hits) {
    std::string text;
    for (auto& k : known) if (k.first == kh.first) text = k.second;
    printf("KNOWN-FINDING: property=%s %s %s (hit %lld times)\n", cfg.property.c_str(), kh.first.c_str(),
           text.c_str(), static_cast<long long>(kh.second));
  }
  // Evidence.
  int64_t total_eval = 0, total_dn = 0, total_disc = 0;
  for (size_t s = 0; s < subs.size(); ++s) {
    total_eval += evals[s];
    total_dn += static_cast<int64_t>(distinct[s].size());
    total_disc += discards[s];
  }
  const double wall = NowSec() - t0;
  if (!cfg.evidence.empty()) {
    std::ofstream o(cfg.evidence);
    o << "{\"property\": \"" << cfg.property << "\", \"tier\": \"" << (cfg.thorough ? "thorough" : "quick")
      << "\", \"seed\": " << cfg.seed << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": "
      << total_eval << ", \"distinct_nontrivial\": " << total_dn << ", \"discarded\": " << total_disc
      << ", \"unconfirmed\": " << unconfirmed << ", \"budget_hit\": " << (budget_hit ? "true" : "false")
      << ",\n  \"rule\": \"" << JsonEscape(cfg.rule) << "\",\n  \"per_sub\": {";
    for (size_t s = 0; s < subs.size(); ++s)
      o << (s ? ", " : "") << "\"" << subs[s].name << "\": {\"planned\": " << totals[s] << ", \"evaluations\": "
        << evals[s] << ", \"nontrivial\": " << nontriv[s] << ", \"distinct_nontrivial\": " << distinct[s].size()
        << ", \"discarded\": " << discards[s] << "}";
    o << "},\n  \"labels\": {";
    bool first = true;
    for (auto& kv : labels) { o << (first ? "" : ", ") << "\"" << kv.first << "\": " << kv.second; first = false; }
    o << "},\n  \"samples\": [";
    first = true;
    for (auto& kv : samples)
      for (auto& s : kv.second) {
        o << (first ? "" : ",\n   ") << "{\"sub\": \"" << kv.first << "\", \"case\": \"" << s << "\"}";
        first = false;
      }
    if (first) o << "\"none\"";
    o << "]},\n \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
  }
  printf("%s: %lld cases (%lld distinct non-trivial, %lld discarded) in %.1f s, seed %llu, tier %s%s%s\n",
         cfg.property.c_str(), static_cast<long long>(total_eval), static_cast<long long>(total_dn),
         static_cast<long long>(total_disc), wall, static_cast<unsigned long long>(cfg.seed),
         cfg.thorough ? "thorough" : "quick", budget_hit ? ", budget hit" : "",
         unconfirmed ? ", some failures did not reproduce" : "");
  if (violations) {
    printf("%s\n", violation_line.c_str());
    return 1;
  }
  return 0;
}

}  // namespace pbt
