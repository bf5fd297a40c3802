// Bounded-exhaustive exploration driver shared by all harnesses.
//
// A harness implements   void explore(mc::Run &r)   which enumerates *every*
// case of its bounded space in a fixed order.  The driver runs explore() in
// `nworkers` forked processes; each executes the cases whose index it owns, so
// the union is the whole space.  Before a case runs, its description is put in
// shared memory: a crash, sanitizer report, exit() or hang of the code under
// test is then attributed to that case.
#ifndef MC_HH
#define MC_HH
extern "C" void __gcov_dump(void) __attribute__((weak)); // only in coverage builds
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

inline uint64_t fnv(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(std::string const &s, uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x;
}
inline std::string show(std::string const &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string show(std::vector<std::string> const &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + show(v[i]);
  return o + "]";
}

constexpr int MAXW = 64;
constexpr size_t DESC = 8192;
constexpr size_t NSAMPLE = 6;

struct Slot {
  std::atomic<uint64_t> tick, cur_index;
  std::atomic<int> done, violated, in_case;
  char desc[DESC];
  char msg[DESC];
  uint64_t vindex;
};
struct Shared {
  std::atomic<uint64_t> cases, transitions, traces, states, states_full, known, skipped;
  std::atomic<int> stop;
  std::atomic<uint64_t> nsamples;
  char samples[NSAMPLE][1024];
  std::atomic<uint64_t> counters[32];
  Slot slot[MAXW];
};
struct Stop {};

class Run {
public:
  bool thorough = false;
  int worker = 0, nworkers = 1;
  long replay = -1;
  uint64_t index = 0;          // index of the next case
  int max_viol = 1;            // development: collect several
  Shared *sh = nullptr;
  std::atomic<uint64_t> *tab = nullptr;
  uint64_t tabmask = 0;
  std::string cur;
  std::vector<std::string> known_keys;
  std::set<std::string> known_hit;
  int nviol = 0;
  FILE *devlog = nullptr;

  //! Start the next case.  True: this process must run it.
  template <typename F> bool begin(F &&describe) {
    end();
    uint64_t i = index++;
    if (replay >= 0) { if ((long)i != replay) return false; }
    else if (mix(i) % (uint64_t)nworkers != (uint64_t)worker) return false;
    Slot &s = sh->slot[worker];
    if (sh->stop.load(std::memory_order_relaxed)) throw Stop{};
    cur = describe();
    size_t n = std::min(cur.size(), DESC - 1);
    memcpy(s.desc, cur.data(), n); s.desc[n] = 0;
    s.cur_index = i; s.tick++; s.in_case = 1;
    sh->cases++;
    // keep a few samples spread over the run
    uint64_t c = i;
    if (c == 0 || (c & (c - 1)) == 0) {
      uint64_t k = sh->nsamples++;
      snprintf(sh->samples[k % NSAMPLE], 1024, "#%llu %s", (unsigned long long)i, cur.c_str());
    }
    return true;
  }
  void end() { sh->slot[worker].in_case = 0; }
  //! refine the description inside a case that covers many inputs
  void note(std::string const &pre, std::string const &s) {
    cur = pre; cur += " : "; cur += show(s);
    Slot &sl = sh->slot[worker];
    size_t n = std::min(cur.size(), DESC - 1);
    memcpy(sl.desc, cur.data(), n); sl.desc[n] = 0;
    sl.tick++;
  }
  //! one operation executed on the implementation
  void step(uint64_t n = 1) { sh->transitions += n; }
  //! a complete implementation trace was compared with the reference
  void trace(uint64_t n = 1) { sh->traces += n; }
  void count(int k, uint64_t n = 1) { sh->counters[k] += n; }
  //! record an abstract state; counts distinct ones
  void state(uint64_t h) {
    h = mix(h) | 1;
    uint64_t i = (h >> 8) & tabmask;
    for (int probe = 0; probe < 64; ++probe, i = (i + 1) & tabmask) {
      uint64_t v = tab[i].load(std::memory_order_relaxed);
      if (v == h) return;
      if (v == 0) {
        if (tab[i].compare_exchange_strong(v, h)) { sh->states++; return; }
        if (v == h) return;
      }
    }
    sh->states_full++;
  }
  void state(std::string const &s) { state(hash(s)); }
  //! The property does not hold on the current case.  key identifies the defect.
  void fail(std::string const &msg, std::string const &key = "") {
    for (auto const &k : known_keys)
      if (!key.empty() && k == key) { sh->known++; known_hit.insert(k); return; }
    nviol++;
    Slot &s = sh->slot[worker];
    if (devlog) {
      fprintf(devlog, "#%llu %s\n   %s [%s]\n", (unsigned long long)s.cur_index.load(), cur.c_str(), msg.c_str(), key.c_str());
      fflush(devlog);
    }
    if (!s.violated) {
      size_t n = std::min(msg.size(), DESC - 1);
      memcpy(s.msg, msg.data(), n); s.msg[n] = 0;
      s.vindex = s.cur_index; s.violated = 1;
    }
    if (nviol >= max_viol) { sh->stop = 1; throw Stop{}; }
    throw Skip{};
  }
  struct Skip {};
  //! Run one case body; a failure ends the case, not necessarily the run.
  template <typename F> void body(F &&f) {
    try { f(); } catch (Skip &) {}
    end();
  }
};

} // namespace mc

extern char const *const mc_property;
void explore(mc::Run &r);

namespace mc {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string jesc(std::string const &s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline long rss_mb(pid_t p) {
  char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", p);
  FILE *f = fopen(path, "r"); if (!f) return 0;
  long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f);
  return b * 4 / 1024;
}

inline int driver(int argc, char **argv) {
  Run r;
  std::string out, known; int hang = 120; std::string replay_out;
  r.nworkers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--tier") r.thorough = nxt() == "thorough";
    else if (a == "--workers") r.nworkers = atoi(argv[++i]);
    else if (a == "--out") out = nxt();
    else if (a == "--known") known = nxt();
    else if (a == "--replay-index") r.replay = atol(argv[++i]);
    else if (a == "--replay-out") replay_out = nxt();
    else if (a == "--max") r.max_viol = atoi(argv[++i]);
    else if (a == "--hang") hang = atoi(argv[++i]);
  }
  if (r.replay >= 0) r.nworkers = 1;
  if (!known.empty()) {
    std::ifstream is(known); std::string l;
    std::string pre = std::string("known: property=") + mc_property + " key=";
    while (std::getline(is, l))
      if (l.compare(0, pre.size(), pre) == 0) {
        auto rest = l.substr(pre.size());
        r.known_keys.push_back(rest.substr(0, rest.find(' ')));
      }
  }
  double t0 = now();
  auto map = [](size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
  r.sh = new (map(sizeof(Shared))) Shared();
  size_t bits = r.thorough ? 27 : 24;
  r.tab = static_cast<std::atomic<uint64_t> *>(map(sizeof(uint64_t) << bits));
  r.tabmask = (1ull << bits) - 1;
  std::vector<pid_t> pid(r.nworkers); std::vector<std::string> errf(r.nworkers);
  char tmpl[] = "/tmp/mcXXXXXX"; std::string dir = mkdtemp(tmpl);
  for (int w = 0; w < r.nworkers; ++w) {
    errf[w] = dir + "/err" + std::to_string(w);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      if (r.max_viol > 1 || r.replay >= 0) r.devlog = fdopen(dup(2), "w");
      int fd = open(errf[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 2); int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0);
      if (r.replay < 0 || !getenv("MC_NOISY")) { std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr); }
      std::cout.rdbuf(nullptr);
      rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      rlimit fs{1ull << 30, 1ull << 30}; setrlimit(RLIMIT_FSIZE, &fs);
      r.worker = w;
      try { explore(r); } catch (Stop &) {}
      r.end();
      r.sh->slot[w].done = 1;
      if (__gcov_dump) __gcov_dump();
      _exit(0);
    }
    pid[w] = p;
  }
  struct V { int w; std::string kind; };
  std::vector<V> crashes;
  std::vector<bool> alive(r.nworkers, true);
  std::vector<uint64_t> lt(r.nworkers, 0); std::vector<double> lastchg(r.nworkers, now());
  int left = r.nworkers;
  auto killall = [&] { r.sh->stop = 1; };
  while (left) {
    for (int w = 0; w < r.nworkers; ++w) {
      if (!alive[w]) continue;
      int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
      if (q == pid[w]) {
        alive[w] = false; --left;
        if (!r.sh->slot[w].done) {
          std::string k = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                                         : "process exited with status " + std::to_string(WEXITSTATUS(st));
          crashes.push_back({w, k}); killall();
        }
        continue;
      }
      uint64_t t = r.sh->slot[w].tick;
      if (t != lt[w] || !r.sh->slot[w].in_case) { lt[w] = t; lastchg[w] = now(); }
      bool hung = now() - lastchg[w] > hang, fat = rss_mb(pid[w]) > 6000;
      if (hung || fat) {
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
        alive[w] = false; --left;
        crashes.push_back({w, hung ? "no progress on this case for " + std::to_string(hang) + " s (hang)" : "memory use beyond 6 GB (runaway)"});
        killall();
      }
    }
    usleep(20000);
  }
  int nv = 0; std::string vtext;
  // smallest index first
  long best = -1; std::string bdesc, bmsg;
  for (int w = 0; w < r.nworkers; ++w) if (r.sh->slot[w].violated) {
    nv++;
    if (best < 0 || (long)r.sh->slot[w].vindex < best) {
      best = r.sh->slot[w].vindex; bmsg = r.sh->slot[w].msg; bdesc = r.sh->slot[w].desc;
      if (r.sh->slot[w].vindex != r.sh->slot[w].cur_index) bdesc = "(see --replay-index)";
    }
  }
  for (auto &c : crashes) {
    nv++;
    Slot &s = r.sh->slot[c.w];
    if (best < 0 || (long)s.cur_index.load() < best) {
      best = s.cur_index; bdesc = s.desc; bmsg = c.kind;
      std::ifstream is(errf[c.w]); std::stringstream ss; ss << is.rdbuf(); std::string e = ss.str();
      if (e.size() > 3000) e.resize(3000);
      if (!e.empty()) bmsg += "\n" + e;
    }
  }
  for (auto &f : errf) unlink(f.c_str());
  rmdir(dir.c_str());
  double dt = now() - t0;
  printf("%s: cases=%llu states=%llu transitions=%llu traces=%llu known=%llu wall=%.1fs\n", mc_property,
         (unsigned long long)r.sh->cases, (unsigned long long)r.sh->states, (unsigned long long)r.sh->transitions,
         (unsigned long long)r.sh->traces, (unsigned long long)r.sh->known, dt);
  for (int k = 0; k < 32; ++k) if (r.sh->counters[k]) printf("  counter[%d]=%llu\n", k, (unsigned long long)r.sh->counters[k]);
  if (!out.empty()) {
    std::ofstream os(out);
    os << "{\"cases\":" << r.sh->cases << ",\"states\":" << r.sh->states << ",\"states_overflow\":" << r.sh->states_full
       << ",\"transitions\":" << r.sh->transitions << ",\"traces\":" << r.sh->traces << ",\"known\":" << r.sh->known
       << ",\"wall\":" << dt << ",\"violations\":" << nv << ",\"counters\":[";
    for (int k = 0; k < 32; ++k) os << (k ? "," : "") << r.sh->counters[k];
    os << "],\"samples\":[";
    uint64_t n = std::min<uint64_t>(r.sh->nsamples, NSAMPLE);
    for (uint64_t k = 0; k < n; ++k) os << (k ? "," : "") << "\"" << jesc(r.sh->samples[k]) << "\"";
    os << "]";
    if (nv) os << ",\"vindex\":" << best << ",\"vdesc\":\"" << jesc(bdesc) << "\",\"vmsg\":\"" << jesc(bmsg) << "\"";
    os << "}\n";
  }
  if (nv) { printf("  violation at case #%ld: %s\n  %s\n", best, bdesc.c_str(), bmsg.c_str()); return 1; }
  return 0;
}
} // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::driver(argc, argv); }
#endif
#endif
