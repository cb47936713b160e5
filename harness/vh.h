// Case driver shared by the harnesses: deterministic per-case random numbers,
// a mapped progress word (so that the parent knows which case killed us), a cpu
// budget per case, and the report lines the parent collects.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // 0..n-1
  uint64_t u(uint64_t n) { return n ? next() % n : 0; }
  long in(long lo, long hi) { return lo + (long)u((uint64_t)(hi - lo + 1)); }
  bool p(int percent) { return u(100) < (uint64_t)percent; }
  double d() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[u(v.size())];
  }
};

inline const char *&cur_op() {
  static thread_local const char *op = "";
  return op;
}
inline long &cur_case() {
  static thread_local long c = -1;
  return c;
}
inline std::map<std::string, long> &counters() {
  static thread_local std::map<std::string, long> m;
  return m;
}
inline std::map<std::string, std::set<std::string>> &distincts() {
  static thread_local std::map<std::string, std::set<std::string>> m;
  return m;
}
inline std::vector<std::string> &oplog() {
  static thread_local std::vector<std::string> v;
  return v;
}
inline std::vector<std::string> &samples() {
  static thread_local std::vector<std::string> v;
  return v;
}
struct case_failed {};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string esc(const std::string &s, size_t max = 200) {
  std::string r;
  for (unsigned char c : s) {
    if (r.size() > max) {
      r += "...";
      break;
    }
    if (c >= 32 && c < 127 && c != '\\')
      r += (char)c;
    else
      r += fmt("\\x%02x", c);
  }
  return r;
}
inline void count(const std::string &n, long k = 1) { counters()[n] += k; }
inline void distinct(const std::string &set, const std::string &item) {
  auto &s = distincts()[set];
  if (s.size() < 20000) s.insert(item);
}
inline void sample(const std::string &s) {
  if (samples().size() < 3) samples().push_back(s);
}
inline void log(const std::string &s) {
  if (oplog().size() < 400) oplog().push_back(s);
}
// Records a violation and ends the case.
inline void viol_soft(const std::string &key, const std::string &detail) {
  std::string l;
  size_t n = oplog().size(), from = n > 40 ? n - 40 : 0;
  for (size_t i = from; i < n; i++) l += " | " + oplog()[i];
  std::string flat = detail + "  ops:" + l;
  for (auto &c : flat)
    if (c == '\n') c = ' ';
  printf("@V %s\tcase=%ld %s\n", key.c_str(), cur_case(), flat.substr(0, 6000).c_str());
  fflush(stdout);
}
[[noreturn]] inline void viol(const std::string &key, const std::string &detail) {
  viol_soft(key, detail);
  throw case_failed();
}

inline void on_budget(int) {
  char b[256];
  int n = snprintf(b, sizeof b, "\n@OP %s\n", cur_op());
  (void)!write(1, b, n);
  _exit(97);
}

using mode_fn = std::function<void(Rng &)>;

inline void flush_counts() {
  for (auto &c : counters()) printf("@C %s %ld\n", c.first.c_str(), c.second);
  for (auto &d : distincts())
    for (auto &i : d.second) printf("@D %s %s\n", d.first.c_str(), i.c_str());
  for (auto &s : samples()) printf("@S %s\n", s.c_str());
  counters().clear();
  distincts().clear();
  fflush(stdout);
}

// Runs several modes at the same time, each thread with its own random numbers,
// model, operations log and counters.  False if one of them failed its oracle.
inline bool parallel(Rng &r, int n, int rounds, const std::vector<std::pair<std::string, mode_fn>> &modes) {
  struct T {
    std::map<std::string, long> c;
    std::map<std::string, std::set<std::string>> d;
    std::vector<std::string> s;
    uint64_t seed;
  };
  std::vector<T> ts(n);
  std::vector<std::thread> th;
  std::atomic<int> ready{0}, failed{0};
  long cc = cur_case();
  for (int i = 0; i < n; i++) {
    ts[i].seed = r.next();
    th.emplace_back([&, i] {
      cur_case() = cc;
      Rng q(ts[i].seed);
      ready.fetch_add(1);
      while (ready.load() < n) {
      }
      for (int k = 0; k < rounds && !failed.load(std::memory_order_relaxed); k++) {
        auto &m = modes[q.u(modes.size())];
        oplog().clear();
        log(m.first);
        try {
          m.second(q);
          count("thread_" + m.first);
        } catch (case_failed &) {
          failed.store(1);
        }
      }
      ts[i].c.swap(counters());
      ts[i].d.swap(distincts());
      ts[i].s.swap(samples());
    });
  }
  for (auto &t : th) t.join();
  for (auto &t : ts) {
    for (auto &c : t.c) count(c.first, c.second);
    for (auto &d : t.d)
      for (auto &i : d.second) distinct(d.first, i);
    for (auto &x : t.s) sample(x);
  }
  return !failed;
}

// Modes of all harnesses linked into one program
inline std::vector<std::pair<std::string, mode_fn>> &all_modes() {
  static std::vector<std::pair<std::string, mode_fn>> v;
  return v;
}
struct add_modes {
  add_modes(std::initializer_list<std::pair<std::string, mode_fn>> l) {
    for (auto &x : l) all_modes().push_back(x);
  }
};
inline int run(int argc, char **argv, const std::map<std::string, mode_fn> &modes);
#ifdef VH_THR
#define VH_MAIN(...) static vh::add_modes vh_modes_ __VA_ARGS__;
#else
#define VH_MAIN(...) \
  int main(int argc, char **argv) { return vh::run(argc, argv, __VA_ARGS__); }
#endif

inline int run(int argc, char **argv, const std::map<std::string, mode_fn> &modes) {
  if (argc < 7 || !modes.count(argv[1])) {
    fprintf(stderr, "usage: mode seed lo hi progress cpu\n");
    return 96;
  }
  auto fn = modes.at(argv[1]);
  uint64_t seed = strtoull(argv[2], 0, 10);
  long lo = atol(argv[3]), hi = atol(argv[4]);
  int cpu = atoi(argv[6]);
  int fd = open(argv[5], O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, 64) != 0) return 96;
  char *prog = (char *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  signal(SIGPROF, on_budget);
  uint64_t mh = 1469598103934665603ull;
  for (const char *p = argv[1]; *p; p++) mh = (mh ^ (unsigned char)*p) * 1099511628211ull;
  int failed = 0;
  for (long c = lo; c < hi; c++) {
    snprintf(prog, 64, "%ld", c);
    cur_case() = c;
    cur_op() = "";
    oplog().clear();
    struct itimerval tv = {};
    tv.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Rng r(mh ^ (seed * 0x100000001b3ull) ^ ((uint64_t)c * 0x9e3779b97f4a7c15ull));
    r.next();
    try {
      fn(r);
    } catch (case_failed &) {
      if (++failed >= 8) break;
    }
    count("evaluations");
  }
  flush_counts();
  return 0;
}
}  // namespace vh
