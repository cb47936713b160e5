// All model-checked workloads of one process run by several threads at once, each
// thread with buffers and a model of its own, beside readers of shared buffers and
// trees, buffers handed from thread to thread, field names, errors and log lines.
#include <deque>
#include <fml32.h>
#include <userlog.h>
#include <xatmi.h>
#include "vh.h"
using namespace vh;

static const char *const NAMES[] = {"VS1", "VS2", "VL1", "VL2", "VC1", "VC2", "VF1", "VF2",
                                    "VD1", "VD2", "VT1", "VT2", "VA1", "VA2", "VN1", "VN2"};
static const int NUMS[] = {4001, 4002, 4011, 4012, 4021, 4022, 4031, 4032, 4041, 4042, 4051, 4052, 4061, 4062, 4071, 4072};
static const int TYPES[] = {FLD_SHORT, FLD_SHORT, FLD_LONG, FLD_LONG, FLD_CHAR, FLD_CHAR, FLD_FLOAT, FLD_FLOAT,
                            FLD_DOUBLE, FLD_DOUBLE, FLD_STRING, FLD_STRING, FLD_CARRAY, FLD_CARRAY, FLD_FML32, FLD_FML32};

static void names(Rng &r) {
  for (int k = 0; k < 60; k++) {
    int i = r.u(16);
    FLDID32 want = Fmkfldid32(TYPES[i], NUMS[i]);
    if (r.p(50)) {
      FLDID32 got = Fldid32(const_cast<char *>(NAMES[i]));
      if (got != want) viol("names", fmt("Fldid32(%s) = %ld, not %ld; Ferror32 %d", NAMES[i], (long)got, (long)want, Ferror32));
    } else {
      char *p = Fname32(want);
      if (!p || strcmp(p, NAMES[i])) viol("names", fmt("Fname32(%ld) = %s, not %s", (long)want, p ? p : "NULL", NAMES[i]));
    }
    if (r.p(10)) {
      if (Fldid32(const_cast<char *>("NOSUCH")) != BADFLDID || Ferror32 != FBADNAME) viol("names", fmt("unknown name: Ferror32 %d", Ferror32));
    }
  }
  count("lookups", 60);
}

// Errors belong to the thread that met them
static void errors(Rng &r) {
  for (int k = 0; k < 40; k++) {
    int want, twant = 0;
    switch (r.u(5)) {
      case 0:
        Fldid32(const_cast<char *>("NOSUCH"));
        want = FBADNAME;
        break;
      case 1:
        Fused32(nullptr);
        want = FNOTFLD;
        break;
      case 2:
        Fname32(Fmkfldid32(FLD_SHORT, 31234));
        want = FBADFLD;
        break;
      case 3:
        Fboolco32(const_cast<char *>("1 +"));
        want = FSYNTAX;
        break;
      default:
        Fmkfldid32(99, 1);
        want = FTYPERR;
    }
    bool t = r.p(50);
    if (t) {
      if (r.p(50)) {
        if (tpalloc(const_cast<char *>("NOSUCH"), 0, 10)) viol("errors", "tpalloc of an unknown type");
        twant = TPENOENT;
      } else {
        if (tptypes(nullptr, nullptr, nullptr) != -1) viol("errors", "tptypes of NULL");
        twant = TPEINVAL;
      }
    }
    for (int y = r.u(4); y > 0; y--) std::this_thread::yield();
    if (Ferror32 != want) viol("errors", fmt("Ferror32 %d, not %d", Ferror32, want));
    if (t && tperrno != twant) viol("errors", fmt("tperrno %d, not %d", tperrno, twant));
    distinct("error", fmt("%d.%d", want, twant));
  }
  count("errors", 40);
}

static void logs(Rng &r) {
  for (int k = 0; k < 10; k++) userlog(const_cast<char *>("thread %ld line %d %s"), (long)r.u(1000), k, std::string(r.u(300), 'x').c_str());
  count("log_lines", 10);
}

// ---- buffers and trees read by all
struct Shared {
  FBFR32 *b = nullptr;
  char *tp = nullptr;
  std::vector<std::pair<std::pair<FLDID32, FLDOCC32>, std::string>> all;
  long used, vals;
  std::vector<std::pair<char *, std::pair<int, double>>> trees;
} sh;

static std::string val(FLDID32 id, const char *p, FLDLEN32 n) { return Fldtype32(id) == FLD_STRING ? std::string(p) : std::string(p, n); }

static void make_shared_(Rng &r) {
  sh = Shared();
  sh.tp = tpalloc(const_cast<char *>("FML32"), nullptr, 16384);
  if (!sh.tp) viol("shared", "tpalloc");
  sh.b = reinterpret_cast<FBFR32 *>(sh.tp);
  int n = 1 + r.u(60);
  for (int k = 0; k < n; k++) {
    int i = r.u(14);
    FLDID32 id = Fmkfldid32(TYPES[i], NUMS[i]);
    std::string s;
    long l = r.in(-1000, 1000);
    short h = l;
    char c = 'a' + r.u(26);
    float f = l / 4.0f;
    double d = l / 8.0;
    const char *p;
    switch (TYPES[i]) {
      case FLD_SHORT: p = (char *)&h; break;
      case FLD_LONG: p = (char *)&l; break;
      case FLD_CHAR: p = &c; break;
      case FLD_FLOAT: p = (char *)&f; break;
      case FLD_DOUBLE: p = (char *)&d; break;
      default: s = std::string(r.u(60), 'a' + r.u(26)); p = s.c_str();
    }
    if (Fadd32(sh.b, id, const_cast<char *>(p), s.size()) == -1) viol("shared", fmt("Fadd32 %d", Ferror32));
  }
  FLDID32 id = FIRSTFLDID;
  FLDOCC32 oc = 0;
  char buf[4096];
  FLDLEN32 len = sizeof buf;
  while (Fnext32(sh.b, &id, &oc, buf, &len) == 1) {
    sh.all.push_back({{id, oc}, val(id, buf, len)});
    len = sizeof buf;
  }
  sh.used = Fused32(sh.b);
  sh.vals = sh.all.size();
  static const char *const E[] = {"VS1 + VL1 * 2 > 10", "VT1 == 'aaa' || VL1[1] < 0", "VT1 %% 'a.*' && !VS2", "(VD1 + VF1) / 4 - VL2", "VT2 %% '[a-m]*'",
                                  "VC1 == 'c' ^ VL1 > 0", "VL1[?] > 900", "-VD2 * 3 + 1"};
  for (auto e : E) {
    char *t = Fboolco32(const_cast<char *>(e));
    if (!t) viol("shared", std::string("Fboolco32 ") + e);
    double v = Ffloatev32(sh.b, t);
    sh.trees.push_back({t, {Fboolev32(sh.b, t), v}});
  }
}
static void drop_shared() {
  for (auto &t : sh.trees) free(t.first);
  tpfree(sh.tp);
}

static void shared(Rng &r) {
  FLDID32 id;
  FLDOCC32 oc;
  char buf[4096];
  for (int k = 0; k < 25; k++) {
    FLDLEN32 len = sizeof buf;
    switch (r.u(7)) {
      case 0: {
        size_t n = 0;
        id = FIRSTFLDID;
        oc = 0;
        while (Fnext32(sh.b, &id, &oc, buf, &len) == 1) {
          if (n >= sh.all.size() || sh.all[n].first.first != id || sh.all[n].first.second != oc || sh.all[n].second != val(id, buf, len))
            viol("shared", fmt("Fnext32 at %zu", n));
          n++;
          len = sizeof buf;
        }
        if (n != sh.all.size()) viol("shared", fmt("Fnext32 gave %zu of %zu", n, sh.all.size()));
        break;
      }
      case 1: {
        auto &x = r.pick(sh.all);
        if (Fget32(sh.b, x.first.first, x.first.second, buf, &len) == -1 || val(x.first.first, buf, len) != x.second)
          viol("shared", "Fget32");
        break;
      }
      case 2: {
        auto &x = r.pick(sh.all);
        char *p = Ffind32(sh.b, x.first.first, x.first.second, &len);
        if (!p || val(x.first.first, p, len) != x.second) viol("shared", "Ffind32");
        break;
      }
      case 3: {
        auto &t = r.pick(sh.trees);
        int v = Fboolev32(sh.b, t.first);
        double d = Ffloatev32(sh.b, t.first);
        if (v != t.second.first || d != t.second.second) viol("shared", fmt("evaluated %d %g, alone %d %g", v, d, t.second.first, t.second.second));
        break;
      }
      case 4: {
        std::vector<char> m(Fsizeof32(sh.b));
        FBFR32 *c = reinterpret_cast<FBFR32 *>(m.data());
        if (Finit32(c, m.size()) == -1 || Fcpy32(c, sh.b) == -1 || Fused32(c) != sh.used) viol("shared", "Fcpy32");
        if (r.p(50) && Fconcat32(c, sh.b) == -1 && Ferror32 != FNOSPACE) viol("shared", "Fconcat32");
        break;
      }
      case 5: {
        char ty[8], st[16];
        if (tptypes(sh.tp, ty, st) < 16384 || strncmp(ty, "FML32", 8)) viol("shared", "tptypes");
        break;
      }
      default: {
        auto &x = r.pick(sh.all);
        char *p = CFfind32(sh.b, x.first.first, x.first.second, &len, FLD_STRING);
        if (!p) viol("shared", fmt("CFfind32 %d", Ferror32));
        if (Fused32(sh.b) != sh.used) viol("shared", "Fused32");
        std::string was = p;
        std::this_thread::yield();
        if (was != p) viol("shared", "converted value changed");
      }
    }
  }
  count("shared_reads", 25);
}

// ---- buffers handed on
static std::mutex hm;
static std::deque<std::pair<char *, unsigned>> handed;
static void handoff(Rng &r) {
  static const char *const types[] = {"STRING", "CARRAY", "FML32"};
  for (int k = 0; k < 30; k++) {
    if (r.p(50)) {
      int t = r.u(3);
      unsigned n = 1024 + r.u(4000), tag = r.u(100000);
      char *p = tpalloc(const_cast<char *>(types[t]), nullptr, n);
      if (!p) viol("handoff", fmt("tpalloc %d", tperrno));
      if (t == 2) {
        long l = tag;
        if (Fchg32(reinterpret_cast<FBFR32 *>(p), Fmkfldid32(FLD_LONG, 4011), 0, (char *)&l, 0) == -1) viol("handoff", "Fchg32");
      } else
        snprintf(p, n, "%u", tag);
      std::lock_guard<std::mutex> g(hm);
      handed.push_back({p, tag * 3 + t});
    } else {
      char *p;
      unsigned x;
      {
        std::lock_guard<std::mutex> g(hm);
        if (handed.empty()) continue;
        p = handed.front().first;
        x = handed.front().second;
        handed.pop_front();
      }
      char ty[9] = "", st[17] = "";
      long n = tptypes(p, ty, st);
      if (n < 1024 || strcmp(ty, types[x % 3])) viol("handoff", fmt("tptypes %ld %s", n, ty));
      if (r.p(50)) {
        p = tprealloc(p, 4096 + r.u(9000));
        if (!p) viol("handoff", "tprealloc");
      }
      unsigned tag;
      if (x % 3 == 2) {
        long l = -1;
        Fget32(reinterpret_cast<FBFR32 *>(p), Fmkfldid32(FLD_LONG, 4011), 0, (char *)&l, nullptr);
        tag = l;
      } else
        tag = atol(p);
      if (tag != x / 3) viol("handoff", fmt("content %u, not %u", tag, x / 3));
      count("handed_over");
      if (r.p(60))
        tpfree(p);
      else {
        std::lock_guard<std::mutex> g(hm);
        handed.push_back({p, x});
      }
    }
  }
}

static void thr(Rng &r) {
  auto m = all_modes();
  Fnmid_unload32();
  Fidnm_unload32();
  m.push_back({"names", names});
  m.push_back({"errors", errors});
  m.push_back({"logs", logs});
  m.push_back({"handoff", handoff});
  bool s = r.p(60);
  if (s) {
    make_shared_(r);
    for (int i = 0; i < 3; i++) m.push_back({"shared", shared});
    Fnmid_unload32();
    Fidnm_unload32();
  }
  // sometimes everybody does the same
  if (r.p(40)) {
    auto one = r.pick(m);
    m.assign(1, one);
    if (r.p(30)) m.push_back({"names", names});
  }
  int n = 2 + r.u(7);
  bool ok = parallel(r, n, 1 + r.u(4), m);
  for (auto &h : handed) tpfree(h.first);
  handed.clear();
  if (s) drop_shared();
  distinct("threads", fmt("%d of %zu", n, m.size()));
  count("teams");
  if (!ok) throw case_failed();
}

int main(int argc, char **argv) {
  alarm(0);
  return run(argc, argv, {{"thr", thr}});
}
