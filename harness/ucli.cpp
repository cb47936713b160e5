// Universal client: seeded histories of calls whose every outcome is known
// beforehand; reports what differs, and records what it sent and received.
#include <assert.h>
#include <math.h>
#include <tpadm.h>
#include <signal.h>
#include <sys/ipc.h>
#include <sys/msg.h>
#include <sys/wait.h>
#include <tx.h>
#include <userlog.h>
#include <atomic>
#include <mutex>
#include <thread>
#include "sysmsg.h"
#include "txwalk.h"
#include "vh.h"

// Harmless signals may come any time
#define tpcall sm::call
#define tpgetrply sm::getrply
#define usleep sm::nap

using vh::Rng;
using vh::fmt;

static void viol(const std::string &key, const std::string &detail) {
  std::string d = detail;
  for (auto &c : d)
    if (c == '\n') c = ' ';
  printf("@V %s\t%s\n", key.c_str(), d.c_str());
  fflush(stdout);
  sm::log("V %s %s", key.c_str(), d.c_str());
}

// Kept per thread: counting must not order the threads that are to be watched
static std::map<std::string, long> g_cnt;
static std::set<std::string> g_dist;
static std::mutex g_mx;
struct Tally {
  std::map<std::string, long> c;
  std::set<std::string> d;
  void flush() {
    std::lock_guard<std::mutex> l(g_mx);
    for (auto &x : c) g_cnt[x.first] += x.second;
    g_dist.insert(d.begin(), d.end());
    c.clear();
    d.clear();
  }
};
static thread_local Tally t_tally;
static void cnt(const std::string &n, long k = 1) { t_tally.c[n] += k; }
static void dist(const char *set, const std::string &v) { t_tally.d.insert(std::string(set) + " " + v); }

static uint64_t g_base;
static std::atomic<uint64_t> g_seq{0};
static uint64_t newid() { return g_base + g_seq.fetch_add(1, std::memory_order_relaxed) + 1; }

struct Call {
  uint64_t id;
  int cd = -1;
  int type = 0;
  size_t blen = 0;
  std::string svc, todo;
  int stages = 1;
  long delay = 0;
  // expected
  int rtype = 0;
  size_t rlen = 0;
  bool nulldata = false;  // reply without data
  int err = 0;            // 0 success
  long rcode = 0;
  bool rdata = true;
  int64_t sent = 0;
  bool cancelled = false;
  size_t weight = 0;
};

static char *g_snd[8];

static std::string tpe() { return fmt("%d (%s)", tperrno, tpstrerror(tperrno)); }

static std::string planof(const Call &c) {
  return fmt("id=%llu st=0 ty=%d bl=%zu do=", (unsigned long long)c.id, c.type, c.blen) + c.todo;
}

static thread_local char *t_snd;

static int do_acall(Call &c, long flags) {
  long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
  sm::log("B id=%llu svc=%s n=%d", (unsigned long long)c.id, c.svc.c_str(), c.stages);
  int cd = tpacall(const_cast<char *>(c.svc.c_str()), t_snd, l, flags);
  c.cd = cd;
  c.sent = sm::now_ms();
  int e = tperrno;
  sm::log("%s id=%llu cd=%d err=%d%s", cd == -1 ? "X" : "S", (unsigned long long)c.id, cd, cd == -1 ? e : 0,
          (flags & TPNOREPLY) ? " noreply" : "");
  return cd;
}

// Messages that need a file fail now and then
static bool nofile() {
  static const bool b = getenv("USYS_NOFILE") != nullptr && atoi(getenv("USYS_NOFILE")) > 0;
  return b;
}
static bool cannot_send(int e) {
  if (!nofile() || (e != TPESYSTEM && e != TPEOS)) return false;
  cnt("nofile_refused");
  return true;
}

// Compares what a call returned with what its service was told to return
static bool verify(const char *how, const Call &c, int rc, int err, long urc, char *buf, long len,
                   const std::string &before) {
  std::string ctx = fmt("%s id=%llu svc=%s do=%s type=%s len=%zu", how, (unsigned long long)c.id, c.svc.c_str(),
                        c.todo.c_str(), sm::tname(c.type), c.blen);
  sm::log("G id=%llu rc=%d err=%d", (unsigned long long)c.id, rc, err);
  if (nofile() && rc == -1 && err == TPESVCERR && c.err != TPESVCERR) {
    cnt("nofile_failed");
    return true;
  }
  if (rc == -1 && !strcmp(how, "tpcall") && cannot_send(err)) return true;
  if (c.err == 0 ? rc == -1 : rc != -1 || err != c.err) {
    viol(fmt("outcome-%d-for-%d", rc == -1 ? err : 0, c.err),
         ctx + fmt(": returned %d tperrno %d, expected tperrno %d", rc, err, c.err));
    return false;
  }
  if (c.err == 0 || c.err == TPESVCFAIL) {
    if (urc != c.rcode) {
      viol("tpurcode", ctx + fmt(": tpurcode %ld, expected %ld", urc, c.rcode));
      return false;
    }
  }
  if (!(c.err == 0 || c.err == TPESVCFAIL)) return true;
  if (c.nulldata) {
    if (len != 0) {
      viol("reply-without-data-has-length", ctx + fmt(": length %ld", len));
      return false;
    }
    return true;
  }
  int t;
  std::string p, b, why;
  if (!sm::get(buf, len, &t, &p, &b, &why)) {
    viol("reply-damaged", ctx + ": " + why);
    return false;
  }
  if (sm::val(p, "re") != std::to_string(c.id)) {
    viol("reply-of-another-request", ctx + ": got the reply to " + p);
    return false;
  }
  if (t != c.rtype) {
    viol("reply-type", ctx + fmt(": %s, expected %s", sm::tname(t), sm::tname(c.rtype)));
    return false;
  }
  if (b != sm::body(c.id, c.stages, c.rlen, t == sm::STRING)) {
    viol("reply-content", ctx + fmt(": %zu bytes differ from the %zu sent", b.size(), c.rlen));
    return false;
  }
  return true;
}

static size_t anysize(Rng &r, int big) {
  switch (r.u(10)) {
    case 0: return r.u(3);
    case 1:
    case 2: return r.u(200);
    case 3: return r.u(3000);
    case 4:
    case 5: return 3700 + r.u(600);  // around the in-queue limit
    case 6: return r.u(9000);
    case 7: return big ? r.u(100000) : r.u(5000);
    case 8: return big && r.p(10) ? r.u(1000000) : r.u(1000);
    default: return r.u(60);
  }
}

static std::vector<std::string> g_svcs;   // that any request may go to
static std::vector<std::vector<std::string>> g_fwd;  // that stage n may forward to
static std::vector<std::string> g_nest;              // that services may call
static bool g_norcode;

static Call mkcall(Rng &r, int outcomes, int maxstages, int maxdelay) {
  Call c;
  c.id = newid();
  c.type = r.u(3);
  c.blen = anysize(r, 1);
  c.svc = r.pick(g_svcs);
  c.stages = 1;
  int t = c.type;
  size_t l = c.blen;
  std::string todo;
  while (c.stages < maxstages && c.stages <= int(g_fwd.size()) && r.p(30)) {
    std::string st;
    if (maxdelay && r.p(20)) st += fmt("s%ld,", r.in(0, maxdelay));
    bool inplace = r.p(20);
    if (inplace) {
      st += "t=,";
    } else if (r.p(40)) {
      t = r.u(3);
      st += fmt("t%d,", t);
    }
    if (r.p(40)) {
      l = anysize(r, 0);
      st += fmt("l%zu,", l);
    }
    st += "f" + r.pick(g_fwd[c.stages - 1]);
    todo += st + "/";
    c.stages++;
  }
  std::string st;
  if (maxdelay && r.p(50)) {
    c.delay = r.in(0, maxdelay);
    st += fmt("s%ld,", c.delay);
  }
  if (r.p(15)) {
    st += "t=,";
  } else if (r.p(40)) {
    t = r.u(3);
    st += fmt("t%d,", t);
  } else if (r.p(10)) {
    st += "t-,";
    c.nulldata = true;
  }
  if (r.p(50)) {
    l = anysize(r, 0);
    st += fmt("l%zu,", l);
  }
  if (outcomes == 0 && !g_nest.empty() && r.p(8)) st += "n" + r.pick(g_nest) + ",";
  c.rtype = t;
  c.rlen = l;
  if (r.p(60)) {
    static const long rcs[] = {0, 1, -1, 2147483647L, -2147483648L, 42, 9223372036854775807L};
    c.rcode = r.p(50) ? rcs[r.u(7)] : long(r.next());
    if (g_norcode) c.rcode = 0;
    st += fmt("c%ld,", c.rcode);
  }
  if (outcomes) {
    int o = r.u(10);
    if (o < 4) {
      st += "rS";
    } else if (o < 7) {
      st += "rF";
      c.err = TPESVCFAIL;
    } else if (o == 7) {
      st += "rV";
      c.err = TPESVCERR;
    } else if (o == 8) {
      st += "rI";
      c.err = TPESVCERR;
    } else {
      st += "rN";
      c.err = TPESVCERR;
    }
  } else {
    st += "rS";
  }
  c.todo = todo + st;
  size_t m = c.rlen + 200;
  c.weight = c.nulldata || m > 4000 ? 120 : c.rtype == sm::FML32 ? m + 200 : m + 100;
  return c;
}

static char *mkrecv(Rng &r) {
  int t = r.u(3);
  char *p = tpalloc(const_cast<char *>(sm::tname(t)), nullptr, r.p(50) ? 0 : r.u(6000));
  if (p == nullptr) {
    fprintf(stderr, "tpalloc\n");
    exit(96);
  }
  return p;
}

// Requests of every kind, some outstanding, replies fetched in any order
static void calls(Rng &r, long n, int outcomes, int maxstages, int maxdelay) {
  std::map<int, Call> out;
  size_t weight = 0;
  char *rb = mkrecv(r);
  for (long i = 0; i < n || !out.empty(); i++) {
    if (r.p(20)) {
      tpfree(rb);
      rb = mkrecv(r);
    }
    int k = r.u(100);
    if (i >= n) k = 90;
    if (k < 40) {
      Call c = mkcall(r, outcomes, maxstages, maxdelay);
      if (weight + c.weight > 9000) continue;
      long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
      sm::log("B id=%llu svc=%s n=%d", (unsigned long long)c.id, c.svc.c_str(), c.stages);
      long ol = r.p(50) ? 0 : 12345;
      bool same = r.p(20);  // request buffer receives the reply
      long flags = 0;
      if (r.p(15)) flags |= TPNOTIME;
      int rc, e;
      long urc;
      if (same) {
        rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &t_snd, &ol, flags);
      } else {
        rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, flags);
      }
      e = tperrno;
      urc = tpurcode;
      sm::log("%s id=%llu err=%d", rc == -1 && !(e == TPESVCFAIL || e == TPESVCERR) ? "X" : "S",
              (unsigned long long)c.id, rc == -1 ? e : 0);
      verify("tpcall", c, rc, e, urc, same ? t_snd : rb, ol, "");
      cnt("tpcalls");
      dist("call", fmt("%s>%s %zu n%d e%d", sm::tname(c.type), c.nulldata ? "-" : sm::tname(c.rtype),
                       c.blen / 1000, c.stages, c.err));
    } else if (k < 68) {
      Call c = mkcall(r, outcomes, maxstages, maxdelay);
      if (weight + c.weight > 9000 || out.size() >= 30) continue;
      if (do_acall(c, 0) == -1) {
        if (cannot_send(tperrno)) continue;
        viol(fmt("tpacall-refused-%d", tperrno), "tpacall to " + c.svc + ": " + tpe());
        continue;
      }
      if (c.cd <= 0 || out.count(c.cd)) {
        viol("descriptor-not-unique", fmt("tpacall returned %d, %zu outstanding", c.cd, out.size()));
        continue;
      }
      weight += c.weight;
      out[c.cd] = c;
      cnt("tpacalls");
    } else if (k < 74) {
      Call c = mkcall(r, outcomes, maxstages, maxdelay);
      int cd = do_acall(c, TPNOREPLY);
      if (cd != 0 && !(cd == -1 && cannot_send(tperrno))) viol("noreply-descriptor", fmt("tpacall(TPNOREPLY) returned %d %s", cd, cd == -1 ? tpe().c_str() : ""));
      cnt("noreply");
    } else if (k < 76) {
      long ol = 99;
      int rc = tpcall(const_cast<char *>(r.pick(g_svcs).c_str()), nullptr, 0, &rb, &ol, 0);
      if (rc == -1 || tpurcode != 77 || ol != 0)
        viol("call-without-data", fmt("tpcall with no data returned %d %s rcode %ld length %ld", rc, rc == -1 ? tpe().c_str() : "", tpurcode, ol));
      cnt("nodata");
    } else if (!out.empty()) {
      long ol = r.p(50) ? 0 : 777;
      bool any = r.p(35);
      int cd = -5;
      if (!any) {
        auto it = out.begin();
        std::advance(it, r.u(out.size()));
        cd = it->first;
      }
      int asked = cd;
      int rc = tpgetrply(&cd, &rb, &ol, any ? TPGETANY : 0);
      int e = tperrno;
      long urc = tpurcode;
      auto it = out.find(cd);
      if (it == out.end() || (!any && cd != asked)) {
        viol("reply-for-unknown-descriptor", fmt("tpgetrply(%d%s) returned %d, descriptor %d, tperrno %d", asked, any ? ",TPGETANY" : "", rc, cd, e));
        break;
      }
      verify(any ? "tpgetrply(TPGETANY)" : "tpgetrply", it->second, rc, e, urc, rb, ol, "");
      dist("call", fmt("a%s>%s %zu n%d e%d", sm::tname(it->second.type), it->second.nulldata ? "-" : sm::tname(it->second.rtype),
                       it->second.blen / 1000, it->second.stages, it->second.err));
      dist("order", fmt("%zu of %zu", std::distance(out.begin(), it), out.size()));
      weight -= it->second.weight;
      out.erase(it);
      cnt("replies");
      // now unknown
      if (r.p(20)) {
        int cd2 = cd;
        rc = tpgetrply(&cd2, &rb, &ol, 0);
        if (rc != -1 || tperrno != TPEBADDESC)
          viol("finished-descriptor", fmt("tpgetrply of a finished descriptor returned %d %s", rc, tpe().c_str()));
        rc = tpcancel(cd);
        if (rc != -1 || tperrno != TPEBADDESC)
          viol("finished-descriptor-cancel", fmt("tpcancel of a finished descriptor returned %d %s", rc, tpe().c_str()));
      }
    }
  }
  // Nothing may be left for this client
  int cd = 0;
  long ol = 0;
  int rc = tpgetrply(&cd, &rb, &ol, TPGETANY | TPNOBLOCK);
  if (rc != -1 || tperrno != TPEBLOCK)
    viol("reply-nobody-asked-for", fmt("tpgetrply(TPGETANY|TPNOBLOCK) returned %d %s descriptor %d", rc, tpe().c_str(), cd));
  tpfree(rb);
}

#include "ucli_modes.h"

int main(int argc, char **argv) {
  if (argc < 5) return 96;
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  g_base = strtoull(argv[3], nullptr, 10) * 1000000ull;
  long n = atol(argv[4]);
  g_svcs = sm::split(getenv("UCLI_SVCS") ? getenv("UCLI_SVCS") : "S1", ',');
  if (getenv("UCLI_FWD") && *getenv("UCLI_FWD"))
    for (auto &l : sm::split(getenv("UCLI_FWD"), ';')) g_fwd.push_back(sm::split(l, ','));
  if (getenv("UCLI_NEST") && *getenv("UCLI_NEST")) g_nest = sm::split(getenv("UCLI_NEST"), ',');
  int maxdelay = getenv("UCLI_DELAY") ? atoi(getenv("UCLI_DELAY")) : 0;
  int stages = getenv("UCLI_STAGES") ? atoi(getenv("UCLI_STAGES")) : 3;
  Rng r(seed);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  sm::log("C pid=%d mode=%s", getpid(), mode.c_str());
  sm::sig_start();
  if (mode == "calls") {
    calls(r, n, 0, stages, maxdelay);
  } else if (mode == "outcome") {
    calls(r, n, 1, stages, maxdelay);
  } else if (!more_modes(mode, r, n, argc - 5, argv + 5)) {
    fprintf(stderr, "mode %s\n", mode.c_str());
    return 96;
  }
  if (mode != "noterm") tpterm();
  t_tally.flush();
  for (auto &d : g_dist) printf("@D %s\n", d.c_str());
  for (auto &c : g_cnt) printf("@C %s %ld\n", c.first.c_str(), c.second);
  printf("@DONE\n");
  fflush(stdout);
  return 0;
}
