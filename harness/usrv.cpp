// Universal server: every service does what the plan in the request says and
// records what it saw.  The name the server is started with selects the
// services (USYS_TAB="name=SVC,SVC;name=SVC") and, with a leading 'm', the
// threaded dispatcher.
#include <signal.h>
#include <tx.h>
#include <userlog.h>
#include <xa.h>
#include "sysmsg.h"
#include "txwalk.h"

// Harmless signals may come any time
#define tpcall sm::call
#define tpgetrply sm::getrply

extern "C" {
int _tmrunserver(int);
extern struct xa_switch_t tmnull_switch;
extern int _tmbuilt_with_thread_option;
#ifdef USYS_XA
extern struct xa_switch_t usys_switch;
#endif
}
#ifdef USYS_XA
#include "xalog.h"
#else
// The empty resource manager, but its next xa_open or xa_close can be made to fail
static thread_local int t_fail = XA_OK;
static void xalog_fail(int rc) { t_fail = rc; }
static bool xalog_failed() {
  bool f = t_fail == XA_OK;
  t_fail = XA_OK;
  return f;
}
static int null_open(char *info, int rmid, long flags) {
  int f = t_fail;
  t_fail = XA_OK;
  return f != XA_OK ? f : tmnull_switch.xa_open_entry(info, rmid, flags);
}
static int null_close(char *info, int rmid, long flags) {
  int f = t_fail;
  t_fail = XA_OK;
  return f != XA_OK ? f : tmnull_switch.xa_close_entry(info, rmid, flags);
}
static xa_switch_t null_switch;
#endif

static int g_srvid = -1, g_grp = -1;
static char g_name[64];

// Is this thread associated with the branch it has to be
static void rm_check(const char *when, uint64_t id, const std::string &want) {
#ifdef USYS_XA
  if (g_name[0] == 'p') return;
  std::string cur = xalog_current(g_grp);
  if (cur != want)
    sm::log("V key=work-in-%s-transaction id=%llu %s: thread works in '%s', not in '%s'", cur.empty() ? "no" : want.empty() ? "a" : "another",
            (unsigned long long)id, when, cur.c_str(), want.c_str());
#endif
}

static std::string tx_current() {
  TXINFO ti;
  memset(&ti, 0, sizeof ti);
  return tx_info(&ti) == 1 ? TxWalk::hex(ti.xid) : "";
}

static void U(TPSVCINFO *);
static void U2(TPSVCINFO *s) { U(s); }

// The model of this thread's transaction state goes on from request to request
static thread_local TxWalk t_walk;

static std::string walk(const std::string &arg, TPSVCINFO *si, uint64_t id, const std::string &callers) {
  TxWalk &w = t_walk;
  auto a = sm::split(arg, '.');
  vh::Rng r(strtoull(a[0].c_str(), nullptr, 10));
  long n = atol(a[1].c_str());
  bool finish = a[2] == "1";
  w.server = true;
  w.crowded = a.size() > 3 && a[3] == "1";
  w.viol = [id](const std::string &k, const std::string &d) {
    std::string e = d;
    for (auto &c : e)
      if (c == '\n') c = ' ';
    sm::log("V key=%s id=%llu %s", k.c_str(), (unsigned long long)id, e.c_str());
  };
  w.note = [](const char *what, const std::string &t) {
    if (*what == 'L') sm::log("%s", t.c_str());
  };
  w.rmfail = xalog_fail;
  w.rmfailed = xalog_failed;
  static thread_local char *nb;
  static thread_local uint64_t sub;
  w.call = [&](int kind, bool notran, bool *) -> int {
    kind = kind == 1;
    uint64_t nid = id * 1000 + 100 + (++sub % 800);
    std::string np = "id=" + std::to_string(nid) + " st=0 ty=1 bl=20 do=" + (kind ? "rF" : "rS");
    long l = sm::put(&nb, 1, np, sm::body(nid, 0, 20, true));
    long ol = 0;
    int rc = tpcall(const_cast<char *>("LEAF"), nb, l, &nb, &ol, notran ? TPNOTRAN : 0), e = tperrno;
    if ((rc == -1 ? e : 0) != (kind ? TPESVCFAIL : 0))
      w.viol("call-in-walk", vh::fmt("call %d of a service in a walk gives %d", kind, rc == -1 ? e : 0));
    return rc != -1;
  };
  bool tran = si->flags & TPTRAN;
  if (w.state != TxWalk::s1 && w.state != TxWalk::s2) w.bad("state-left", "service starts in another state");
  if (tran) {
    w.state = w.state == TxWalk::s1 ? TxWalk::s3 : TxWalk::s4;
    TXINFO ti;
    memset(&ti, 0, sizeof ti);
    int rc = tx_info(&ti);
    if (rc != 1) w.bad("tx_info-in-service", vh::fmt("tx_info = %d in a service called in a transaction", rc));
    w.xid = TxWalk::hex(ti.xid);
    if (w.xid != callers) w.bad("transaction-of-caller", "service works in " + w.xid + ", its caller in " + callers);
    w.joined = true;
    w.rb = w.maybe = false;
  }
  w.look();
  long before = w.steps;
  w.walk(r, n);
  w.settle(r, finish);
  bool open = w.in() && !w.joined;
  bool rb = w.joined && w.rb;
  // what is left after the return
  if (open) w.control = TX_UNCHAINED, w.state = TxWalk::s1;
  else if (w.in()) w.state = w.state == TxWalk::s3 ? TxWalk::s1 : TxWalk::s2;
  w.xid = "";
  w.joined = w.rb = w.maybe = false;
  w.gone.clear();
  w.has_pending = false;
  return vh::fmt(" w=%ld rb=%d open=%d", w.steps - before, int(rb), int(open));
}

// What U() does after everything with a destructor is gone (tpreturn jumps)
struct Action {
  enum { ret, fwd, none } what;
  char svc[64];
  char *out;
  long len, rcode, flags;
  int rval;
};

static void run(TPSVCINFO *si, Action *act) {
  static thread_local char *nbuf;
  static thread_local int sub_n;
  std::string plan, b, why;
  int t = 0;
  bool ok = sm::get(si->data, si->len, &t, &plan, &b, &why);
  uint64_t id = strtoull(sm::val(plan, "id").c_str(), nullptr, 10);
  int stage = atoi(sm::val(plan, "st").c_str());
  size_t blen = strtoull(sm::val(plan, "bl").c_str(), nullptr, 10);
  if (ok && t != sm::NODATA) {
    if (std::to_string(t) != sm::val(plan, "ty")) {
      ok = false;
      why = "sent as type " + sm::val(plan, "ty");
    } else if (b != sm::body(id, 0, blen, t == sm::STRING)) {
      ok = false;
      why = "body of " + std::to_string(b.size()) + " differs from the one sent of " + std::to_string(blen);
    }
  }
  bool txcheck = plan.find(" x=") != std::string::npos;
  std::string tx = sm::val(plan, "x");
  if (txcheck) {
    if (bool(si->flags & TPTRAN) == tx.empty())
      sm::log("V key=TPTRAN id=%llu service called %s transaction has flags %ld", (unsigned long long)id, tx.empty() ? "outside of a" : "in a", si->flags);
    rm_check("start of service", id, tx);
    if (tx_current() != tx) sm::log("V key=transaction-of-caller id=%llu service works in '%s', its caller in '%s'", (unsigned long long)id, tx_current().c_str(), tx.c_str());
  }
  sm::log("E id=%llu st=%d svc=%s srv=%d.%d pid=%d tid=%ld ty=%s tran=%d nr=%d x=%s %s", (unsigned long long)id, stage,
          si->name, g_grp, g_srvid, getpid(), sm::tid(), sm::tname(t), (si->flags & TPTRAN) ? 1 : 0, (si->flags & TPNOREPLY) ? 1 : 0, tx.c_str(),
          ok ? "ok" : why.c_str());
  if (t == sm::NODATA) {
    *act = {Action::ret, "", nullptr, 0, 77, 0, TPSUCCESS};
    return;
  }
  auto stages = sm::split(sm::val(plan, "do"), '/');
  std::string todo = stage < int(stages.size()) ? stages[stage] : "";
  std::string notes;
  int rval = TPSUCCESS;
  long rcode = 0, rflags = 0;
  int rtype = t;
  bool bad = false;
  bool inplace = false, none = false, nullreply = false;
  size_t rlen = blen;
  std::string fwd;
  for (auto &op : sm::split(todo, ',')) {
    if (op.empty()) continue;
    std::string a = op.substr(1);
    switch (op[0]) {
      case 's': {
        sm::nap(atol(a.c_str()) * 1000);
        break;
      }
      case 'r':
        if (a == "S") rval = TPSUCCESS;
        if (a == "F") rval = TPFAIL;
        if (a == "X") {
          rval = TPEXIT;
          sm::log("Y id=%llu pid=%d", (unsigned long long)id, getpid());
        }
        if (a == "V") rval = 12345;
        if (a == "I") rflags = TPNOBLOCK;
        if (a == "N") none = true;
        if (a == "B") bad = true;
        break;
      case 'c':
        rcode = atol(a.c_str());
        break;
      case 't':
        if (a == "=") inplace = true;
        else if (a == "-") nullreply = true;
        else rtype = atoi(a.c_str());
        break;
      case 'l':
        rlen = strtoull(a.c_str(), nullptr, 10);
        break;
      case 'f':
        fwd = a;
        break;
      case 'B': {  // transaction of the service's own, ended by it
        auto l = sm::split(a, '+');
        int rc = tx_begin();
        if (rc != TX_OK) {
          notes += " B=" + std::to_string(rc);
          break;
        }
        std::string x = tx_current();
        sm::log("N xid=%s pid=%d", x.c_str(), getpid());
        rm_check("own transaction", id, x);
        int failed = 0;
        for (size_t i = 1; i < l.size(); i++) {
          uint64_t nid = id * 1000 + 600 + i;
          std::string np = "id=" + std::to_string(nid) + " st=0 ty=1 bl=9 x=" + x + " do=rS";
          long ll = sm::put(&nbuf, 1, np, sm::body(nid, 0, 9, true));
          long ol = 0;
          sm::log("B id=%llu svc=%s n=1", (unsigned long long)nid, l[i].c_str());
          rc = tpcall(const_cast<char *>(l[i].c_str()), nbuf, ll, &nbuf, &ol, 0);
          sm::log("%s id=%llu err=%d", rc == 0 ? "O" : "X", (unsigned long long)nid, rc == 0 ? 0 : tperrno);
          failed += rc != 0 && tperrno != TPENOENT;  // nothing was sent
        }
        TXINFO ti;
        memset(&ti, 0, sizeof ti);
        tx_info(&ti);
        bool commit = l[0] == "c";
        rc = commit ? tx_commit() : tx_rollback();
        sm::log("T xid=%s op=%s rc=%d st=%ld failed=%d open=0 doomed=0 maybe=0 pid=%d", x.c_str(), commit ? "commit" : "rollback", rc, ti.transaction_state,
                failed, getpid());
        notes += " B=" + std::to_string(rc);
        rm_check("after own transaction", id, "");
        break;
      }
      case 'q':    // nested call outside the transaction
      case 'm':    // nested call that fails
      case 'n': {  // nested call, in the service's own thread
        uint64_t nid = id * 1000 + 500 + stage * 10 + (++sub_n % 10);
        int nt = nid % 3;
        std::string nx = txcheck ? " x=" + (op[0] == 'q' ? "" : tx) : "";
        std::string np = "id=" + std::to_string(nid) + " st=0 ty=" + std::to_string(nt) + " bl=" +
                         std::to_string(nid % 3000) + nx + " do=" + (op[0] == 'm' ? "rF" : "rS");
        long l = sm::put(&nbuf, nt, np, sm::body(nid, 0, nid % 3000, nt == sm::STRING));
        long ol = 0;
        sm::log("B id=%llu svc=%s n=1", (unsigned long long)nid, a.c_str());
        int rc = tpcall(const_cast<char *>(a.c_str()), nbuf, l, &nbuf, &ol, op[0] == 'q' ? TPNOTRAN : 0);
        sm::log("%s id=%llu err=%d", rc == 0 ? "O" : "X", (unsigned long long)nid, rc == 0 ? 0 : tperrno);
        if (rc == 0) {
          int rt;
          std::string rp, rb, rw;
          bool rok = sm::get(nbuf, ol, &rt, &rp, &rb, &rw) && sm::val(rp, "re") == std::to_string(nid);
          notes += " n=" + std::string(rok ? "ok" : "bad");
        } else {
          notes += " n=" + std::to_string(tperrno);
        }
        if (txcheck) {
          TXINFO ti;
          memset(&ti, 0, sizeof ti);
          tx_info(&ti);
          // work can go on unless the resource manager refused that
          if (ti.transaction_state == TX_ACTIVE) rm_check("after a call", id, tx);
        }
        break;
      }
      case 'o': {  // request whose reply the service never asks for
        uint64_t nid = id * 1000 + 700 + stage;
        std::string np = "id=" + std::to_string(nid) + " st=0 ty=1 bl=9 do=l7,rS";
        long l = sm::put(&nbuf, 1, np, sm::body(nid, 0, 9, 1 == sm::STRING));
        sm::log("B id=%llu svc=%s n=1", (unsigned long long)nid, a.c_str());
        int cd = tpacall(const_cast<char *>(a.c_str()), nbuf, l, 0);
        sm::log("%s id=%llu cd=%d err=%d", cd == -1 ? "X" : "S", (unsigned long long)nid, cd, cd == -1 ? tperrno : 0);
        notes += " o=" + std::to_string(cd == -1 ? -tperrno : cd > 0 ? 1 : 0);
        break;
      }
      case 'j': {  // is anything outstanding
        int cd = 0;
        long ol = 0;
        int rc = tpgetrply(&cd, &nbuf, &ol, TPGETANY | TPNOBLOCK);
        notes += " j=" + std::to_string(rc == -1 ? tperrno : 0);
        break;
      }
      case 'a':
        notes += " a=" + std::to_string(tpadvertise(const_cast<char *>(a.c_str()), U) == -1 ? tperrno : 0);
        break;
      case 'A':
        notes += " A=" + std::to_string(tpadvertise(const_cast<char *>(a.c_str()), U2) == -1 ? tperrno : 0);
        break;
      case 'u':
        notes += " u=" + std::to_string(tpunadvertise(const_cast<char *>(a.c_str())) == -1 ? tperrno : 0);
        break;
      case 'b': {  // transaction of the service's own, left open
        int rc = tx_begin();
        notes += " b=" + std::to_string(rc);
        break;
      }
      case 'w':
        notes += walk(a, si, id, sm::val(plan, "x"));
        break;
      case 'g': {
        TXINFO ti;
        memset(&ti, 0, sizeof ti);
        int rc = tx_info(&ti);
        notes += " g=" + std::to_string(rc);
        if (rc == 1) {
          std::string x;
          char h[4];
          for (int i = 0; i < ti.xid.gtrid_length; i++) {
            snprintf(h, sizeof h, "%02x", (unsigned char)ti.xid.data[i]);
            x += h;
          }
          notes += " x=" + x;
        }
        break;
      }
      case 'k':
        sm::log("K id=%llu pid=%d", (unsigned long long)id, getpid());
        kill(getpid(), SIGKILL);
        break;
    }
  }
  if (!fwd.empty()) {
    std::string np = "id=" + std::to_string(id) + " st=" + std::to_string(stage + 1) + " ty=" + std::to_string(rtype) +
                     " bl=" + std::to_string(rlen) + (txcheck ? " x=" + tx : "") + " do=" + sm::val(plan, "do");
    char *out = inplace ? si->data : nullptr;
    long l;
    if (inplace) {
      l = sm::put(&si->data, t, "id=" + std::to_string(id) + " st=" + std::to_string(stage + 1) + " ty=" +
                  std::to_string(t) + " bl=" + std::to_string(rlen) + (txcheck ? " x=" + tx : "") + " do=" + sm::val(plan, "do"),
                  sm::body(id, 0, rlen, t == sm::STRING));
      out = si->data;
    } else {
      l = sm::put(&out, rtype, np, sm::body(id, 0, rlen, rtype == sm::STRING));
    }
    sm::log("W id=%llu st=%d to=%s", (unsigned long long)id, stage, fwd.c_str());
    act->what = Action::fwd;
    snprintf(act->svc, sizeof act->svc, "%s", fwd.c_str());
    act->out = out;
    act->len = l;
    return;
  }
  sm::log("R id=%llu st=%d%s", (unsigned long long)id, stage, notes.c_str());
  if (none) {
    act->what = Action::none;
    return;
  }
  char *out = nullptr;
  long l = 0;
  static char junk[4096];
  if (bad) {  // not from tpalloc
    memset(junk, 'J', sizeof junk);
    *act = {Action::ret, "", junk + 2048, 5, rcode, rflags, rval};
    return;
  }
  if (!nullreply) {
    int rt = inplace ? t : rtype;
    std::string rp = "re=" + std::to_string(id) + " st=" + std::to_string(stage) + " pid=" + std::to_string(getpid()) + notes;
    if (inplace) {
      l = sm::put(&si->data, rt, rp, sm::body(id, 1 + stage, rlen, rt == sm::STRING));
      out = si->data;
    } else {
      l = sm::put(&out, rt, rp, sm::body(id, 1 + stage, rlen, rt == sm::STRING));
    }
  }
  *act = {Action::ret, "", out, l, rcode, rflags, rval};
}

static void U(TPSVCINFO *si) {
  Action a;
  run(si, &a);
  if (a.what == Action::ret) tpreturn(a.rval, a.rcode, a.out, a.len, a.flags);
  if (a.what == Action::fwd) tpforward(a.svc, a.out, a.len, 0);
}

static std::vector<tmdsptchtbl_t> g_tab;
static struct tmsvrargs_t g_args;
struct tmsvrargs_t *_tmgetsvrargs() { return &g_args; }

int main(int argc, char **argv) {
  const char *base = strrchr(argv[0], '/');
  base = base ? base + 1 : argv[0];
  snprintf(g_name, sizeof g_name, "%s", base);
  for (int i = 1; i + 1 < argc; i++) {
    if (strcmp(argv[i], "-i") == 0) g_srvid = atoi(argv[i + 1]);
    if (strcmp(argv[i], "-g") == 0) g_grp = atoi(argv[i + 1]);
  }
  static std::vector<std::string> names;
  const char *tab = getenv("USYS_TAB");
  for (auto &e : sm::split(tab ? tab : "", ';')) {
    auto kv = sm::split(e, '=');
    if (kv.size() == 2 && kv[0] == base) names = sm::split(kv[1], ',');
  }
  for (auto &n : names) {
    tmdsptchtbl_t r;
    memset(&r, 0, sizeof r);
    // @ stands for the server's own number
    auto at = n.find('@');
    if (at != std::string::npos) n = n.substr(0, at) + std::to_string(g_srvid) + n.substr(at + 1);
    r.svcname = const_cast<char *>(n.c_str());
    r.funcname = const_cast<char *>("U");
    r.svcfunc = U;
    g_tab.push_back(r);
  }
  tmdsptchtbl_t end;
  memset(&end, 0, sizeof end);
  g_tab.push_back(end);
  memset(&g_args, 0, sizeof g_args);
#ifdef USYS_XA
  g_args.xa_switch = g_name[0] == 'p' ? &tmnull_switch : &usys_switch;
#else
  null_switch = tmnull_switch;
  null_switch.xa_open_entry = null_open;
  null_switch.xa_close_entry = null_close;
  g_args.xa_switch = &null_switch;
#endif
  g_args.tmdsptchtbl = g_tab.data();
  g_args.svrinit = tpsvrinit;
  g_args.svrdone = tpsvrdone;
  g_args.mainloop = _tmrunserver;
  g_args.rminit = tprminit;
  g_args.svrthrinit = tpsvrthrinit;
  sm::sig_start();
  g_args.svrthrdone = tpsvrthrdone;
  _tmbuilt_with_thread_option = base[0] == 'm';
  sm::log("I srv=%d.%d pid=%d name=%s", g_grp, g_srvid, getpid(), base);
  if (strcmp(base, "zz") == 0) return 3;
  if (strcmp(base, "yy") == 0) kill(getpid(), SIGKILL);
  int rc = _tmstartserver(argc, argv, &g_args);
  sm::log("Z srv=%d.%d pid=%d rc=%d", g_grp, g_srvid, getpid(), rc);
  return rc;
}
