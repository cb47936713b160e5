// Resource manager stand-in: keeps the state of its branches in a file shared
// by all processes of a group, follows the XA rules, fails as told, and records
// every call with its result and the state of the branch after it.
#include "xalog.h"
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <map>
#include "sysmsg.h"

namespace {

enum { FREE = 0, GONE, LIVE, PREPARED };
struct Assoc {
  int pid;
  long tid;
  int suspended;
};
struct Branch {
  int state;
  int rbonly;
  char xid[64];
  Assoc a[8];
};
struct Table {
  long len;
  Branch b[60000];
};

std::string hex(const XID &x) {
  std::string s = std::to_string(x.formatID) + ".";
  char h[4];
  for (long i = 0; i < x.gtrid_length + x.bqual_length && i < XIDDATASIZE; i++) {
    snprintf(h, sizeof h, "%02x", (unsigned char)x.data[i]);
    s += h;
  }
  return s.substr(0, 63);
}

bool alive(int pid) {
  if (pid == getpid()) return true;
  char p[64], b[300];
  snprintf(p, sizeof p, "/proc/%d/stat", pid);
  // /proc may be another namespace's: only kill() is certain there
  (void)p;
  (void)b;
  return kill(pid, 0) == 0 || errno == EPERM;
}

struct Locked {
  int fd;
  Table *t;
  explicit Locked(int rmid) {
    char p[600];
    snprintf(p, sizeof p, "%s/rm.%d", getenv("USYS_RM") ? getenv("USYS_RM") : ".", rmid);
    fd = open(p, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
    while (flock(fd, LOCK_EX) == -1 && errno == EINTR) {
    }
    struct stat st;
    fstat(fd, &st);
    if (st.st_size < off_t(sizeof(Table))) {
      int rc = ftruncate(fd, sizeof(Table));
      (void)rc;
    }
    // Each thread has a mapping of its own: the stand-in must not order the threads
    // that are watched, nor be taken for a race itself
    static thread_local std::map<int, Table *> maps;
    Table *&m = maps[rmid];
    if (m == nullptr) m = (Table *)mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    t = m;
  }
  ~Locked() {
    flock(fd, LOCK_UN);  // the mapping keeps the file open
    close(fd);
  }
  Branch *find(const std::string &x) {
    for (long i = t->len - 1; i >= 0; i--)
      if (t->b[i].state != FREE && t->b[i].state != GONE && x == t->b[i].xid) return &t->b[i];
    return nullptr;  // a branch that has ended is forgotten
  }
  Branch *make(const std::string &x) {
    if (t->len >= long(sizeof t->b / sizeof t->b[0])) abort();
    Branch *b = &t->b[t->len++];
    memset(b, 0, sizeof *b);
    b->state = LIVE;
    snprintf(b->xid, sizeof b->xid, "%s", x.c_str());
    return b;
  }
};

Assoc *mine(Branch *b) {
  for (auto &a : b->a)
    if (a.pid == getpid() && a.tid == sm::tid()) return &a;
  return nullptr;
}
Assoc *room(Branch *b) {
  for (auto &a : b->a)
    if (a.pid == 0) return &a;
  abort();
}
// Work of processes that died is lost
void prune(Branch *b) {
  for (auto &a : b->a)
    if (a.pid != 0 && !alive(a.pid)) {
      memset(&a, 0, sizeof a);
      b->rbonly = 1;
    }
}
int count(Branch *b, bool active) {
  int n = 0;
  for (auto &a : b->a)
    if (a.pid != 0 && (!active || !a.suspended)) n++;
  return n;
}

thread_local std::map<int, std::string> t_active;

// USYS_XAF="start:20,commit:10" per mille
int chance(const char *op) {
  const char *f = getenv("USYS_XAF");
  if (f == nullptr) return 0;
  for (auto &e : sm::split(f, ',')) {
    auto kv = sm::split(e, ':');
    if (kv.size() == 2 && kv[0] == op) return atoi(kv[1].c_str());
  }
  return 0;
}
uint64_t dice() {
  static thread_local uint64_t z = sm::mix(uint64_t(sm::now_ms()) * 1000003 + getpid() * 7919 + sm::tid());
  return z = sm::mix(z);
}
int fault(const char *op, std::initializer_list<int> codes) {
  if (int(dice() % 1000) >= chance(op)) return XA_OK;
  return *(codes.begin() + dice() % codes.size());
}

int done(int rmid, const char *op, const std::string &x, long flags, Branch *b, int rc, int faulty) {
  int n = b ? count(b, true) : 0, m = b ? count(b, false) : 0;
  const char *s = b == nullptr ? "none" : b->state == GONE ? "gone" : b->state == PREPARED ? "prepared" : n > 0 ? "active" : m > 0 ? "suspended" : "idle";
  sm::log("Q rm=%d op=%s x=%s rc=%d fl=%lx f=%d s=%s rb=%d pid=%d tid=%ld", rmid, op, x.c_str(), rc, flags, faulty != XA_OK,
          s, b ? b->rbonly : 0, getpid(), sm::tid());
  return rc;
}

thread_local int t_fail = XA_OK;
int openfault() {
  int f = t_fail;
  t_fail = XA_OK;
  return f;
}

int x_open(char *info, int rmid, long flags) {
  int f = openfault();
  sm::log("Q rm=%d op=open x= rc=%d fl=%lx f=%d s=none rb=0 pid=%d tid=%ld info=%s", rmid, f, flags, f != XA_OK, getpid(), sm::tid(), info);
  return f;
}
int x_close(char *info, int rmid, long flags) {
  int f = openfault();
  sm::log("Q rm=%d op=close x= rc=%d fl=%lx f=%d s=none rb=0 pid=%d tid=%ld info=%s", rmid, f, flags, f != XA_OK, getpid(), sm::tid(), info);
  return f;
}

int x_start(XID *xid, int rmid, long flags) {
  std::string x = hex(*xid);
  Locked l(rmid);
  Branch *b = l.find(x);
  if (b != nullptr) prune(b);
  int f = fault("start", {XAER_RMERR, XAER_RMFAIL, XAER_OUTSIDE, XA_RBROLLBACK, XAER_RMERR});
  bool fresh = !(flags & (TMJOIN | TMRESUME));
  auto &cur = t_active[rmid];
  if (!cur.empty()) return done(rmid, "start", x, flags, b, XAER_PROTO, 0);
  if (fresh) {
    if (b != nullptr) return done(rmid, "start", x, flags, b, XAER_DUPID, 0);
    if (f == XA_RBROLLBACK) f = XAER_RMERR;
    if (f != XA_OK) return done(rmid, "start", x, flags, nullptr, f, f);
    b = l.make(x);
  } else {
    if (b == nullptr) return done(rmid, "start", x, flags, b, XAER_NOTA, 0);
    if (b->state == PREPARED) return done(rmid, "start", x, flags, b, XAER_PROTO, 0);
    if (flags & TMRESUME) {
      Assoc *a = mine(b);
      if (a == nullptr || !a->suspended) return done(rmid, "start", x, flags, b, XAER_PROTO, 0);
      if (f != XA_OK) {
        memset(a, 0, sizeof *a);
        b->rbonly = 1;
        return done(rmid, "start", x, flags, b, f, f);
      }
      a->suspended = 0;
      cur = x;
      return done(rmid, "start", x, flags, b, XA_OK, 0);
    }
    if (f == XA_RBROLLBACK) b->rbonly = 1;
    if (f != XA_OK) return done(rmid, "start", x, flags, b, f, f);
  }
  Assoc *a = room(b);
  *a = {getpid(), sm::tid(), 0};
  cur = x;
  return done(rmid, "start", x, flags, b, XA_OK, 0);
}

int x_end(XID *xid, int rmid, long flags) {
  std::string x = hex(*xid);
  Locked l(rmid);
  Branch *b = l.find(x);
  if (b == nullptr) return done(rmid, "end", x, flags, b, XAER_NOTA, 0);
  prune(b);
  Assoc *a = mine(b);
  auto &cur = t_active[rmid];
  if (a == nullptr || (a->suspended && (flags & TMSUSPEND)) || (!a->suspended && cur != x))
    return done(rmid, "end", x, flags, b, XAER_PROTO, 0);
  int f = fault(flags & TMSUSPEND ? "suspend" : "end", {XAER_RMERR, XAER_RMFAIL, XA_RBROLLBACK, XA_RBDEADLOCK});
  if (cur == x) cur.clear();
  if (f != XA_OK) {
    memset(a, 0, sizeof *a);
    b->rbonly = 1;
    return done(rmid, "end", x, flags, b, f, f);
  }
  if (flags & TMSUSPEND) {
    a->suspended = 1;
  } else {
    memset(a, 0, sizeof *a);
    if (flags & TMFAIL) b->rbonly = 1;
  }
  return done(rmid, "end", x, flags, b, XA_OK, 0);
}

int x_prepare(XID *xid, int rmid, long flags) {
  std::string x = hex(*xid);
  Locked l(rmid);
  Branch *b = l.find(x);
  if (b == nullptr) return done(rmid, "prepare", x, flags, b, XAER_NOTA, 0);
  prune(b);
  if (b->state != LIVE || count(b, false) > 0) return done(rmid, "prepare", x, flags, b, XAER_PROTO, 0);
  if (b->rbonly) {
    b->state = GONE;
    return done(rmid, "prepare", x, flags, b, XA_RBROLLBACK, 0);
  }
  int f = fault("prepare", {XA_RDONLY, XA_RDONLY, XA_RBROLLBACK, XA_RBDEADLOCK, XA_RBINTEGRITY, XAER_RMERR, XAER_RMFAIL, XA_RBEND});
  if (f == XA_RDONLY || f >= XA_RBBASE) b->state = GONE;
  else if (f == XA_OK) b->state = PREPARED;
  return done(rmid, "prepare", x, flags, b, f, f);
}

int x_commit(XID *xid, int rmid, long flags) {
  std::string x = hex(*xid);
  Locked l(rmid);
  Branch *b = l.find(x);
  if (b == nullptr) return done(rmid, "commit", x, flags, b, XAER_NOTA, 0);
  if (b->state != PREPARED) return done(rmid, "commit", x, flags, b, XAER_PROTO, 0);
  int f = fault("commit", {XA_HEURCOM, XA_HEURRB, XA_HEURMIX, XA_HEURHAZ, XAER_RMERR, XAER_RMFAIL, XA_RETRY});
  if (f != XAER_RMFAIL && f != XA_RETRY) b->state = GONE;
  return done(rmid, "commit", x, flags, b, f, f);
}

int x_rollback(XID *xid, int rmid, long flags) {
  std::string x = hex(*xid);
  Locked l(rmid);
  Branch *b = l.find(x);
  if (b == nullptr) return done(rmid, "rollback", x, flags, b, XAER_NOTA, 0);
  prune(b);
  if (count(b, true) > 0) return done(rmid, "rollback", x, flags, b, XAER_PROTO, 0);
  // only what was prepared is decided upon heuristically
  int f = b->state == PREPARED
              ? fault("rollback", {XA_HEURCOM, XA_HEURRB, XA_HEURMIX, XA_HEURHAZ, XAER_RMERR, XAER_RMFAIL, XA_RBROLLBACK})
              : fault("rollback", {XAER_RMERR, XAER_RMFAIL, XA_RBROLLBACK});
  if (f != XAER_RMFAIL) b->state = GONE;
  return done(rmid, "rollback", x, flags, b, f, f);
}

int x_recover(XID *, long, int, long) { return 0; }
int x_forget(XID *, int, long) { return XA_OK; }
int x_complete(int *, int *, int, long) { return XAER_INVAL; }

}  // namespace

void xalog_fail(int rc) { t_fail = rc; }
bool xalog_failed() { return openfault() == XA_OK; }
std::string xalog_current(int rmid) { return t_active[rmid]; }

extern "C" {
struct xa_switch_t usys_switch = {"USYS", TMNOFLAGS, 0, x_open, x_close, x_start, x_end, x_rollback, x_prepare, x_commit, x_recover, x_forget, x_complete};
}
