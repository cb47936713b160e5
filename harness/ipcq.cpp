// C09: message queues.  Every message sent carries bytes its receiver can verify;
// mode "one" compares a single process against an exact model of the queues (with
// system call faults), mode "conc" records what many processes sent and received
// and checks the record afterwards, mode "rm" removes queues in use.
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <system_error>
#include "ipc.h"
#include "vh.h"
using namespace vh;
using fux::ipc::msg;

// ---------------------------------------------------------------- interposed calls
enum W { w_mkstemp, w_write, w_close, w_msgsnd, w_msgrcv, w_open, w_read, w_stat, w_unlink, w_n };
static const char *wname[] = {"mkstemp", "write", "close", "msgsnd", "msgrcv", "open", "read", "stat", "unlink"};
static bool watching = false;        // calls made by the code under test
static int fault_at = -1, fault_err = 0, fault_fired = -1;  // which of the calls fails
static int calls = 0;
static Rng *delays = nullptr;        // pauses at the calls (schedules)
struct Names {
  std::atomic<int> n;
  char name[60000][40];
};
static Names *files;                 // every temporary file ever made, all processes

static bool pre(int w) {
  if (!watching) return false;
  int me = calls++;
  if (delays && delays->p(6)) {
    if (delays->p(50))
      usleep(delays->u(400));
    else
      sched_yield();
  }
  if (me == fault_at) {
    fault_fired = w;
    return true;
  }
  return false;
}
extern "C" {
int __real_mkstemp(char *);
ssize_t __real_write(int, const void *, size_t);
int __real_close(int);
int __real_msgsnd(int, const void *, size_t, int);
ssize_t __real_msgrcv(int, void *, size_t, long, int);
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_stat(const char *, struct stat *);
int __real_unlink(const char *);

int __wrap_mkstemp(char *t) {
  if (pre(w_mkstemp)) {
    errno = fault_err % 2 ? EMFILE : ENOSPC;
    return -1;
  }
  int fd = __real_mkstemp(t);
  if (fd >= 0 && watching) {
    int i = files->n.fetch_add(1);
    if (i < 60000) snprintf(files->name[i], 40, "%s", t);
  }
  return fd;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (pre(w_write)) {
    if (fault_err % 3 == 0 && n > 1) return __real_write(fd, p, n / 2);
    errno = fault_err % 3 == 1 ? ENOSPC : EIO;
    return -1;
  }
  return __real_write(fd, p, n);
}
int __wrap_close(int fd) {
  if (pre(w_close)) {
    __real_close(fd);
    errno = EIO;
    return -1;
  }
  return __real_close(fd);
}
int __wrap_msgsnd(int q, const void *p, size_t n, int f) {
  if (pre(w_msgsnd)) {
    errno = fault_err % 2 ? ENOMEM : EACCES;
    return -1;
  }
  return __real_msgsnd(q, p, n, f);
}
ssize_t __wrap_msgrcv(int q, void *p, size_t n, long t, int f) {
  if (pre(w_msgrcv)) {
    errno = fault_err % 2 ? EACCES : EINTR;
    return -1;
  }
  return __real_msgrcv(q, p, n, t, f);
}
int __wrap_open(const char *p, int f, ...) {
  if (pre(w_open)) {
    errno = fault_err % 2 ? EMFILE : ENFILE;
    return -1;
  }
  return __real_open(p, f, 0600);
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (pre(w_read)) {
    if (fault_err % 2 && n > 1) return __real_read(fd, p, n / 2);
    errno = EIO;
    return -1;
  }
  return __real_read(fd, p, n);
}
int __wrap_stat(const char *p, struct stat *s) {
  if (pre(w_stat)) {
    errno = EACCES;
    return -1;
  }
  return __real_stat(p, s);
}
int __wrap_unlink(const char *p) {
  pre(w_unlink);
  return __real_unlink(p);
}
}
static void init() {
  if (!files) files = (Names *)mmap(0, sizeof(Names), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
struct Watch {
  Watch(int at = -1, int err = 0) {
    calls = 0;
    fault_at = at;
    fault_err = err;
    fault_fired = -1;
    watching = true;
  }
  ~Watch() {
    watching = false;
    fault_at = -1;
  }
};
static int live_files() {
  int n = 0, k = std::min<int>(files->n.load(), 60000);
  for (int i = 0; i < k; i++) {
    struct stat st;
    if (files->name[i][0] && __real_stat(files->name[i], &st) == 0) n++;
  }
  return n;
}
static void drop_files() {
  int k = std::min<int>(files->n.load(), 60000);
  for (int i = 0; i < k; i++)
    if (files->name[i][0]) __real_unlink(files->name[i]), files->name[i][0] = 0;
  files->n = 0;
}
static int open_fds() {
  int n = 0;
  for (int i = 0; i < 64; i++)
    if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- messages
static uint64_t hash(const void *p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
static size_t pick_size(Rng &r) {
  size_t base = sizeof(fux::ipc::msgmem);
  switch (r.u(8)) {
    case 0: return base;
    case 1: return base + r.u(64);
    case 2: return 3984 + r.u(33);  // around what fits a queue message
    case 3: return 4000 + r.u(3);
    case 4: return base + r.u(3000);
    case 5: return 4001 + r.u(9000);
    case 6: return r.p(20) ? 60000 + r.u(400000) : 4096 + r.u(64);
    default: return base + r.u(600);
  }
}
// All bytes but the transport field come from the seed
static void fill(msg &m, size_t size, long mtype, int cat, uint64_t seed) {
  m.resize(size);
  Rng g(seed);
  char *p = m.buf();
  size_t i = 0;
  for (; i + 8 <= size; i += 8) {
    uint64_t v = g.next();
    memcpy(p + i, &v, 8);
  }
  for (; i < size; i++) p[i] = (char)g.next();
  m->mtype = mtype;
  m->ttype = fux::ipc::queue;
  m->cat = (fux::ipc::category)cat;
}
// Content without the transport field and padding of the header
static uint64_t content(msg &m) {
  long mt = m->mtype;
  char cat = (char)m->cat;
  uint64_t h = hash(&mt, sizeof mt) ^ (hash(&cat, 1) * 31);
  size_t off = offsetof(fux::ipc::msgmem, servicename);
  if (m.size() >= off) h ^= hash(m.buf() + off, m.size() - off) * 17;
  return h ^ m.size();
}

// ---------------------------------------------------------------- one process, exact model
struct Ent {
  long mtype;
  size_t size;
  uint64_t content;
};
static const char *flagname(int f) { return f == 0 ? "timed" : f == 1 ? "noblock" : "notime"; }

static void one(Rng &r) {
  init();
  drop_files();
  int nq = 1 + r.u(2);
  std::vector<int> q;
  std::vector<std::deque<Ent>> model(nq);
  int start_fds = open_fds();
  for (int i = 0; i < nq; i++) q.push_back(fux::ipc::qcreate());
  struct Cleanup {
    std::vector<int> &q;
    ~Cleanup() {
      for (int i : q)
        if (i != -1) msgctl(i, IPC_RMID, nullptr);
    }
  } cleanup{q};
  if (r.p(40)) {  // small queues fill quickly
    struct msqid_ds ds;
    for (int i : q) {
      msgctl(i, IPC_STAT, &ds);
      ds.msg_qbytes = 4200 + r.u(6000);
      msgctl(i, IPC_SET, &ds);
    }
  }
  int nops = 4 + r.u(40);
  auto big = [](const Ent &e) { return e.size > 4000; };
  auto files_max = [&] {
    int n = 0;
    for (auto &m : model)
      for (auto &e : m) n += big(e);
    return n;
  };
  for (int op = 0; op < nops; op++) {
    int k = r.u(nq);
    if (q[k] == -1) continue;
    int faulty = r.p(18) ? (int)r.u(7) : -1;
    int ferr = r.u(6);
    if (r.p(55)) {
      msg m;
      long mtype = r.p(70) ? 1 + r.u(4) : 1 + r.u(1u << 30);
      size_t size = pick_size(r);
      fill(m, size, mtype, r.u(3), r.next());
      uint64_t c = content(m);
      int f = r.u(3);
      long tmo = r.p(80) ? 0 : r.u(120);
      struct msqid_ds ds;
      msgctl(q[k], IPC_STAT, &ds);
      bool room = ds.__msg_cbytes + std::min<size_t>(size, 4000) <= ds.msg_qbytes && 1 + ds.msg_qnum <= ds.msg_qbytes;
      if (f == fux::ipc::notime && !room) f = fux::ipc::noblock;  // nobody would make room
      log(fmt("send q%d size %zu type %ld %s tmo %ld fault %d", k, size, mtype, flagname(f), tmo, faulty));
      cur_op() = "qsend";
      bool ok = false, threw = false;
      int fired = -1;
      double t0 = now();
      {
        Watch w(faulty, ferr);
        try {
          ok = fux::ipc::qsend(q[k], m, tmo, (fux::ipc::flags)f);
        } catch (std::exception &) {
          threw = true;
        }
        fired = fault_fired;
      }
      double dt = now() - t0;
      count("sends");
      if (fired >= 0) {
        count(fmt("fault_%s", wname[fired]));
        distinct("fault", fmt("send-%s-%d-%zu", wname[fired], ferr, size > 4000 ? 1ul : 0ul));
      }
      if (threw && fired < 0) viol("send-throws", fmt("send of %zu bytes failed without a reason", size));
      if (ok) {
        model[k].push_back({mtype, size, c});
        count(size > 4000 ? "sent_large" : "sent_small");
      } else if (!threw) {
        if (room && fired < 0)
          viol("send-blocked-with-room", fmt("send of %zu bytes gave up though the queue has %lu of %lu bytes", size, (long)ds.__msg_cbytes, (long)ds.msg_qbytes));
        if (f == fux::ipc::noflags && dt * 1000 < tmo - 2)
          viol("send-timeout-early", fmt("gave up after %.1f ms, allowed %ld ms", dt * 1000, tmo));
        if (dt > (f == fux::ipc::noflags ? tmo * 1e-3 : 0) + 5) viol("send-timeout-late", fmt("gave up after %.1f s", dt));
        count("refused");
      }
      // what the queue holds afterwards
      msgctl(q[k], IPC_STAT, &ds);
      if (ds.msg_qnum != model[k].size())
        viol("send-count", fmt("queue holds %lu messages, %zu were accepted (result %s)", (long)ds.msg_qnum, model[k].size(), ok ? "sent" : threw ? "error" : "refused"));
    } else {
      long type = r.p(35) ? 0 : r.p(50) ? 1 + (long)r.u(4) : -(long)(1 + r.u(5));
      if (r.p(10)) type = std::numeric_limits<long>::min();
      auto it = model[k].end();
      for (auto i = model[k].begin(); i != model[k].end(); ++i) {
        if (type == 0) {
          it = i;
          break;
        }
        if (type > 0) {
          if (i->mtype == type) {
            it = i;
            break;
          }
        } else {
          bool in = type == std::numeric_limits<long>::min() || i->mtype <= -type;
          if (in && (it == model[k].end() || i->mtype < it->mtype)) it = i;
        }
      }
      log(fmt("recv q%d type %ld fault %d expect %ld", k, type, faulty, it == model[k].end() ? -1l : (long)it->size));
      cur_op() = "qrecv";
      msg m;
      if (r.p(50)) fill(m, pick_size(r), 1, 0, r.next());  // reused for something else before
      bool got = false;
      int err = 0, fired = -1;
      {
        Watch w(faulty, ferr);
        try {
          fux::ipc::qrecv(q[k], m, type, IPC_NOWAIT);
          got = true;
        } catch (std::system_error &e) {
          err = e.code().value();
        } catch (std::exception &) {
          err = -1;
        }
        fired = fault_fired;
      }
      count("receives");
      if (fired >= 0) {
        count(fmt("fault_%s", wname[fired]));
        distinct("fault", fmt("recv-%s-%d", wname[fired], ferr));
      }
      if (it == model[k].end()) {
        if (got) viol("recv-nothing", fmt("received %zu bytes though no message matches", m.size()));
        if (fired < 0 && err != ENOMSG) viol("recv-error", fmt("error %d instead of no message", err));
        count("nothing_to_receive");
      } else {
        if (!got && fired < 0) viol("recv-fails", fmt("error %d though a message of %zu bytes matches", err, it->size));
        if (got) {
          if (m.size() != it->size) viol("recv-size", fmt("received %zu bytes, %zu were sent", m.size(), it->size));
          if (content(m) != it->content) viol("recv-content", fmt("message of %zu bytes changed", m.size()));
          distinct("size", fmt("%zu", it->size));
          model[k].erase(it);
          count("received_intact");
        } else if (fired != w_msgrcv) {
          // the fault hit after the message had been taken
          struct msqid_ds ds;
          msgctl(q[k], IPC_STAT, &ds);
          if (ds.msg_qnum + 1 == model[k].size()) model[k].erase(it);
        }
      }
      struct msqid_ds ds;
      msgctl(q[k], IPC_STAT, &ds);
      if (ds.msg_qnum != model[k].size()) viol("recv-count", fmt("queue holds %lu messages instead of %zu", (long)ds.msg_qnum, model[k].size()));
    }
    if (int n = live_files(); n > files_max()) viol("file-left", fmt("%d temporary files for %d large messages in queues", n, files_max()));
    if (int n = open_fds(); n != start_fds) viol("fd-left", fmt("%d descriptors open instead of %d", n, start_fds));
    if (r.p(2)) {
      cur_op() = "qdelete";
      fux::ipc::qdelete(q[k]);
      log(fmt("delete q%d", k));
      int at = q[k];
      q[k] = -1;
      model[k].clear();
      if (int n = live_files(); n > files_max()) viol("file-left-removed", fmt("%d temporary files for %d large messages in queues", n, files_max()));
      msg m;
      fill(m, pick_size(r), 1, 0, 7);
      bool sent = false, threw = false;
      {
        Watch w;
        try {
          sent = fux::ipc::qsend(at, m, 0, (fux::ipc::flags)r.u(3));
        } catch (std::exception &) {
          threw = true;
        }
      }
      if (sent) viol("sent-to-removed", "send to a removed queue reports success");
      (void)threw;
      if (int n = live_files(); n > files_max()) viol("file-left", fmt("%d temporary files after a send to a removed queue", n));
      if (int n = open_fds(); n != start_fds) viol("fd-left", fmt("%d descriptors open instead of %d", n, start_fds));
      count("removed");
    }
  }
  for (int k = 0; k < nq; k++)
    if (q[k] != -1) {
      fux::ipc::qdelete(q[k]);
      q[k] = -1;
    }
  if (int n = live_files(); n > 0) viol("file-left-removed", fmt("%d temporary files after all queues are gone", n));
}

// ---------------------------------------------------------------- many processes
struct Rec {
  int who, queue, seq, ok;  // ok: 1 accepted, 0 refused, -1 error
  long mtype;
  uint64_t seed;
  size_t size;
  uint64_t content;
  double t0, t1;
};
struct Log {
  std::atomic<int> n;
  int err;
  Rec rec[6000];
};
struct Shm {
  std::atomic<int> ready, go, senders_left, stop;
  Log logs[16];
};
static Shm *shm;

static void reap(std::vector<pid_t> &pids, double limit, const char *what) {
  double t0 = now();
  for (auto &p : pids) {
    int st = 0;
    while (true) {
      pid_t x = waitpid(p, &st, WNOHANG);
      if (x == p) break;
      if (now() - t0 > limit) {
        for (auto k : pids)
          if (k > 0) kill(k, SIGKILL);
        for (auto k : pids)
          if (k > 0) waitpid(k, nullptr, 0);
        viol(fmt("stuck-%s", what), fmt("a %s did not finish within %.0f s", what, limit));
      }
      usleep(500);
    }
    p = -1;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      for (auto k : pids)
        if (k > 0) kill(k, SIGKILL);
      fflush(stdout);
      _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
    }
  }
}

static void conc_run(Rng &r, bool removing) {
  init();
  drop_files();
  if (!shm) shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int nq = 1 + r.u(2), ns = 1 + r.u(5), nr = 1 + r.u(4);
  int per = removing ? 2000 : 40 + r.u(260);
  int ntypes = 1 + r.u(3);
  std::vector<int> q;
  for (int i = 0; i < nq; i++) q.push_back(fux::ipc::qcreate());
  struct Cleanup {
    std::vector<int> &q;
    ~Cleanup() {
      for (int i : q) msgctl(i, IPC_RMID, nullptr);
    }
  } cleanup{q};
  for (int i : q) {
    struct msqid_ds ds;
    msgctl(i, IPC_STAT, &ds);
    if (r.p(60)) {
      ds.msg_qbytes = 4100 + r.u(9000);
      msgctl(i, IPC_SET, &ds);
    }
  }
  shm->ready = shm->go = shm->stop = 0;
  shm->senders_left = ns;
  for (auto &l : shm->logs) l.n = 0, l.err = 0;
  int total = ns + nr * nq;
  total = std::min(total, 15);
  nr = std::max(1, (total - ns) / nq);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < ns + nr * nq; i++) seeds.push_back(r.next());
  std::vector<long> filters;
  for (int i = 0; i < nr * nq; i++) filters.push_back(i < nq ? (r.p(50) ? 0 : std::numeric_limits<long>::min()) : r.p(40) ? 0 : r.p(50) ? 1 + (long)r.u(ntypes) : -(long)(1 + r.u(ntypes)));
  std::vector<pid_t> sp, rp;
  fflush(stdout);
  for (int i = 0; i < ns; i++) {
    pid_t p = fork();
    if (p == 0) {
      Rng g(seeds[i]);
      delays = new Rng(seeds[i] ^ 99);
      Log &l = shm->logs[i];
      shm->ready++;
      while (!shm->go) sched_yield();
      int seq = 0;
      for (int n = 0; n < per && l.n < 5900; n++) {
        Rec e = {};
        e.who = i;
        e.queue = g.u(nq);
        e.seq = seq++;
        e.mtype = 1 + g.u(ntypes);
        e.seed = g.next();
        e.size = pick_size(g);
        msg m;
        fill(m, e.size, e.mtype, g.u(3), e.seed);
        // sender and number travel in the message itself
        int id[2] = {i, e.seq};
        memcpy(m->servicename, id, sizeof id);
        e.content = content(m);
        int f = g.u(3);
        e.t0 = now();
        {
          Watch w;
          try {
            e.ok = fux::ipc::qsend(q[e.queue], m, g.u(150), (fux::ipc::flags)f) ? 1 : 0;
          } catch (std::exception &) {
            e.ok = -1;
          }
        }
        e.t1 = now();
        l.rec[l.n] = e;
        l.n++;
        if (e.ok == -1) break;
        if (e.ok == 0) {
          usleep(g.u(300));
          if (n % 7) n--;  // most refused ones are tried again as new messages
        }
      }
      shm->senders_left--;
      _exit(0);
    }
    sp.push_back(p);
  }
  for (int i = 0; i < nr * nq; i++) {
    pid_t p = fork();
    if (p == 0) {
      Rng g(seeds[ns + i]);
      delays = new Rng(seeds[ns + i] ^ 77);
      Log &l = shm->logs[ns + i];
      shm->ready++;
      while (!shm->go) sched_yield();
      msg m;
      int qi = i % nq;
      while (l.n < 5900) {
        Rec e = {};
        e.queue = qi;
        bool nowait = g.p(20);
        e.t0 = now();
        bool got = false;
        int err = 0;
        {
          Watch w;
          try {
            fux::ipc::qrecv(q[qi], m, filters[i], nowait ? IPC_NOWAIT : 0);
            got = true;
          } catch (std::system_error &x) {
            err = x.code().value();
          } catch (std::exception &x) {
            err = -1;
          }
        }
        e.t1 = now();
        if (!got) {
          if (err == ENOMSG && nowait) {
            usleep(g.u(500));
            continue;
          }
          l.err = err;
          break;
        }
        int id[2] = {-1, -1};
        if (m.size() >= sizeof(fux::ipc::msgmem)) memcpy(id, m->servicename, sizeof id);
        e.who = id[0];
        e.seq = id[1];
        e.mtype = m->mtype;
        e.size = m.size();
        e.content = content(m);
        l.rec[l.n] = e;
        l.n++;
        if (g.p(10)) usleep(g.u(800));
      }
      _exit(0);
    }
    rp.push_back(p);
  }
  double w0 = now();
  while (shm->ready != ns + nr * nq) {
    if (now() - w0 > 60) {
      for (auto p : sp) kill(p, SIGKILL);
      for (auto p : rp) kill(p, SIGKILL);
      _exit(96);
    }
    usleep(200);
  }
  cur_op() = removing ? "remove" : "conc";
  shm->go = 1;
  if (removing) {
    usleep(r.u(40000));
    for (int i : q) fux::ipc::qdelete(i);
    reap(sp, 60, "sender");
    reap(rp, 60, "receiver");
  } else {
    reap(sp, 90, "sender");
    // all that was accepted is there: wait until it has been taken
    double t0 = now();
    for (int i : q) {
      struct msqid_ds ds;
      while (msgctl(i, IPC_STAT, &ds) == 0 && ds.msg_qnum > 0) {
        if (now() - t0 > 60) {
          for (auto p : rp) kill(p, SIGKILL);
          for (auto p : rp) waitpid(p, nullptr, 0);
          viol("not-received", fmt("%lu accepted messages stay in the queue", (long)ds.msg_qnum));
        }
        usleep(500);
      }
    }
    for (int i : q) fux::ipc::qdelete(i);
    reap(rp, 60, "receiver");
  }
  // ------------------------------------------------ the record is checked
  std::map<std::pair<int, int>, Rec *> sent;
  long accepted = 0, refused = 0, received = 0, large = 0;
  for (int i = 0; i < ns; i++)
    for (int k = 0; k < shm->logs[i].n; k++) {
      Rec &e = shm->logs[i].rec[k];
      sent[{e.who, e.seq}] = &e;
      accepted += e.ok == 1;
      refused += e.ok == 0;
      large += e.ok == 1 && e.size > 4000;
      if (e.ok == -1 && !removing) viol("send-throws", fmt("send of %zu bytes failed without a reason", e.size));
    }
  std::map<std::pair<int, int>, Rec *> recv;
  uint64_t order = 0;
  for (int i = 0; i < nr * nq; i++) {
    Log &l = shm->logs[ns + i];
    if (l.err != EIDRM && l.err != EINVAL && l.err != ENOMSG) viol("recv-fails", fmt("receiver ended with error %d", l.err));
    std::map<std::pair<int, long>, int> last;
    for (int k = 0; k < l.n; k++) {
      Rec &e = l.rec[k];
      auto it = sent.find({e.who, e.seq});
      if (it == sent.end()) viol("recv-unknown", fmt("received a message of %zu bytes nobody sent", e.size));
      Rec &s = *it->second;
      if (s.ok != 1 && !(removing && s.ok == -1)) viol("recv-not-accepted", fmt("message %d of sender %d arrived though the send %s", e.seq, e.who, s.ok ? "failed" : "gave up"));
      if (s.queue != e.queue) viol("recv-elsewhere", fmt("message for queue %d received from queue %d", s.queue, e.queue));
      if (s.size != e.size) viol("recv-size", fmt("received %zu bytes, %zu were sent", e.size, s.size));
      if (s.content != e.content) viol("recv-content", fmt("message of %zu bytes changed", e.size));
      if (e.t1 < s.t0) viol("recv-before-send", "received before it was sent");
      if (recv.count({e.who, e.seq})) viol("recv-twice", fmt("message %d of sender %d received twice", e.seq, e.who));
      recv[{e.who, e.seq}] = &e;
      long f = filters[i];
      if (f > 0 && e.mtype != f) viol("recv-filter", fmt("type %ld received where %ld was asked", e.mtype, f));
      if (f < 0 && f != std::numeric_limits<long>::min() && e.mtype > -f) viol("recv-filter", fmt("type %ld received where at most %ld was asked", e.mtype, -f));
      auto &at = last.insert({{e.who, e.mtype}, -1}).first->second;
      if (e.seq < at) viol("order", fmt("sender %d: message %d received after %d", e.who, e.seq, at));
      at = e.seq;
      received++;
      order = order * 1099511628211ull ^ (e.who * 31 + i);
    }
  }
  // between receivers: the later one must not be complete before the earlier one began to be received
  std::map<std::tuple<int, int, long>, double> latest;  // of the earlier ones of that stream: t0 of their receive
  for (auto &s : sent) {
    auto it = recv.find(s.first);
    if (it == recv.end()) {
      if (s.second->ok == 1 && !removing) viol("lost", fmt("message %d of sender %d (%zu bytes) was never received", s.first.second, s.first.first, s.second->size));
      continue;
    }
    auto key = std::make_tuple(s.first.first, s.second->queue, s.second->mtype);
    auto at = latest.find(key);
    if (at != latest.end() && it->second->t1 < at->second) viol("order", fmt("sender %d: message %d received before an earlier one", s.first.first, s.first.second));
    double &v = latest[key];
    v = std::max(v, it->second->t0);
  }
  if (int n = live_files(); n > 0) {
    drop_files();
    viol(removing ? "file-left-removed" : "file-left", fmt("%d temporary files after all queues are gone", n));
  }
  count(removing ? "rm_accepted" : "conc_accepted", accepted);
  count("conc_received", received);
  count("conc_refused", refused);
  count("conc_large", large);
  distinct("interleaving", fmt("%lx", (unsigned long)order));
  distinct("shape", fmt("s%d r%d q%d t%d", ns, nr, nq, ntypes));
  sample(fmt("%d senders, %d receivers on %d queue(s): %ld accepted (%ld large), %ld refused, %ld received", ns, nr * nq, nq, accepted, large, refused, received));
}
static void conc(Rng &r) { conc_run(r, false); }
static void rm(Rng &r) { conc_run(r, true); }

int main(int argc, char **argv) { return run(argc, argv, {{"one", one}, {"conc", conc}, {"rm", rm}}); }
