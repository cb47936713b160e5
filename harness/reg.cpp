// C10: the registry in shared memory.  Mode "one" compares every table with a model
// after each call (heap registry, red zones around it); mode "conc" runs processes
// that advertise, withdraw, look up, attach and detach and checks the record of what
// each saw against what was advertised at that time; mode "attach" has processes
// find the domain not loaded and load it at the same moment.
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>
#include <xa.h>
#include "mib.h"
#include "svcrepo.h"
#include "trx.h"
#include "vh.h"
using namespace vh;
using std::string;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- model
struct Group {
  int no;
  string name, open, close, tms;
};
struct Server {
  int id, grp;
  string name, clopt;
  size_t queue;
};
struct Adv {
  string svc;
  size_t queue, server;
};
struct Model {
  tuxconfig cfg;
  std::vector<Group> groups;
  std::vector<string> queues;
  std::vector<Server> servers;
  std::vector<string> services;
  std::vector<Adv> adv;
  std::map<size_t, int> acc;
};

static string word(Rng &r, size_t max) {
  size_t n = r.p(85) ? 1 + r.u(std::min<size_t>(max, 12)) : r.p(50) ? max : r.u(2) + max + 1;
  string s;
  for (size_t i = 0; i < n; i++) s += "abcXYZ019_.-"[r.u(12)];
  return s;
}

static void compare(mib &m, Model &o, Rng &r, const char *after) {
  auto bad = [&](const string &what) { viol(string("table-") + after, what); };
  if (m.groups()->len != o.groups.size()) bad(fmt("%zu groups instead of %zu", m.groups()->len, o.groups.size()));
  for (size_t i = 0; i < o.groups.size(); i++) {
    auto &g = m.groups().at(i);
    auto &e = o.groups[i];
    if (g.grpno != e.no || e.name != g.srvgrp || e.open != g.openinfo || e.close != g.closeinfo || e.tms != g.tmsname)
      bad(fmt("group %zu is %d/%s/%s/%s/%s", i, g.grpno, g.srvgrp, g.openinfo, g.closeinfo, g.tmsname));
    if (m.find_group(e.no) != i || m.group_index(e.name) != i) bad(fmt("group %d not found at its place", e.no));
  }
  if (m.queues()->len != o.queues.size()) bad(fmt("%zu queues instead of %zu", m.queues()->len, o.queues.size()));
  for (size_t i = 0; i < o.queues.size(); i++)
    if (o.queues[i] != m.queues().at(i).rqaddr || m.find_queue(o.queues[i]) != i) bad(fmt("queue %zu is %s", i, m.queues().at(i).rqaddr));
  if (m.servers()->len != o.servers.size()) bad(fmt("%zu servers instead of %zu", m.servers()->len, o.servers.size()));
  for (size_t i = 0; i < o.servers.size(); i++) {
    auto &s = m.servers().at(i);
    auto &e = o.servers[i];
    if (s.srvid != e.id || s.grpno != e.grp || e.name != s.servername || e.clopt != s.clopt || s.rqaddr != e.queue)
      bad(fmt("server %zu is %d/%d/%s/%s/%zu", i, s.srvid, s.grpno, s.servername, s.clopt, s.rqaddr));
    if (m.find_server(e.id, e.grp) != i) bad(fmt("server %d/%d not found at its place", e.id, e.grp));
  }
  if (m.services()->len != o.services.size()) bad(fmt("%zu services instead of %zu", m.services()->len, o.services.size()));
  for (size_t i = 0; i < o.services.size(); i++)
    if (o.services[i] != m.services().at(i).servicename || m.find_service(o.services[i]) != i) bad(fmt("service %zu is %s", i, m.services().at(i).servicename));
  std::multiset<std::tuple<string, size_t, size_t>> a, b;
  for (auto &x : o.adv) a.insert({x.svc, x.queue, x.server});
  for (size_t i = 0; i < m.advertisements()->len; i++) {
    auto &x = m.advertisements().at(i);
    if (x.service == m.badoff && x.queue == m.badoff && x.server == m.badoff) continue;
    if (x.service >= m.services()->len || x.queue >= m.queues()->len || x.server >= m.servers()->len) bad(fmt("advertisement %zu refers to nothing", i));
    b.insert({m.services().at(x.service).servicename, x.queue, x.server});
  }
  if (a != b) bad(fmt("%zu advertisements instead of %zu, or others", b.size(), a.size()));
  size_t valid = 0;
  for (size_t i = 0; i < m.accessers()->len; i++)
    if (m.accessers().at(i).valid()) {
      valid++;
      auto it = o.acc.find(i);
      if (it == o.acc.end() || it->second != m.accessers().at(i).pid) bad(fmt("client slot %zu holds %d", i, m.accessers().at(i).pid));
    }
  if (valid != o.acc.size()) bad(fmt("%zu clients instead of %zu", valid, o.acc.size()));
  if (m.accessers()->len > m.accessers()->size || m.servers()->len > m.servers()->size || m.advertisements()->len > m.advertisements()->size) bad("a table counts more than it can hold");
  count("table_comparisons");
}

static void lookups(mib &m, Model &o, Rng &r, service_repository &repo, const string &svc) {
  std::set<int> want;
  std::map<int, std::set<int>> bygroup;
  size_t entries = 0;
  for (auto &a : o.adv)
    if (a.svc == svc) {
      want.insert(m.queues().at(a.queue).msqid);
      bygroup[o.servers[a.server].grp].insert(m.queues().at(a.queue).msqid);
      entries++;
    }
  cur_op() = "get_queue";
  if (want.empty()) {
    bool threw = false;
    int q = 0;
    try {
      q = repo.get_queue(-1, svc.c_str());
    } catch (std::exception &) {
      threw = true;
    }
    if (!threw) viol("found-nobody", fmt("service %s found on queue %d though nobody advertises it", svc.c_str(), q));
    count("lookups_nobody");
  } else {
    int rounds = 1 + r.u(3);
    for (int k = 0; k < rounds; k++) {
      std::map<int, int> got;
      for (size_t i = 0; i < entries; i++) {
        int q = -2;
        try {
          q = repo.get_queue(-1, svc.c_str());
        } catch (std::exception &e) {
          viol("not-found", fmt("service %s not found though %zu servers advertise it", svc.c_str(), entries));
        }
        if (!want.count(q)) viol("found-wrong", fmt("service %s found on queue %d", svc.c_str(), q));
        got[q]++;
        count("lookups");
      }
      if (got.size() != want.size()) viol("no-turn", fmt("%zu of %zu queues of service %s got a request in %zu requests", got.size(), want.size(), svc.c_str(), entries));
      distinct("sharing", fmt("%zu/%zu", want.size(), entries));
    }
  }
  for (int g = 1; g <= 4; g++) {
    int q = -2;
    bool threw = false;
    try {
      q = repo.get_queue(g, svc.c_str());
    } catch (std::exception &) {
      threw = true;
    }
    if (bygroup[g].empty() != threw || (!threw && !bygroup[g].count(q)))
      viol("found-group", fmt("service %s in group %d: %s %d, advertised on %zu queues there", svc.c_str(), g, threw ? "not found" : "queue", q, bygroup[g].size()));
    count("lookups_group");
  }
}

static void one(Rng &r) {
  Model o;
  auto &c = o.cfg;
  memset(&c, 0, sizeof c);
  c.maxservers = 1 + r.u(6);
  c.maxservices = 1 + r.u(6);
  c.maxgroups = 1 + r.u(4);
  c.maxqueues = 1 + r.u(6);
  c.maxaccessers = 1 + r.u(5);
  mib m(c, fux::mib::in_heap());
  m->mainsem = fux::ipc::seminit(IPC_PRIVATE, 1);
  struct Cleanup {
    mib &m;
    ~Cleanup() {
      fux::ipc::semrm(m->mainsem);
      free(m.operator->());
    }
  } cleanup{m};
  // the tables lie one after another: writing the last entry of each touches nothing else
  auto &tr = m.transactions();
  (void)tr;
  std::vector<std::unique_ptr<service_repository>> repos;
  std::vector<string> names;
  for (int i = 0; i < 7; i++) {
    string w = word(r, XATMI_SERVICE_NAME_LENGTH - 1);
    names.push_back(w);
  }
  int nops = 5 + r.u(60);
  auto expect = [&](const char *what, bool should, bool threw, const string &args) {
    if (should == threw) viol(string(what) + (threw ? "-refused" : "-accepted"), args);
    count(threw ? "refused" : "accepted");
    distinct("outcome", string(what) + (threw ? "-refused" : "-accepted"));
  };
  for (int i = 0; i < nops; i++) {
    int op = r.u(12);
    const char *what = "";
    if (op == 0) {
      what = "make_group";
      Group g{(int)(1 + r.u(4)), r.p(80) ? fmt("G%d", (int)r.u(5)) : word(r, sizeof(m.groups()[0].srvgrp) - 1), word(r, sizeof(m.groups()[0].openinfo) - 1), word(r, sizeof(m.groups()[0].closeinfo) - 1),
              word(r, sizeof(m.groups()[0].tmsname) - 1)};
      bool ok = o.groups.size() < c.maxgroups && g.name.size() < sizeof(m.groups()[0].srvgrp) && g.open.size() < sizeof(m.groups()[0].openinfo) && g.close.size() < sizeof(m.groups()[0].closeinfo) &&
                g.tms.size() < sizeof(m.groups()[0].tmsname);
      for (auto &e : o.groups)
        if (e.no == g.no || e.name == g.name) ok = false;
      log(fmt("make_group %d %s (%zu %zu %zu)", g.no, g.name.c_str(), g.open.size(), g.close.size(), g.tms.size()));
      bool threw = false;
      try {
        size_t at = m.make_group(g.no, g.name, g.open, g.close, g.tms);
        if (at != o.groups.size()) viol("make_group-index", fmt("%zu", at));
      } catch (std::exception &) {
        threw = true;
      }
      expect(what, ok, threw, oplog().back());
      if (ok) o.groups.push_back(g);
    } else if (op <= 2) {
      what = "make_server";
      Server s{(int)(1 + r.u(4)), (int)(1 + r.u(4)), word(r, sizeof(m.servers()[0].servername) - 1), word(r, sizeof(m.servers()[0].clopt) - 1), 0};
      string rq = r.p(60) || o.queues.empty() ? fmt("Q%d", (int)r.u(6)) : r.p(80) ? o.queues[r.u(o.queues.size())] : word(r, sizeof(m.queues()[0].rqaddr) - 1);
      bool known = std::find(o.queues.begin(), o.queues.end(), rq) != o.queues.end();
      bool ok = o.servers.size() < c.maxservers && s.name.size() < sizeof(m.servers()[0].servername) && s.clopt.size() < sizeof(m.servers()[0].clopt) &&
                (known || (o.queues.size() < c.maxqueues && rq.size() < sizeof(m.queues()[0].rqaddr)));
      for (auto &e : o.servers)
        if (e.id == s.id && e.grp == s.grp) ok = false;
      log(fmt("make_server %d/%d %zu %zu %s", s.id, s.grp, s.name.size(), s.clopt.size(), rq.c_str()));
      bool threw = false;
      try {
        size_t at = m.make_server(s.id, s.grp, s.name, s.clopt, rq);
        if (at != o.servers.size()) viol("make_server-index", fmt("%zu", at));
      } catch (std::exception &) {
        threw = true;
      }
      expect(what, ok, threw, oplog().back());
      if (ok) {
        if (!known) {
          o.queues.push_back(rq);
          m.queues().at(o.queues.size() - 1).msqid = 5000 + o.queues.size();
        }
        s.queue = std::find(o.queues.begin(), o.queues.end(), rq) - o.queues.begin();
        o.servers.push_back(s);
      }
    } else if (op <= 6) {
      what = "advertise";
      if (o.servers.empty()) continue;
      size_t s = r.u(o.servers.size());
      string svc = names[r.u(names.size())];
      bool dup = false, known = std::find(o.services.begin(), o.services.end(), svc) != o.services.end();
      for (auto &a : o.adv)
        if (a.svc == svc && a.server == s) dup = true;
      bool ok = !dup && (known || (o.services.size() < c.maxservices && svc.size() < XATMI_SERVICE_NAME_LENGTH));
      log(fmt("advertise %s server %zu", svc.c_str(), s));
      bool threw = false;
      try {
        m.advertise(svc, o.servers[s].queue, s);
      } catch (std::exception &) {
        threw = true;
      }
      expect(what, ok, threw, oplog().back());
      if (ok) {
        if (!known) o.services.push_back(svc);
        o.adv.push_back({svc, o.servers[s].queue, s});
      }
    } else if (op <= 8) {
      what = "unadvertise";
      if (o.servers.empty()) continue;
      size_t s = r.u(o.servers.size());
      string svc = names[r.u(names.size())];
      if (!o.adv.empty() && r.p(80)) {
        auto &a = o.adv[r.u(o.adv.size())];
        svc = a.svc;
        s = a.server;
      }
      bool ok = false;
      size_t at = 0;
      for (size_t k = 0; k < o.adv.size(); k++)
        if (o.adv[k].svc == svc && o.adv[k].server == s) ok = true, at = k;
      log(fmt("unadvertise %s server %zu", svc.c_str(), s));
      bool threw = false;
      try {
        m.unadvertise(svc, o.servers[s].queue, s);
      } catch (std::exception &) {
        threw = true;
      }
      expect(what, ok, threw, oplog().back());
      if (ok) o.adv.erase(o.adv.begin() + at);
    } else if (op == 9) {
      what = "make_accesser";
      int pid = 100 + i;
      bool ok = o.acc.size() < c.maxaccessers;
      log("make_accesser");
      bool threw = false;
      try {
        size_t at = m.make_accesser(pid);
        if (o.acc.count(at)) viol("accesser-taken", fmt("slot %zu is in use", at));
        if (m.accessers().at(at).rpid_timeout != INVALID_TIME) viol("accesser-timeout", "a new client already waits");
        o.acc[at] = pid;
      } catch (std::exception &) {
        threw = true;
      }
      expect(what, ok, threw, oplog().back());
    } else if (op == 10) {
      what = "detach";
      if (o.acc.empty()) continue;
      auto it = o.acc.begin();
      std::advance(it, r.u(o.acc.size()));
      log(fmt("detach slot %zu", it->first));
      m.accessers().at(it->first).rpid_timeout = std::chrono::steady_clock::now();
      m.accessers().at(it->first).invalidate();
      o.acc.erase(it);
    } else {
      what = "transaction";
      XID x = {};
      x.formatID = 1;
      x.gtrid_length = 4;
      memcpy(x.data, &i, 4);
      for (int k = 0; k < 3; k++) try {
          auto at = m.transactions().start(x, r.u(c.maxgroups));
          m.transactions().join(at, c.maxgroups - 1);
        } catch (std::out_of_range &) {
        }
      log("transactions");
    }
    compare(m, o, r, what);
    if (repos.size() < 3 && r.p(30)) repos.push_back(std::make_unique<service_repository>(m));
    for (auto &rp : repos)
      if (r.p(50)) lookups(m, o, r, *rp, names[r.u(names.size())]);
  }
}

// ---------------------------------------------------------------- several processes
enum { E_ADV, E_UNADV, E_FOUND, E_NONE };
struct Rec {
  int what, svc, server, queue, grp;
  double t0, t1;
};
struct Log {
  std::atomic<int> n;
  int msqid, bad;
  char text[200];
  Rec rec[3000];
};
struct Shm {
  std::atomic<int> ready, go, phase, done;
  Log logs[12];
};
static Shm *shm;

static tuxconfig big_cfg(Rng &r) {
  tuxconfig c;
  memset(&c, 0, sizeof c);
  c.ipckey = 0x46000000 + (int)r.u(0xffffff);
  c.maxservers = 12;
  c.maxservices = 8;
  c.maxgroups = 4;
  c.maxqueues = 12;
  c.maxaccessers = 12;
  return c;
}
static int sysv(const char *what) {
  std::ifstream f(string("/proc/sysvipc/") + what);
  string l;
  int n = -1;
  while (std::getline(f, l)) n++;
  return n;
}
static void ipc_clean(int shm0, int sem0, int msg0, const char *when) {
  if (!getenv("VERIF_NS")) return;  // not our own namespace: others may come and go
  int a = sysv("shm"), b = sysv("sem"), c = sysv("msg");
  if (a > shm0 || b > sem0 || c > msg0) viol("ipc-left", fmt("%d segments, %d semaphores, %d queues left %s", a - shm0, b - sem0, c - msg0, when));
}

static void fail_child(Log &l, const string &s) {
  l.bad = 1;
  snprintf(l.text, sizeof l.text, "%s", s.c_str());
  shm->done++;
  _exit(0);
}
static void wait_all(std::vector<pid_t> &pids, double limit) {
  double t0 = now();
  for (auto &p : pids) {
    int st;
    while (waitpid(p, &st, WNOHANG) != p) {
      if (now() - t0 > limit) {
        for (auto k : pids)
          if (k > 0) kill(k, SIGKILL), waitpid(k, nullptr, 0);
        viol("stuck", fmt("a process did not finish within %.0f s", limit));
      }
      usleep(300);
    }
    p = -1;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      for (auto k : pids)
        if (k > 0) kill(k, SIGKILL);
      _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
    }
  }
}

static void conc(Rng &r) {
  if (!shm) shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int shm0 = sysv("shm"), sem0 = sysv("sem"), msg0 = sysv("msg");
  auto cfg = big_cfg(r);
  int np = 2 + r.u(6), nsvc = 1 + r.u(4), nops = 60 + r.u(500);
  int shared_q = r.u(3);  // how many servers share a queue
  shm->ready = shm->go = shm->phase = shm->done = 0;
  for (auto &l : shm->logs) l.n = 0, l.bad = 0, l.msqid = -1;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < np; i++) seeds.push_back(r.next());
  std::vector<pid_t> pids;
  fflush(stdout);
  cur_op() = "conc";
  for (int i = 0; i < np; i++) {
    pid_t p = fork();
    if (p == 0) {
      Rng g(seeds[i]);
      Log &l = shm->logs[i];
      shm->ready++;
      while (!shm->go) sched_yield();
      try {
        mib m(cfg);
        size_t srv, q;
        {
          auto lock = m.data_lock();
          srv = m.make_server(i + 1, 1 + i % 3, fmt("srv%d", i), "-A", i < shared_q ? "shared" : fmt("q%d", i));
          m.make_service_rqaddr(srv);
          q = m.servers().at(srv).rqaddr;
          l.msqid = m.queues().at(q).msqid;
        }
        shm->phase++;
        while (shm->phase < np) sched_yield();
        service_repository repo(m);
        std::vector<bool> on(nsvc);
        int acc = -1;
        auto name = [](int s) { return fmt("SVC%d", s); };
        for (int k = 0; k < nops && l.n < 2900; k++) {
          Rec e = {};
          int op = g.u(10);
          e.svc = g.u(nsvc);
          e.server = i;
          e.queue = l.msqid;
          e.grp = 1 + i % 3;
          if (op < 2) {
            e.what = on[e.svc] ? E_UNADV : E_ADV;
            e.t0 = now();
            {
              auto lock = m.data_lock();
              if (on[e.svc])
                m.unadvertise(name(e.svc), q, srv);
              else
                m.advertise(name(e.svc), q, srv);
            }
            e.t1 = now();
            on[e.svc] = !on[e.svc];
            l.rec[l.n] = e;
            l.n++;
          } else if (op < 9) {
            e.grp = g.p(60) ? -1 : 1 + (int)g.u(3);
            e.t0 = now();
            try {
              e.queue = repo.get_queue(e.grp, name(e.svc).c_str());
              e.what = E_FOUND;
            } catch (std::out_of_range &) {
              e.what = E_NONE;
            }
            e.t1 = now();
            l.rec[l.n] = e;
            l.n++;
          } else if (acc == -1) {
            auto lock = m.data_lock();
            acc = m.make_accesser(getpid());
          } else {
            auto lock = m.data_lock();
            if (m.accessers().at(acc).pid != getpid()) fail_child(l, fmt("client slot %d of %d holds %d", acc, getpid(), m.accessers().at(acc).pid));
            m.accessers().at(acc).invalidate();
            acc = -1;
          }
          if (g.p(5)) usleep(g.u(200));
        }
        shm->phase++;
        while (shm->phase < 2 * np) usleep(100);
        // nothing changes any more: everyone sees the same
        std::map<string, std::set<std::pair<size_t, size_t>>> adv;
        {
          auto lock = m.data_lock();
          for (size_t k = 0; k < m.advertisements()->len; k++) {
            auto &a = m.advertisements().at(k);
            if (a.service == m.badoff) continue;
            if (!adv[m.services().at(a.service).servicename].insert({a.queue, a.server}).second) fail_child(l, "advertised twice");
          }
          if (m.servers()->len != (size_t)np) fail_child(l, fmt("%zu servers instead of %d", m.servers()->len, np));
          if (m.services()->len > (size_t)nsvc) fail_child(l, fmt("%zu services instead of %d", m.services()->len, nsvc));
          if (acc != -1) m.accessers().at(acc).invalidate();
        }
        for (int s = 0; s < nsvc; s++) {
          bool mine = adv[name(s)].count({q, srv});
          if (mine != on[s]) fail_child(l, fmt("%s of server %d is %s", name(s).c_str(), i, mine ? "listed though withdrawn" : "not listed though advertised"));
        }
        shm->phase++;
        while (shm->phase < 3 * np) usleep(100);
        if (i == 0) {
          for (size_t k = 0; k < m.accessers()->len; k++)
            if (m.accessers().at(k).valid()) fail_child(l, "a client entry remains");
          m.remove();
        }
      } catch (std::exception &x) {
        fail_child(l, string("unexpected: ") + x.what());
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  while (shm->ready < np) usleep(100);
  shm->go = 1;
  // a process that gave up leaves the others waiting
  double t0 = now();
  while (now() - t0 < 60 && !shm->done) {
    bool all = true;
    for (auto p : pids) {
      siginfo_t si = {};
      waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT);
      if (!si.si_pid) all = false;
      else if (si.si_code != CLD_EXITED || si.si_status != 0) { all = true; for (auto k : pids) kill(k, SIGKILL); int st; for (auto k : pids) waitpid(k, &st, 0); _exit(98); }
    }
    if (all) break;
    usleep(500);
  }
  if (shm->done) {
    usleep(1000);
    for (auto p : pids) kill(p, SIGKILL);
    for (auto p : pids) waitpid(p, nullptr, 0);
    try {
      mib m(cfg);
      m.remove();
    } catch (std::exception &) {
    }
    for (int i = 0; i < np; i++)
      if (shm->logs[i].bad) viol("registry", shm->logs[i].text);
  }
  wait_all(pids, 30);
  ipc_clean(shm0, sem0, msg0, "after removal");
  // ------------------------------------------------ record
  struct Span {
    double a0, a1, u0, u1;
    int queue, grp, server;
  };
  std::vector<std::vector<Span>> spans(nsvc);
  long found = 0, none = 0, changes = 0;
  for (int i = 0; i < np; i++) {
    Log &l = shm->logs[i];
    std::vector<int> open(nsvc, -1);
    for (int k = 0; k < l.n; k++) {
      Rec &e = l.rec[k];
      if (e.what == E_ADV) {
        open[e.svc] = spans[e.svc].size();
        spans[e.svc].push_back({e.t0, e.t1, 1e18, 1e18, e.queue, e.grp, i});
        changes++;
      } else if (e.what == E_UNADV) {
        auto &s = spans[e.svc][open[e.svc]];
        s.u0 = e.t0;
        s.u1 = e.t1;
        changes++;
      }
    }
  }
  uint64_t h = 0;
  for (int i = 0; i < np; i++) {
    Log &l = shm->logs[i];
    for (int k = 0; k < l.n; k++) {
      Rec &e = l.rec[k];
      if (e.what == E_FOUND) {
        bool ok = false;
        for (auto &s : spans[e.svc])
          if (s.queue == e.queue && (e.grp == -1 || s.grp == e.grp) && s.a0 <= e.t1 && s.u1 >= e.t0) ok = true;
        if (!ok) viol("found-withdrawn", fmt("service %d found on queue %d (group %d) while no server advertised it there", e.svc, e.queue, e.grp));
        found++;
        h = h * 31 + e.queue;
      } else if (e.what == E_NONE) {
        for (auto &s : spans[e.svc])
          if ((e.grp == -1 || s.grp == e.grp) && s.a1 <= e.t0 && s.u0 >= e.t1) viol("not-found", fmt("service %d not found (group %d) while server %d advertised it all the time", e.svc, e.grp, s.server));
        none++;
        h = h * 31 + 7;
      }
    }
  }
  count("conc_found", found);
  count("conc_none", none);
  count("conc_changes", changes);
  distinct("interleaving", fmt("%lx", (unsigned long)h));
  sample(fmt("%d processes, %d services: %ld changes, %ld lookups found, %ld did not", np, nsvc, changes, found, none));
}

// ---------------------------------------------------------------- loading together
static void attach(Rng &r) {
  if (!shm) shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int shm0 = sysv("shm"), sem0 = sysv("sem"), msg0 = sysv("msg");
  int ng = 1 + r.u(4), nsrv = 1 + r.u(12), np = 2 + r.u(8);
  bool broken = r.p(25);
  auto cfg = big_cfg(r);
  cfg.maxservers = nsrv + 1 + r.u(5);
  cfg.maxqueues = nsrv + 1;
  cfg.maxgroups = ng + r.u(3);
  if (broken) {
    if (r.p(50))
      cfg.maxservers = 1 + r.u(nsrv);
    else
      cfg.maxqueues = 1 + r.u(nsrv);
  }
  string file = fmt("tux%d", getpid());
  char cwd[512];
  if (!getcwd(cwd, sizeof cwd)) _exit(96);
  file = string(cwd) + "/" + file;
  std::ostringstream u;
  u << "*RESOURCES\nMASTER m\nMODEL SHM\nIPCKEY " << cfg.ipckey << "\n*MACHINES\n\"box\" LMID=m APPDIR=\"/x\" TUXCONFIG=\"" << file << "\" TUXDIR=\"/y\"\n*GROUPS\n";
  for (int i = 0; i < ng; i++) u << "GRP" << i << " LMID=m GRPNO=" << i + 1 << "\n";
  u << "*SERVERS\n";
  for (int i = 0; i < nsrv; i++) u << "server" << i << " SRVGRP=GRP" << i % ng << " SRVID=" << i + 1 << " CLOPT=\"-A\"\n";
  u << "*SERVICES\n";
  cfg.size = sizeof(cfg) + u.str().size();
  {
    std::ofstream f(file, std::ios::binary);
    f.write((char *)&cfg, sizeof cfg);
    f << u.str();
  }
  setenv("TUXCONFIG", file.c_str(), 1);
  shm->ready = shm->go = shm->done = shm->phase = 0;
  for (auto &l : shm->logs) l.n = 0, l.bad = 0;
  std::vector<pid_t> pids;
  fflush(stdout);
  cur_op() = "attach";
  for (int i = 0; i < np; i++) {
    pid_t p = fork();
    if (p == 0) {
      Log &l = shm->logs[i];
      shm->ready++;
      while (!shm->go) sched_yield();
      if (i & 1) usleep(i * 7);
      try {
        mib &m = getmib();
        l.n = m.servers()->len + 100 * m.groups()->len;
        for (int k = 0; k < nsrv; k++) {
          size_t at = m.find_server(k + 1, 1 + k % ng);
          if (at == m.badoff || string("server") + std::to_string(k) != m.servers().at(at).servername) {
            l.bad = 1;
            snprintf(l.text, sizeof l.text, "server %d of the configuration is missing", k + 1);
          }
        }
      } catch (std::exception &e) {
        l.bad = 2;
        snprintf(l.text, sizeof l.text, "%s", e.what());
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  while (shm->ready < np) usleep(50);
  shm->go = 1;
  wait_all(pids, 60);
  string problem, key;
  for (int i = 0; i < np; i++) {
    Log &l = shm->logs[i];
    if (broken) {
      if (l.bad != 2) key = "half-loaded", problem = fmt("a configuration that does not fit was accepted with %d servers", l.n % 100);
    } else if (l.bad) {
      key = "attach", problem = l.text;
    } else if (l.n != nsrv + 1 + 100 * ng) {
      key = "attach", problem = fmt("%d servers and %d groups loaded instead of %d and %d", l.n % 100, l.n / 100, nsrv + 1, ng);
    }
  }
  if (pid_t p = fork(); p == 0) {
    try {
      if (shmget(cfg.ipckey, 0, 0) != -1) {
        mib m(cfg);
        m.remove();
      }
    } catch (std::exception &) {
    }
    _exit(0);
  } else {
    waitpid(p, nullptr, 0);
  }
  unlink(file.c_str());
  if (!key.empty()) viol(key, problem);
  if (!broken) ipc_clean(shm0, sem0, msg0, "after removal");
  count(broken ? "attach_refused" : "attach_loaded");
  count("attach_processes", np);
  distinct("attach", fmt("%d/%d/%d", ng, nsrv, np));
}

int main(int argc, char **argv) { return run(argc, argv, {{"one", one}, {"conc", conc}, {"attach", attach}}); }
