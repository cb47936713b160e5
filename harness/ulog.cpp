// C20: userlog.  The wall clock is ours (real time plus an offset), every call's
// effect on the directory is compared with the one line it has to append; the
// concurrent mode records what every writer wrote and checks the files afterwards.
#include <dirent.h>
#include <errno.h>
#include <regex.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>
#include <thread>
#include <userlog.h>
#include <atmi.h>
#include "vh.h"
using namespace vh;

struct Shared {
  std::atomic<long long> off;  // microseconds added to the real time
  std::atomic<int> ready, go;
};
static Shared *shm = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#define clock_off (*(shm ? &shm->off : (shm = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0), &shm->off)))
static long long real_us() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000ll + ts.tv_nsec / 1000;
}
static long long now_us() { return real_us() + clock_off.load(); }
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
  long long t = now_us();
  if (tv) tv->tv_sec = t / 1000000, tv->tv_usec = t % 1000000;
  return 0;
}
extern "C" time_t time(time_t *p) noexcept {
  time_t t = now_us() / 1000000;
  if (p) *p = t;
  return t;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  int rc = syscall(SYS_clock_gettime, id, ts);
  if (rc == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    long long t = now_us();
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
  }
  return rc;
}

static std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static std::map<std::string, std::string> snapshot(const std::string &dir) {
  std::map<std::string, std::string> m;
  DIR *d = opendir(dir.c_str());
  if (!d) return m;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name, p = dir + "/" + n;
    struct stat st;
    if (n == "." || n == ".." || lstat(p.c_str(), &st) != 0) continue;
    if (S_ISREG(st.st_mode)) m[n] = slurp(p);
  }
  closedir(d);
  return m;
}
static int nfds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static void clear_dir(const std::string &dir) {
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name;
    if (n.compare(0, 4, "ULOG") == 0 || n.compare(0, 3, "pfx") == 0) unlink((dir + "/" + n).c_str());
  }
  closedir(d);
}
static std::string datesfx(long long us) {
  time_t t = us / 1000000;
  struct tm tm;
  localtime_r(&t, &tm);
  return fmt("%02d%02d%02d", tm.tm_mon + 1, tm.tm_mday, tm.tm_year % 100);
}
static std::string nodename() {
  struct utsname u;
  uname(&u);
  return u.nodename;
}
static std::string text(Rng &r, size_t n) {
  std::string s(n, ' ');
  int kind = r.u(4);
  for (auto &c : s)
    c = kind == 0 ? 'a' + r.u(26) : kind == 1 ? 32 + r.u(95) : kind == 2 ? (char)(1 + r.u(255)) : 'x';
  if (kind == 2)
    for (auto &c : s)
      if (c == '\n') c = '.';
  return s;
}
static size_t some_len(Rng &r) {
  static const size_t edge[] = {0, 1, 80, 127, 128, 1023, 1024, 4000, 4095, 4096, 4097, 8100, 8150, 8191, 8192, 8193, 12288, 16384, 65536};
  switch (r.u(5)) {
    case 0: return r.u(200);
    case 1: return r.u(5000);
    case 2: return 8192 - r.u(120);
    case 3: return r.u(40000);
    default: return edge[r.u(sizeof edge / sizeof *edge)];
  }
}

// ---- one writer, hostile settings
static void seq(Rng &r) {
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) exit(96);
  std::string base = cwd;
  clear_dir(base);
  mkdir((base + "/sub").c_str(), 0755);
  clear_dir(base + "/sub");
  static const char *tz[] = {"UTC", "EST5EDT", "<+14>-14", "<-12>12", "<+0545>-5:45"};
  setenv("TZ", tz[r.u(5)], 1);
  tzset();
  // some moment between 1971 and 2099, often just before a change of day
  long long t = 31536000ll + (long long)r.u(4070908800ull - 31536000ull);
  if (r.p(40)) {
    time_t tt = t;
    struct tm tm;
    localtime_r(&tt, &tm);
    t += 86400 - (tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec) - 1;
  }
  clock_off = t * 1000000ll + (long long)r.u(1000000) - real_us();
  std::string node = nodename();
  char *saved_proc = proc_name;
  static char pn[3][200] = {"svc", "a.server-name_1", ""};
  if (!pn[2][0]) memset(pn[2], 'p', 150);
  int k = 0;
  for (int i = 0, n = 3 + r.u(12); i < n; i++) {
    std::string dir = base, pfx = "ULOG";
    bool good = true;
    int fault = 0;
    switch (r.u(8)) {
      case 0: unsetenv("ULOGPFX"); break;
      case 1: setenv("ULOGPFX", (pfx = "pfx.x").c_str(), 1); break;
      case 2: setenv("ULOGPFX", (dir = base + "/sub", pfx = "ULOG", dir + "/ULOG").c_str(), 1); break;
      case 3: setenv("ULOGPFX", (base + "/missing/dir/ULOG").c_str(), 1), good = false; break;
      case 4: setenv("ULOGPFX", std::string(300 + r.u(9000), 'q').c_str(), 1), good = false; dir = base; break;
      default: setenv("ULOGPFX", (base + "/ULOG").c_str(), 1);
    }
    if (good && r.p(12) && datesfx(now_us()) == datesfx(now_us() + 60000000ll)) fault = 1 + r.u(3);
    bool ms = false;
    switch (r.u(4)) {
      case 0: unsetenv("ULOGMILLISEC"); break;
      case 1: setenv("ULOGMILLISEC", "n", 1); break;
      default: setenv("ULOGMILLISEC", "y", 1), ms = true;
    }
    proc_name = r.p(70) ? saved_proc : pn[r.u(3)];
    std::string body = text(r, some_len(r));
    auto before = snapshot(dir);
    int fds = nfds();
    long long t0 = now_us();
    std::string full;
    if (fault == 1) {
      // the day's file cannot take data (target is /dev/full)
      full = dir + "/" + pfx + "." + datesfx(t0);
      std::string hold = full + ".hold";
      unlink(full.c_str());
      before = snapshot(dir);
      if (symlink("/dev/full", full.c_str()) != 0) fault = 0;
    }
    struct rlimit rl = {0, 0}, old;
    getrlimit(RLIMIT_NOFILE, &old);
    if (fault == 2) {
      rl = old;
      rl.rlim_cur = 3;
      setrlimit(RLIMIT_NOFILE, &rl);
    }
    if (fault == 3) {
      full = dir + "/" + pfx + "." + datesfx(t0);
      unlink(full.c_str());
      before = snapshot(dir);
      if (mkdir(full.c_str(), 0755) != 0) fault = 0;
    }
    std::string want;
    int rc;
    log(fmt("userlog len=%zu pfx=%.60s ms=%d fault=%d good=%d", body.size(), getenv("ULOGPFX") ? getenv("ULOGPFX") : "-", ms, fault, good));
    cur_op() = "userlog";
    switch (r.u(5)) {
      case 0:
        rc = userlog("%s", body.c_str());
        want = body;
        break;
      case 1: {
        int a = (int)r.next();
        long b = (long)r.next();
        rc = userlog("v=%d %ld [%s] %5.2f%%", a, b, body.c_str(), 3.25);
        want = fmt("v=%d %ld [", a, b) + body + "]  3.25%";
        break;
      }
      case 2: {
        std::string f = body;
        for (auto &c : f)
          if (c == '%') c = '/';
        rc = userlog(f.c_str(), 0);
        want = f;
        break;
      }
      case 3: {
        int w = r.u(20000);
        rc = userlog("%*d|%.*s", w, 7, (int)(body.size() / 2), body.c_str());
        std::string d = "7";
        if ((int)d.size() < w) d = std::string(w - d.size(), ' ') + d;
        want = d + "|" + body.substr(0, body.size() / 2);
        break;
      }
      default: {
        std::string b2 = text(r, some_len(r));
        rc = userlog("%s <%c> %s", body.c_str(), 'c', b2.c_str());
        want = body + " <c> " + b2;
      }
    }
    long long t1 = now_us();
    if (fault == 2) setrlimit(RLIMIT_NOFILE, &old);
    auto after = snapshot(dir);
    count("calls");
    int fds2 = nfds();
    if (fds2 != fds) viol("descriptor-leak", fmt("%d descriptors before, %d after", fds, fds2));
    if (fault == 1) unlink(full.c_str());
    if (fault == 3) rmdir(full.c_str());
    if (fault || !good) {
      count(fault ? fmt("fault_%d", fault) : "unopenable");
      if (rc != -1 && fault != 1) viol("unwritable-log-reported-success", fmt("rc=%d", rc));
      if (after != before) viol("unwritable-log-changed-files", "another file changed");
      continue;
    }
    if (rc != 0) viol("userlog-failed", fmt("rc=%d errno=%d", rc, errno));
    // exactly one file changed, by exactly one line at the end
    std::string changed;
    int nch = 0;
    for (auto &f : after)
      if (!before.count(f.first) || before[f.first] != f.second) changed = f.first, nch++;
    for (auto &f : before)
      if (!after.count(f.first)) viol("file-removed", f.first);
    if (nch != 1) viol("files-changed", fmt("%d files changed", nch));
    std::string s0 = pfx + "." + datesfx(t0), s1 = pfx + "." + datesfx(t1);
    if (changed != s0 && changed != s1) viol("file-name", "line went to " + changed + " instead of " + s0);
    std::string old_c = before.count(changed) ? before[changed] : "", new_c = after[changed];
    if (new_c.compare(0, old_c.size(), old_c) != 0) viol("content-changed", "earlier lines changed");
    std::string line = new_c.substr(old_c.size());
    // header: HHMMSS[.mmm].node:proc.pid:
    std::string tail = "." + node + ":" + proc_name + fmt(".%d: ", (int)getpid()) + want + "\n";
    size_t tl = ms ? 10 : 6;
    if (line.size() != tl + tail.size() || line.substr(tl) != tail)
      viol(line.empty() || line.back() != '\n' ? "line-not-terminated"
           : line.size() < tl + tail.size()    ? "line-incomplete"
                                               : "line-text",
           fmt("line of %zu bytes instead of %zu: ", line.size(), tl + tail.size()) + esc(line, 120) + " wanted ..." + esc(tail, 120));
    bool okt = false;
    for (long long s = t0 / 1000000; s <= t1 / 1000000; s++) {
      time_t tt = s;
      struct tm tm;
      localtime_r(&tt, &tm);
      if (line.substr(0, 6) == fmt("%02d%02d%02d", tm.tm_hour, tm.tm_min, tm.tm_sec) && changed == pfx + "." + datesfx(s * 1000000)) {
        if (!ms) okt = true;
        else if (line[6] == '.') {
          long long at = s * 1000 + atoi(line.substr(7, 3).c_str());
          okt = okt || (at >= t0 / 1000 && at <= t1 / 1000);
        }
      }
    }
    if (!okt) viol("line-time", "time " + line.substr(0, tl) + " not between the call's start and end (" + datesfx(t0) + fmt(" %lld..%lld us)", t0, t1));
    count("lines_checked");
    count("bytes_checked", line.size());
    distinct("length_class", fmt("%d", want.empty() ? 0 : 64 - __builtin_clzll(want.size())));
    distinct("shape", fmt("%s-%d-%d", pfx.c_str(), ms, (int)(line.size() > 8192)));
    if (++k == 1) sample(fmt("%s: %s", changed.c_str(), esc(line, 80).c_str()));
  }
  proc_name = saved_proc;
  clear_dir(base);
  clear_dir(base + "/sub");
}

// ---- many processes and threads on one file
static std::string body_of(int p, int t, int i, uint64_t seed) {
  Rng r(seed + p * 1000003ull + t * 7919ull + i * 104729ull);
  size_t n = r.p(50) ? r.u(150) : some_len(r);
  std::string s = fmt("<%d/%d/%d/%zu>", p, t, i, n);
  s += std::string(n, 'a' + r.u(26));
  s += fmt("</%d/%d/%d>", p, t, i);
  return s;
}
static void conc(Rng &r) {
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) exit(96);
  std::string base = cwd;
  clear_dir(base);
  setenv("TZ", "UTC", 1);
  tzset();
  bool midnight = r.p(50);
  long long day = 86400ll * (10000 + r.u(10000));
  shm->ready = shm->go = 0;
  bool ms = r.p(50);
  setenv("ULOGMILLISEC", ms ? "y" : "n", 1);
  setenv("ULOGPFX", (base + "/ULOG").c_str(), 1);
  uint64_t seed = r.next();
  int P = 1 + r.u(5), T = 1 + r.u(4), N = 60;
  std::vector<pid_t> pids;
  log(fmt("P=%d T=%d", P, T));
  for (int p = 0; p < P; p++) {
    pid_t pid = fork();
    if (pid == 0) {
      std::atomic<int> bad{0};
      std::vector<std::thread> th;
      for (int t = 0; t < T; t++)
        th.emplace_back([&, t] {
          shm->ready++;
          while (!shm->go) usleep(100);
          for (int i = 0; i < N; i++) {
            if (userlog("%s", body_of(p, t, i, seed).c_str()) != 0) bad++;
            if (i % 4 == 3) usleep(50);
          }
        });
      for (auto &t : th) t.join();
      _exit(bad ? 3 : 0);
    }
    pids.push_back(pid);
  }
  while (shm->ready < P * T) usleep(100);
  clock_off = (day + (midnight ? 86400 : 43200)) * 1000000ll - (midnight ? 500 + r.u(6000) : 0) - real_us();
  shm->go = 1;
  std::map<int, int> pid2p;
  for (int p = 0; p < P; p++) {
    int st;
    waitpid(pids[p], &st, 0);
    pid2p[pids[p]] = p;
    if (WIFSIGNALED(st)) viol("writer-died", fmt("writer ended by signal %d", WTERMSIG(st)));
    if (WEXITSTATUS(st) == 3) viol("userlog-failed", "userlog returned an error");
    if (WEXITSTATUS(st) != 0) viol("writer-died", fmt("writer exit %d", WEXITSTATUS(st)));
  }
  std::map<std::pair<int, int>, int> last;
  std::string node = nodename();
  long lines = 0, switches = 0;
  int prevpid = -1, nfiles = 0;
  for (auto &f : snapshot(base)) {
    if (f.first.compare(0, 5, "ULOG.") != 0) continue;
    nfiles++;
    std::istringstream in(f.second);
    std::string l;
    if (!f.second.empty() && f.second.back() != '\n') viol("line-not-terminated", "file ends inside a line");
    while (std::getline(in, l)) {
      size_t tl = ms ? 10 : 6;
      std::string head = "." + node + ":" + proc_name + ".";
      int pid = -1, p, t, i;
      size_t n, at = tl + head.size();
      if (l.compare(tl < l.size() ? tl : l.size(), head.size(), head) == 0) pid = atoi(l.c_str() + at);
      if (pid <= 0 || !pid2p.count(pid)) viol("line-mixed", "not a whole line: " + esc(l, 160));
      size_t c = l.find(": ", at);
      if (c == std::string::npos || sscanf(l.c_str() + c + 2, "<%d/%d/%d/%zu>", &p, &t, &i, &n) != 4 || l.substr(c + 2) != body_of(p, t, i, seed))
        viol("line-mixed", "not a whole line: " + esc(l, 160));
      if (pid2p[pid] != p) viol("line-attributed", "line of another process");
      auto key = std::make_pair(p, t);
      int want = last.count(key) ? last[key] + 1 : 0;
      if (i != want) viol(i < want ? "line-repeated" : "line-lost-or-reordered", fmt("writer %d/%d: line %d follows %d", p, t, i, want - 1));
      last[key] = i;
      lines++;
      if (pid != prevpid) switches++;
      prevpid = pid;
    }
  }
  if (lines != (long)P * T * N) viol("line-lost", fmt("%ld lines of %d", lines, P * T * N));
  count("conc_lines", lines);
  count("conc_switches", switches);
  count("conc_runs_over_midnight", nfiles > 1);
  distinct("interleaving", fmt("%d-%d-%ld-%d", P, T, switches, nfiles));
  clear_dir(base);
}

int main(int argc, char **argv) { return run(argc, argv, {{"seq", seq}, {"conc", conc}}); }
