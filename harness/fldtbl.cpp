// C07: field tables.  Random tables are written as files; names, ids, loading and
// unloading (one and many threads) and generated headers are compared with them.
#include <fml32.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <atomic>
#include <fstream>
#include <set>
#include <thread>
#include "vh.h"
using namespace vh;

static const struct {
  const char *n;
  int t;
} TY[] = {{"short", FLD_SHORT}, {"long", FLD_LONG}, {"char", FLD_CHAR}, {"float", FLD_FLOAT},
          {"double", FLD_DOUBLE}, {"string", FLD_STRING}, {"carray", FLD_CARRAY}, {"fml32", FLD_FML32}};

struct Table {
  std::string dir, name;
  std::vector<std::string> lines;
  std::vector<int> field_line;                 // indexes of lines with fields
  std::vector<std::pair<std::string, FLDID32>> fields;
  std::map<std::string, std::string> raw;      // macros defined by $ lines
  bool last_newline = true;
  std::string text() const {
    std::string s;
    for (size_t i = 0; i < lines.size(); i++) s += lines[i] + (i + 1 < lines.size() || last_newline ? "\n" : "");
    return s;
  }
  void write() const {
    std::ofstream f(dir + "/" + name, std::ios::binary | std::ios::trunc);
    f << text();
  }
};
static std::string base_dir() {
  char b[4096];
  if (!getcwd(b, sizeof b)) exit(96);
  return b;
}
static std::string ws(Rng &r) { return r.p(70) ? "\t" : r.p(50) ? " " : " \t  "; }
static std::string comment(Rng &r) {
  static const char *w[] = {"amount", "# hash", "\"quoted\"", "/* c */", "*base 5", "a\\b", "$x", "end\\", "?" "?/", "\\ ", "%d %s", "\xc3\xa9", "-"};
  std::string s;
  for (int i = 0, n = r.u(4); i < n; i++) s += std::string(" ") + w[r.u(13)];
  return s;
}
static std::string ident(Rng &r, std::set<std::string> &used) {
  for (;;) {
    std::string s(1, "ABCxyzVQ"[r.u(8)]);
    int n = r.p(10) ? 60 : r.p(30) ? 1 + r.u(2) : 2 + r.u(12);
    for (int i = 0; i < n; i++) s += "abcXYZ_0189"[r.u(11)];
    s += fmt("_%d", (int)r.u(1000));
    if (used.insert(s).second) return s;
  }
}
static Table gen(Rng &r, std::set<std::string> &names, std::set<FLDID32> &ids, const std::string &dir, const std::string &name) {
  Table t;
  t.dir = dir;
  t.name = name;
  long base = 0;
  int n = r.p(10) ? 0 : 1 + r.u(r.p(15) ? 200 : 15);
  auto junk = [&] {
    if (!r.p(25)) return;
    switch (r.u(4)) {
      case 0: t.lines.push_back("#" + comment(r)); break;
      case 1: t.lines.push_back(r.p(50) ? "" : " \t"); break;
      case 2: {
        std::string m = fmt("RAW_%d", (int)r.u(100000));
        if (!t.raw.count(m)) {
          t.raw[m] = fmt("%d", (int)r.u(1000));
          t.lines.push_back("$#define " + m + " " + t.raw[m]);
        }
        break;
      }
      default: t.lines.push_back("$/* text */");
    }
  };
  for (int i = 0; i < n; i++) {
    junk();
    if (r.p(15)) {
      base = r.p(20) ? 0xffffff - (long)r.u(300) : r.p(30) ? 0 : (long)r.u(100000);
      t.lines.push_back("*base" + ws(r) + fmt("%ld", base) + (r.p(30) ? " # here" : ""));
    }
    int ty = r.u(8);
    long rel = -1;
    for (int k = 0; k < 20; k++) {
      long x = r.p(80) ? (long)r.u(300) : (long)r.u(0xffffff);
      long num = base + x;
      if (num < 1 || num > 0xffffff) continue;
      if (!ids.insert(((FLDID32)TY[ty].t << 24) | num).second) continue;
      rel = x;
      break;
    }
    if (rel < 0) continue;
    std::string id = ident(r, names);
    std::string l = id + ws(r) + fmt(r.p(10) ? "%05ld" : "%ld", rel) + ws(r) + TY[ty].n;
    if (r.p(60)) l += ws(r) + "-" + comment(r);
    t.field_line.push_back(t.lines.size());
    t.lines.push_back(l);
    t.fields.push_back({id, ((FLDID32)TY[ty].t << 24) | (FLDID32)(base + rel)});
  }
  junk();
  t.last_newline = r.p(85);
  return t;
}
struct World {
  std::vector<std::string> dirs;
  std::vector<Table> tabs;     // visible ones
  std::map<std::string, FLDID32> ids;
  std::map<FLDID32, std::string> names;
  std::vector<std::string> all;
};
static void wipe(const std::string &d) {
  for (int i = 0; i < 4; i++) unlink((d + fmt("/t%d", i)).c_str());
}
static World gen_world(Rng &r) {
  World w;
  std::string base = base_dir();
  std::set<std::string> used;
  std::set<FLDID32> uid;
  int nd = 1 + r.u(3), nt = 1 + r.u(4);
  for (int i = 0; i < 3; i++) {
    std::string d = base + fmt("/d%d", i);
    mkdir(d.c_str(), 0755);
    wipe(d);
    if (i < nd) w.dirs.push_back(d);
  }
  std::string ft, fd;
  for (int i = 0; i < nt; i++) {
    std::string n = fmt("t%d", i);
    ft += (i ? "," : "") + n;
    if (nt > 1 && r.p(10)) continue;  // listed but missing
    int d = r.u(nd);
    Table t = gen(r, used, uid, w.dirs[d], n);
    t.write();
    if (d + 1 < nd && r.p(30)) gen(r, used, uid, w.dirs[d + 1], n).write();  // hidden by the first directory
    for (auto &f : t.fields) w.ids[f.first] = f.second, w.names[f.second] = f.first, w.all.push_back(f.first);
    w.tabs.push_back(t);
  }
  for (size_t i = 0; i < w.dirs.size(); i++) fd += (i ? ":" : "") + w.dirs[i];
  setenv("FIELDTBLS32", ft.c_str(), 1);
  setenv("FLDTBLDIR32", fd.c_str(), 1);
  log(fmt("dirs=%d tables=%d fields=%zu", nd, nt, w.ids.size()));
  return w;
}
static char *C(const std::string &s) { return const_cast<char *>(s.c_str()); }

static void look(Rng &r, World &w, int n) {
  std::set<std::string> used;
  for (auto &i : w.ids) used.insert(i.first);
  std::vector<std::pair<char *, std::string>> held;
  for (int k = 0; k < n; k++) {
    int op = r.u(12);
    if (op < 4 && !w.all.empty()) {
      auto &nm = r.pick(w.all);
      log("Fldid32 " + nm);
      FLDID32 id = Fldid32(C(nm));
      if (id != w.ids[nm]) viol("fldid-value", fmt("Fldid32(%s)=%u wanted %u (Ferror32 %d)", nm.c_str(), id, w.ids[nm], Ferror32));
      if (Fmkfldid32(Fldtype32(id), Fldno32(id)) != id) viol("mkfldid", nm);
      count("lookups");
    } else if (op < 8 && !w.all.empty()) {
      FLDID32 id = w.ids[r.pick(w.all)];
      log(fmt("Fname32 %u", id));
      char *p = Fname32(id);
      if (!p || w.names[id] != p) viol("fname-value", fmt("Fname32(%u)=%s wanted %s", id, p ? p : "NULL", w.names[id].c_str()));
      held.push_back({p, w.names[id]});
      count("lookups");
    } else if (op == 8) {
      std::string nm = r.p(50) && !w.all.empty() ? r.pick(w.all) + "x" : ident(r, used);
      if (w.ids.count(nm)) continue;
      log("Fldid32 unknown " + nm);
      FLDID32 id = Fldid32(C(nm));
      if (id != BADFLDID || Ferror32 != FBADNAME) viol("unknown-name", fmt("Fldid32(%s)=%u Ferror32 %d", nm.c_str(), id, Ferror32));
      count("unknown");
    } else if (op == 9) {
      FLDID32 id = (TY[r.u(8)].t << 24) | r.u(0x1000000);
      if (r.p(20)) id = (FLDID32)r.next();
      if (r.p(30) && !w.all.empty()) id = w.ids[r.pick(w.all)] ^ (1u << r.u(28));
      if (w.names.count(id)) continue;
      log(fmt("Fname32 unknown %u", id));
      char *p = Fname32(id);
      if (p || Ferror32 != FBADFLD) viol("unknown-id", fmt("Fname32(%u)=%s Ferror32 %d", id, p ? p : "NULL", Ferror32));
      count("unknown");
    } else if (op == 10) {
      // ids of unloaded names are gone, the names handed out stay until their own table is unloaded
      log("Fnmid_unload32");
      Fnmid_unload32();
      count("unloads");
    } else {
      for (auto &h : held)
        if (h.second != h.first) viol("name-changed", "name returned by Fname32 changed to " + esc(h.first));
      held.clear();
      log("Fidnm_unload32");
      Fidnm_unload32();
      count("unloads");
    }
  }
  for (auto &h : held)
    if (h.second != h.first) viol("name-changed", "name returned by Fname32 changed to " + esc(h.first));
}

static int sh(const std::string &cmd) {
  int rc = system(cmd.c_str());
  return WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + WTERMSIG(rc);
}
static std::string slurp(const std::string &p) {
  std::ifstream f(p);
  return std::string(std::istreambuf_iterator<char>(f), {});
}

// line number (1-based) damaged, text
static bool damage(Rng &r, Table &t, int *line, std::string *what) {
  if (t.field_line.empty()) return false;
  int li = t.field_line[r.u(t.field_line.size())];
  *line = li + 1;
  switch (r.u(9)) {
    case 0: t.lines[li] = "BAD_ONE"; *what = "name only"; break;
    case 1: t.lines[li] = "BAD_ONE\t12"; *what = "no type"; break;
    case 2: t.lines[li] = "BAD_ONE\t12\tstrong\t-\tx"; *what = "unknown type"; break;
    case 3: t.lines[li] = "BAD_ONE\tx12\tlong"; *what = "no number"; break;
    case 4: t.lines[li] = "!BAD\t12\tlong"; *what = "bad start"; break;
    case 5: t.lines[li] = fmt("BAD_ONE\t%llu\tlong", 0x1000000ull + r.u(1ull << (r.u(60)))); *what = "number too large"; break;
    case 6: t.lines.insert(t.lines.begin() + li, "*bass\t100"); *what = "bad base"; break;
    case 7: t.lines.insert(t.lines.begin() + li, "*base"); *what = "base without number"; break;
    default: t.lines.insert(t.lines.begin() + li, "BAD_ONE\t-5\tlong"); *what = "negative number";
  }
  return true;
}

static void tables(Rng &r) {
  Fnmid_unload32();
  Fidnm_unload32();
  World w = gen_world(r);
  Fnmid_unload32();
  Fidnm_unload32();
  look(r, w, 20 + r.u(60));
  count("tables", w.tabs.size());
  distinct("world", fmt("%zu-%zu-%zu", w.dirs.size(), w.tabs.size(), w.ids.size()));
  static int hdr = 0;
  const char *mk = getenv("MKFLDHDR32");
  // ---- generated headers
  if (mk && !w.tabs.empty() && r.p(8)) {
    const Table &t = r.pick(w.tabs);
    std::string out = base_dir() + "/out";
    mkdir(out.c_str(), 0755);
    std::string h = out + "/" + t.name + ".h";
    unlink(h.c_str());
    bool rel = r.p(40);
    std::string cmd = rel ? "cd " + t.dir + " && " + mk + " -d " + out + " " + t.name : std::string(mk) + " -d " + out + " " + t.dir + "/" + t.name;
    log(cmd);
    cur_op() = "mkfldhdr32";
    int rc = sh(cmd + " >" + out + "/msg 2>&1");
    if (rc != 0) viol("header-refused", fmt("mkfldhdr32 exit %d: ", rc) + esc(slurp(out + "/msg")));
    struct stat st;
    if (stat(h.c_str(), &st) != 0) viol("header-missing", h);
    rc = sh("cpp -w -undef -dM " + h + " >" + out + "/macros 2>" + out + "/msg");
    if (rc != 0) viol("header-does-not-preprocess", esc(slurp(out + "/msg")));
    std::ifstream f(out + "/macros");
    std::string l;
    std::map<std::string, std::string> m;
    while (std::getline(f, l)) {
      char a[256], b[256] = "";
      if (sscanf(l.c_str(), "#define %255s %255[^\n]", a, b) >= 1 && a[0] != '_') m[a] = b;
    }
    for (auto &fl : t.fields) {
      unsigned long v = 0;
      auto it = m.find(fl.first);
      if (it == m.end()) viol("header-id-missing", fl.first + " not defined");
      const char *p = it->second.c_str();
      while (*p && !isdigit(*p)) {
        if (!strncmp(p, "FLDID32", 7)) p += 7; else p++;
      }
      v = strtoul(p, 0, 0);
      if (v != fl.second) viol("header-id", fmt("%s defined as %s, id is %u", fl.first.c_str(), it->second.c_str(), fl.second));
      m.erase(it);
      count("header_ids");
    }
    for (auto &x : t.raw) {
      if (!m.count(x.first) || m[x.first] != x.second) viol("header-raw", "line $#define " + x.first + " not copied");
      m.erase(x.first);
    }
    for (auto &x : m)
      if (x.first.compare(0, 7, "FLDID32") != 0) viol("header-extra", "header defines " + x.first);
    // it has to be a C header: ids usable as constants
    if (hdr++ % 4 == 0) {
      std::ofstream c(out + "/x.c");
      c << "typedef unsigned int FLDID32;\n#include \"" << h << "\"\nunsigned int v[] = {0";
      for (auto &fl : t.fields) c << "," << fl.first;
      c << "};\n";
      c.close();
      rc = sh("gcc -w -fsyntax-only " + out + "/x.c 2>" + out + "/msg");
      if (rc != 0) viol("header-does-not-compile", esc(slurp(out + "/msg"), 300));
      count("headers_compiled");
    }
    count("headers");
  }
  // ---- a malformed table
  if (r.p(35) && !w.tabs.empty()) {
    size_t ti = r.u(w.tabs.size());
    Table good = w.tabs[ti], bad = good;
    int line;
    std::string what;
    if (damage(r, bad, &line, &what)) {
      bad.write();
      Fnmid_unload32();
      Fidnm_unload32();
      log("malformed: " + what + fmt(" line %d", line));
      for (int k = 0; k < 3; k++) {
        bool byname = r.p(50);
        if (byname) {
          FLDID32 id = Fldid32(C(r.pick(w.all)));
          if (id != BADFLDID || Ferror32 == 0) viol("malformed-accepted", "Fldid32 found a field although a table is malformed: " + what);
        } else {
          char *p = Fname32(w.ids[r.pick(w.all)]);
          if (p || Ferror32 == 0) viol("malformed-accepted", "Fname32 found a field although a table is malformed: " + what);
        }
        if (Ferror32 != FFTSYNTAX) viol("malformed-error", fmt("Ferror32 %d for a malformed table (%s)", Ferror32, what.c_str()));
      }
      count("malformed");
      distinct("damage", what);
      if (mk && r.p(15)) {
        std::string out = base_dir() + "/out";
        mkdir(out.c_str(), 0755);
        std::string h = out + "/" + bad.name + ".h";
        { std::ofstream(h) << "old\n"; }
        int rc = sh(std::string(mk) + " -d " + out + " " + bad.dir + "/" + bad.name + " >" + out + "/msg 2>&1");
        std::string msg = slurp(out + "/msg");
        if (rc == 0 || rc >= 1000) viol("malformed-header-status", fmt("mkfldhdr32 exit %d for ", rc) + what);
        bool named = false;
        for (size_t p = 0; p < msg.size(); p++)
          if (isdigit(msg[p]) && (p == 0 || !isdigit(msg[p - 1])) && atol(msg.c_str() + p) == line) named = true;
        if (!named) viol("malformed-line", fmt("line %d (%s) not named: ", line, what.c_str()) + esc(msg));
        if (slurp(h) != "old\n") viol("malformed-header-written", "header changed by a malformed table");
        count("malformed_headers");
      }
      good.write();
      look(r, w, 10);  // recovers when the table does
    }
  }
  Fnmid_unload32();
  Fidnm_unload32();
  static int k = 0;
  if (k++ == 0) sample(fmt("%zu fields, first table:\n", w.ids.size()) + (w.tabs.empty() ? "" : esc(w.tabs[0].text(), 150)));
}

static void threads(Rng &r) {
  Fnmid_unload32();
  Fidnm_unload32();
  World w = gen_world(r);
  if (w.all.empty()) return;
  Fnmid_unload32();
  Fidnm_unload32();
  int T = 2 + r.u(6);
  int unl = r.u(4);  // 0: none, 1: ids of names, 2: both, 3: only names
  std::atomic<int> ready{0}, left{T};
  std::atomic<bool> go{false};
  std::vector<std::string> bad(T + 1);
  std::vector<std::thread> th;
  std::vector<uint64_t> seeds;
  for (int t = 0; t <= T; t++) seeds.push_back(r.next());
  int N = 40 + r.u(100);
  log(fmt("threads=%d unload=%d", T, unl));
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      Rng q(seeds[t]);
      ready++;
      while (!go) {}
      for (int i = 0; i < N && bad[t].empty(); i++) {
        auto &nm = w.all[q.u(w.all.size())];
        FLDID32 want = w.ids.find(nm)->second;
        switch (q.u(4)) {
          case 0:
          case 1: {
            FLDID32 id = Fldid32(C(nm));
            if (id != want) bad[t] = fmt("Fldid32(%s)=%u wanted %u Ferror32 %d", nm.c_str(), id, want, Ferror32);
            break;
          }
          case 2: {
            char *p = Fname32(want);
            if (!p) bad[t] = fmt("Fname32(%u)=NULL Ferror32 %d", want, Ferror32);
            else if (unl < 2 && nm != p) bad[t] = fmt("Fname32(%u)=%s", want, p);
            break;
          }
          default: {
            bool b = q.p(50);
            std::string u = nm + "?";
            FLDID32 uid = (9u << 28) | (want & 0xffffff);
            if (b ? Fldid32(C(u)) != BADFLDID : Fname32(uid) != nullptr) bad[t] = "unknown found";
            else if (Ferror32 != (b ? FBADNAME : FBADFLD)) bad[t] = fmt("unknown gives Ferror32 %d", Ferror32);
          }
        }
      }
      left--;
    });
  std::thread u([&] {
    Rng q(seeds[T]);
    while (!go) {}
    while (left > 0) {
      if (unl == 1 || unl == 2) Fnmid_unload32();
      if (unl == 2 || unl == 3) Fidnm_unload32();
      if (unl == 0) usleep(50); else if (q.p(80)) usleep(q.u(60));
      count("thread_unloads", unl != 0);
    }
  });
  while (ready < T) {}
  go = true;
  for (auto &t : th) t.join();
  u.join();
  for (auto &b : bad)
    if (!b.empty()) viol("threads", b);
  count("thread_lookups", (long)T * N);
  distinct("threads", fmt("%d-%d", T, unl));
}

int main(int argc, char **argv) { return run(argc, argv, {{"tables", tables}, {"threads", threads}}); }
