// C08: typed buffers.  A model of a handful of buffers (type, size, content) is
// kept beside the real ones through random histories of the public calls.
#include <fml32.h>
#include <xatmi.h>
#include <limits.h>
#include <memory>
#include <algorithm>
#include "vh.h"
using namespace vh;

struct Slot {
  char *p = nullptr;
  std::string type;
  long size = 0;        // usable bytes
  std::string content;  // plain types: bytes known to be there; FML32: listing
  bool fml() const { return type == "FML32"; }
};
static long defsize(const std::string &t) { return t == "STRING" || t == "FML32" ? 512 : t == "TPINIT" ? (long)TPINITNEED(0) : 0; }

static std::string listing(FBFR32 *f) {
  std::string s;
  FLDID32 id = BADFLDID;
  FLDOCC32 oc = 0;
  std::unique_ptr<char[]> v(new char[70000]);
  for (;;) {
    FLDLEN32 l = 70000;
    int rc = Fnext32(f, &id, &oc, v.get(), &l);
    if (rc == -1) viol("fml-traversal", fmt("Fnext32 fails with %d", Ferror32));
    if (rc == 0) break;
    s += fmt("%u[%d]=", id, oc) + std::string(v.get(), l) + "\n";
  }
  return s;
}
static void fill_fml(Rng &r, Slot &s, int n) {
  auto f = (FBFR32 *)s.p;
  while (n-- > 0) {
    std::string v;
    for (int k = r.in(1, r.p(10) ? 400 : 20); k > 0; k--) v += (char)r.in(1, 255);
    long l = (long)r.next();
    switch (r.u(3)) {
      case 0: Fadd32(f, Fmkfldid32(FLD_STRING, 1 + r.u(3)), (char *)v.c_str(), 0); break;
      case 1: Fadd32(f, Fmkfldid32(FLD_CARRAY, 1 + r.u(3)), (char *)v.data(), v.size()); break;
      default: Fadd32(f, Fmkfldid32(FLD_LONG, 1 + r.u(3)), (char *)&l, 0);
    }
  }
  s.content = listing(f);
}
static void fill(Rng &r, Slot &s, bool whole) {
  if (s.fml()) return fill_fml(r, s, r.in(0, 6));
  long n = s.size == 0 ? 0 : whole ? s.size : r.in(0, s.size);
  if (s.type == "STRING" && n == 0) n = 1;
  s.content.resize(n);
  for (auto &c : s.content) c = (char)(s.type == "STRING" ? r.in(1, 255) : r.in(0, 255));
  if (s.type == "STRING") s.content[n - 1] = '\0';
  memcpy(s.p, s.content.data(), n);
}
static void verify(const Slot &s, const char *what) {
  char type[9] = {}, sub[17] = {};
  memset(type, 'q', 8);
  memset(sub, 'q', 16);
  long tn = tptypes(s.p, type, sub);
  if (tn == -1) viol("tptypes", fmt("%s: tptypes fails with %d on a %s", what, tperrno, s.type.c_str()));
  if (tn < s.size) viol("tptypes-size", fmt("%s: tptypes says %ld for a buffer of %ld", what, tn, s.size));
  if (s.type != type) viol("type", fmt("%s: type %s, expected %s", what, esc(type).c_str(), s.type.c_str()));
  if (std::string(sub) != "" && std::string(sub) != "*") viol("subtype", fmt("%s: subtype '%s'", what, esc(sub).c_str()));
  if (s.fml()) {
    auto f = (FBFR32 *)s.p;
    if (Fsizeof32(f) < s.size - 8 || Fsizeof32(f) > s.size + 8) viol("fml-size", fmt("%s: Fsizeof32 %ld for a buffer of %ld", what, Fsizeof32(f), s.size));
    auto l = listing(f);
    if (l != s.content) viol("content", fmt("%s: FML32 content changed", what));
  } else if (memcmp(s.p, s.content.data(), s.content.size()) != 0) {
    size_t i = 0;
    while (s.p[i] == s.content[i]) i++;
    viol("content", fmt("%s: %s content differs at byte %zu of %zu", what, s.type.c_str(), i, s.content.size()));
  }
}
// every byte is ours
static void touch(Slot &s) {
  if (s.fml()) {
    auto f = (FBFR32 *)s.p;
    for (long i = Fused32(f); i < Fsizeof32(f); i++) s.p[i] = 0;
    return;
  }
  for (long i = (long)s.content.size(); i < s.size; i++) s.p[i] = (char)0xA5;
}

static std::string b64(const std::string &s) {
  static const char e[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    unsigned n = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
    o += e[n >> 18]; o += e[n >> 12 & 63]; o += e[n >> 6 & 63]; o += e[n & 63];
  }
  if (i + 1 == s.size()) {
    unsigned n = (unsigned char)s[i] << 16;
    o += e[n >> 18]; o += e[n >> 12 & 63]; o += "==";
  } else if (i + 2 == s.size()) {
    unsigned n = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8;
    o += e[n >> 18]; o += e[n >> 12 & 63]; o += e[n >> 6 & 63]; o += '=';
  }
  return o;
}

static std::string do_export(const Slot &s, long len, long flags, const char *what) {
  // ask for the size first
  char one = 'z';
  long need = 0;
  cur_op() = "tpexport";
  if (tpexport(s.p, len, &one, &need, flags) != -1 || tperrno != TPELIMIT || one != 'z' || need <= 0)
    viol("export-limit", fmt("%s: tpexport into 0 bytes: tperrno %d, olen %ld", what, tperrno, need));
  long less = need - 1;
  std::unique_ptr<char[]> small(new char[need - 1 + (need == 1)]);
  if (tpexport(s.p, len, small.get(), &less, flags) != -1 || tperrno != TPELIMIT || less != need)
    viol("export-limit", fmt("%s: tpexport into %ld of %ld bytes", what, need - 1, need));
  std::unique_ptr<char[]> box(new char[need]);
  long got = need;
  if (tpexport(s.p, len, box.get(), &got, flags) == -1 || got != need)
    viol("export", fmt("%s: tpexport fails with %d, %ld bytes of %ld", what, tperrno, got, need));
  if (flags & TPEX_STRING) {
    if (box[need - 1] != '\0' || strlen(box.get()) != (size_t)need - 1) viol("export-nul", what);
    return std::string(box.get(), need - 1);
  }
  return std::string(box.get(), need);
}

static std::string sizes(Rng &) { return ""; }

static void mode_mem(Rng &r) {
  std::vector<Slot> sl(3);
  static const std::vector<std::string> types{"STRING", "CARRAY", "FML32", "TPINIT"};
  auto any_size = [&](int k) -> long {
    switch (k) {
      case 0: return 0;
      case 1: return r.in(1, 64);
      case 2: return r.in(500, 530);
      case 3: return r.in(1, 4000);
      default: return r.in(1, 70000);
    }
  };
  auto alloc = [&](Slot &s) {
    s = Slot();
    s.type = r.p(10) ? "TPINIT" : types[r.u(3)];
    long ask = any_size(r.u(5));
    static char star[] = "*", empty[] = "";
    char *sub = r.p(33) ? nullptr : r.p(50) ? star : empty;
    char tn[9];
    strcpy(tn, s.type.c_str());
    cur_op() = "tpalloc";
    s.p = tpalloc(tn, sub, ask);
    log(fmt("tpalloc %s %ld", tn, ask));
    if (!s.p) viol("tpalloc", fmt("%s of %ld bytes fails with %d", tn, ask, tperrno));
    if ((uintptr_t)s.p % 8) viol("alignment", tn);
    s.size = std::max(ask, defsize(s.type));
    if (s.fml()) s.content = listing((FBFR32 *)s.p);
    if (s.fml() && !s.content.empty()) viol("fml-not-empty", tn);
    if (!s.fml()) fill(r, s, r.p(50));
    else fill_fml(r, s, r.in(0, 6));
    verify(s, "tpalloc");
    count("allocs");
  };
  for (auto &s : sl) alloc(s);
  int steps = r.in(8, 40);
  for (int st = 0; st < steps; st++) {
    Slot &s = sl[r.u(sl.size())];
    int k = r.u(100);
    if (k < 10) {
      cur_op() = "tpfree";
      tpfree(s.p);
      log("tpfree");
      alloc(s);
    } else if (k < 20) {
      if (s.fml()) Finit32((FBFR32 *)s.p, Fsizeof32((FBFR32 *)s.p)), s.content.clear();
      fill(r, s, r.p(50));
      verify(s, "write");
    } else if (k < 45) {
      long ask = r.p(5) ? -r.in(1, 9) : any_size(r.u(5));
      long ns = std::max(ask, defsize(s.type));
      cur_op() = "tprealloc";
      log(fmt("tprealloc %s %ld -> %ld", s.type.c_str(), s.size, ask));
      long used = s.fml() ? Fused32((FBFR32 *)s.p) : 0;
      char *np = tprealloc(s.p, ask);
      count("reallocs");
      if (s.fml() && used > ns) {
        if (np) viol("realloc-below-used", fmt("%ld bytes used, reallocated to %ld", used, ns));
        verify(s, "refused tprealloc");
        continue;
      }
      if (!np) viol("tprealloc", fmt("%s to %ld fails with %d", s.type.c_str(), ask, tperrno));
      s.p = np;
      s.size = ns;
      if (!s.fml() && (long)s.content.size() > ns) {
        s.content.resize(ns);
        verify(s, "tprealloc");
        if (s.type == "STRING") { s.content[ns - 1] = '\0'; s.p[ns - 1] = '\0'; }
      }
      verify(s, "tprealloc");
      touch(s);
      distinct("realloc", fmt("%s:%d:%d", s.type.c_str(), (int)(ask > 0 ? __builtin_clzl(ask) : 99), ask < ns));
    } else if (k < 80) {
      // export one, import into another
      Slot &d = sl[r.u(sl.size())];
      if (s.type == "TPINIT") continue;
      long len = s.type == "CARRAY" ? (long)s.content.size() : r.p(50) ? 0 : r.in(0, 100);
      auto bin = do_export(s, len, 0, s.type.c_str());
      auto txt = do_export(s, len, TPEX_STRING, s.type.c_str());
      verify(s, "tpexport");
      if (txt != b64(bin)) viol("base64", "string form is not the base64 of the binary form");
      bool str = r.p(50);
      std::string form = str ? txt : bin;
      bool damaged = r.p(30);
      bool accepted_any = false;
      if (damaged) {
        int n = r.in(1, 3);
        while (n-- > 0) {
          size_t at = form.empty() ? 0 : r.p(60) ? r.u(std::min<size_t>(form.size(), 48)) : r.u(form.size());
          switch (r.u(4)) {
            case 0: form.resize(at); break;
            case 1: if (at < form.size()) form[at] = (char)r.in(1, 255); break;
            case 2: if (at < form.size()) form[at] ^= 1 << r.u(8); break;
            case 3: form.insert(at, 1, str ? (r.p(50) ? '=' : 'A') : (char)r.in(0, 255)); break;
          }
        }
        if (str) form = form.c_str();
      }
      std::unique_ptr<char[]> box(new char[form.size() + 1]);
      memcpy(box.get(), form.data(), form.size());
      if (str) box[form.size()] = '\0';
      // binary input ends exactly at the red zone
      std::unique_ptr<char[]> exact;
      char *in = box.get();
      if (!str) {
        if (form.empty()) continue;
        exact.reset(new char[form.size()]);
        memcpy(exact.get(), form.data(), form.size());
        in = exact.get();
      }
      long ol = -7;
      bool self = &d == &s;
      Slot before = d;
      cur_op() = "tpimport";
      log(fmt("tpimport %s%s %s %zu bytes into %s of %ld", damaged ? "damaged " : "", str ? "string" : "binary", s.type.c_str(), form.size(), d.type.c_str(), d.size));
      int rc = tpimport(in, str ? 0 : (long)form.size(), &d.p, r.p(20) ? nullptr : &ol, str ? TPEX_STRING : 0);
      count(damaged ? "imports_damaged" : "imports");
      if (!damaged) {
        if (rc == -1) viol("import", fmt("tpimport of a %s fails with %d", s.type.c_str(), tperrno));
        long used = (long)bin.size() - 24;
        if (s.type == "CARRAY" && ol != -7 && ol != len) viol("import-length", fmt("olen %ld, expected %ld", ol, len));
        if (s.type == "STRING" && ol != -7 && ol != (long)strlen(s.content.c_str()) + 1) viol("import-length", fmt("olen %ld for a string of %zu", ol, strlen(s.content.c_str())));
        if (ol != -7 && ol <= 0 && s.type != "CARRAY") viol("import-length", fmt("olen %ld", ol));
        if (self) { if (s.type == "STRING") s.content = s.content.c_str(), s.content += '\0'; }
        else {
          d.type = s.type;
          d.content = s.type == "STRING" ? std::string(s.content.c_str()) + '\0' : s.content;
          if (s.type == "FML32") used = Fused32((FBFR32 *)s.p);
          else used = d.content.size();
          d.size = std::max(d.size, used);
        }
        if (d.fml()) {
          // the library may have made more room than needed; touch() below
          // makes sure that it is really there
          if (Fsizeof32((FBFR32 *)d.p) < d.size - 8) viol("fml-size", fmt("tpimport: Fsizeof32 %ld in a buffer of %ld", Fsizeof32((FBFR32 *)d.p), d.size));
          d.size = Fsizeof32((FBFR32 *)d.p);
        }
        verify(d, "tpimport");
        touch(d);
        distinct("import", fmt("%s>%s:%d:%d", s.type.c_str(), before.type.c_str(), str, (int)(form.size() > (size_t)before.size)));
        if (!self) verify(s, "source of tpimport");
      } else if (rc == -1) {
        accepted_any = false;
        if (tperrno != TPEPROTO && tperrno != TPENOENT && tperrno != TPEINVAL) viol("import-error", fmt("damaged import fails with %d", tperrno));
        count("imports_refused");
        verify(d, "refused tpimport");
      } else {
        accepted_any = true;
        // whatever it is now, it has a type and can be freed
        char type[9] = {}, sub[17] = {};
        if (tptypes(d.p, type, sub) == -1) viol("import-untyped", fmt("accepted damaged import has no type (%d)", tperrno));
        if (ol != -7 && (ol < 0 || (ol > 0 && ol > (long)form.size()))) viol("import-length", fmt("damaged: olen %ld of %zu", ol, form.size()));
        if (strcmp(type, "STRING") == 0) {
          volatile size_t n = strlen(d.p);  // inside the buffer, or the red zone tells
          (void)n;
        }
        if (strcmp(type, "FML32") == 0) {
          if (Fused32((FBFR32 *)d.p) > Fsizeof32((FBFR32 *)d.p)) viol("import-overfull", "damaged FML32 image uses more than its size");
        }
        tpfree(d.p);
        alloc(d);
      }
      (void)accepted_any;
    } else if (k < 90) {
      verify(s, "later");
    } else {
      // misuse
      int rcl;
      switch (r.u(7)) {
        case 0: {
          char t[] = "NOTYPE", f[] = "FML32", sub[] = "sub";
          if (tpalloc(t, nullptr, 10) || tperrno != TPENOENT) viol("unknown-type", fmt("tperrno %d", tperrno));
          if (tpalloc(f, sub, 10) || tperrno != TPENOENT) viol("unknown-subtype", fmt("tperrno %d", tperrno));
          if (tpalloc(nullptr, nullptr, 10) || tperrno != TPEINVAL) viol("null-type", fmt("tperrno %d", tperrno));
          break;
        }
        case 1: {
          char c[] = "CARRAY";
          char *h = tpalloc(c, nullptr, r.p(50) ? LONG_MAX : LONG_MAX / 2);
          if (h) viol("huge-alloc", "succeeds");
          if (tperrno != TPEOS) viol("huge-alloc", fmt("tperrno %d", tperrno));
          break;
        }
        case 2: {
          if (s.fml()) break;
          char *h = tprealloc(s.p, LONG_MAX / 2);
          if (h) viol("huge-realloc", "succeeds");
          verify(s, "failed tprealloc");
          break;
        }
        case 3: {
          if (tprealloc(nullptr, 10) || tperrno != TPEINVAL) viol("null-realloc", fmt("tperrno %d", tperrno));
          char t[9], su[17];
          if (tptypes(nullptr, t, su) != -1 || tperrno != TPEINVAL) viol("null-types", fmt("tperrno %d", tperrno));
          tpfree(nullptr);
          break;
        }
        case 4: {
          std::vector<char> foreign(512, (char)(r.p(50) ? 0 : r.in(1, 255)));
          auto copy = foreign;
          char *fp = &foreign[256];
          char t[9] = {}, su[17] = {};
          long ol = 100;
          char ob[128];
          if (tptypes(fp, t, su) != -1) viol("foreign-types", "accepted");
          if (tprealloc(fp, 10)) viol("foreign-realloc", "accepted");
          if (tpexport(fp, 10, ob, &ol, 0) != -1) viol("foreign-export", "accepted");
          tpfree(fp);
          if (foreign != copy) viol("foreign-changed", "");
          break;
        }
        case 5: {
          long ol = 10;
          char ob[10];
          rcl = tpexport(nullptr, 0, ob, &ol, 0);
          if (rcl != -1 || tperrno != TPEINVAL) viol("null-export", "");
          if (tpexport(s.p, 0, nullptr, &ol, 0) != -1 || tperrno != TPEINVAL) viol("null-export", "");
          if (tpexport(s.p, 0, ob, nullptr, 0) != -1 || tperrno != TPEINVAL) viol("null-export", "");
          verify(s, "refused tpexport");
          break;
        }
        case 6: {
          char *np = nullptr;
          char x[] = "AAAA", y[] = "AAA", z[] = "";
          if (tpimport(nullptr, 1, &s.p, nullptr, 0) != -1 || tperrno != TPEINVAL) viol("null-import", "");
          if (tpimport(x, 1, nullptr, nullptr, 0) != -1 || tperrno != TPEINVAL) viol("null-import", "");
          if (tpimport(x, 1, &np, nullptr, 0) != -1 || tperrno != TPEINVAL) viol("null-import", "");
          for (char *q : {x, y, z})
            if (tpimport(q, 0, &s.p, nullptr, TPEX_STRING) != -1) viol("short-import", q);
          verify(s, "refused tpimport");
          break;
        }
      }
      count("misuse");
    }
  }
  for (auto &s : sl) {
    verify(s, "end");
    tpfree(s.p);
  }
  if (cur_case() % 211 == 3 && !oplog().empty()) sample(oplog().back());
}

VH_MAIN({{"mem", mode_mem}})
