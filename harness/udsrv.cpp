// C22: services for ud32: record the request as received, do what its U_DO
// field says, record the reply as returned.
#include <tx.h>
#include <userlog.h>
#include <xa.h>
#include "sysmsg.h"
#include "txwalk.h"

extern "C" {
int _tmrunserver(int);
extern struct xa_switch_t usys_switch;
extern int _tmbuilt_with_thread_option;
}

static void line(const std::string &s) {
  std::string t = std::to_string(sm::now_ms()) + " " + s + "\n";
  int fd = open(getenv("USYS_LOG"), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  if (fd == -1 || write(fd, t.data(), t.size()) != ssize_t(t.size())) _exit(96);
  close(fd);
}

static std::string hex(const char *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) s += d[(p[i] >> 4) & 15], s += d[p[i] & 15];
  return s;
}

// id:value;... in the order of the buffer, nested buffers in braces
static std::string dump(FBFR32 *f) {
  std::string s;
  FLDID32 id = FIRSTFLDID;
  FLDOCC32 oc = 0;
  while (Fnext32(f, &id, &oc, nullptr, nullptr) == 1) {
    FLDLEN32 len = 0;
    char *v = Ffind32(f, id, oc, &len);
    if (v == nullptr) return s + "?";
    s += std::to_string(id) + ":";
    switch (Fldtype32(id)) {
      case FLD_FML32: s += "{" + dump(reinterpret_cast<FBFR32 *>(v)) + "}"; break;
      case FLD_STRING: s += hex(v, strlen(v)); break;
      default: s += hex(v, len);
    }
    s += ";";
  }
  return s;
}

static FLDID32 id(const char *n) {
  FLDID32 i = Fldid32(const_cast<char *>(n));
  if (i == BADFLDID) {
    line(std::string("V no field ") + n);
    _exit(96);
  }
  return i;
}

static int g_srvid;

static void UD(TPSVCINFO *si) {
  FBFR32 *f = reinterpret_cast<FBFR32 *>(si->data);
  char type[16] = "", sub[32] = "";
  long sz = si->data ? tptypes(si->data, type, sub) : -1;
  if (sz == -1 || strncmp(type, "FML32", 8) != 0) {
    line(std::string("U svc=") + si->name + " type=" + type);
    tpreturn(TPFAIL, 1, nullptr, 0, 0);
    return;
  }
  static FLDID32 UDO = id("U_DO"), UBLOB = id("U_BLOB"), UKEY = id("U_KEY");
  char *what = Ffind32(f, UDO, 0, nullptr);
  std::string act = what ? what : "same";
  {
    std::string d = dump(f), xid;
    TXINFO ti;
    memset(&ti, 0, sizeof ti);
    if (tx_info(&ti) == 1) xid = TxWalk::hex(ti.xid);
    line(std::string("U svc=") + si->name + " srv=" + std::to_string(g_srvid) + " tran=" + std::to_string(!!(si->flags & TPTRAN)) + " noreply=" +
         std::to_string(!!(si->flags & TPNOREPLY)) + " xid=" + xid + " x=" + d);
  }
  long key = 0;
  Fget32(f, UKEY, 0, reinterpret_cast<char *>(&key), nullptr);
  std::string tag = "P key=" + std::to_string(key);
  int rval = TPSUCCESS;
  if (act.compare(0, 4, "fail") == 0) rval = TPFAIL;
  auto c = act.find(':');
  size_t n = c == std::string::npos ? 0 : strtoul(act.c_str() + c + 1, nullptr, 10);
  if (act.find("none") != std::string::npos) {
    line(tag + " none");
    tag.clear();
    tag.shrink_to_fit();
    act.clear();
    act.shrink_to_fit();
    tpreturn(rval, 0, nullptr, 0, 0);
    return;
  }
  char *out = si->data;
  if (act.find("more") != std::string::npos) {
    out = tprealloc(out, Fused32(f) + n + 1024);
    f = reinterpret_cast<FBFR32 *>(out);
    std::string b = sm::body(n, 3, n, false);
    if (out == nullptr || Fadd32(f, UBLOB, const_cast<char *>(b.data()), b.size()) == -1) _exit(96);
  } else if (act.find("less") != std::string::npos) {
    FLDID32 keep[] = {UKEY, UDO, BADFLDID};
    Fproj32(f, keep);
  } else if (act.find("text") != std::string::npos) {
    out = tpalloc(const_cast<char *>("STRING"), nullptr, n + 16);
    memset(out, 'T', n);
    out[n] = 0;
    line(tag + " text");
    tag.clear();
    tag.shrink_to_fit();
    act.clear();
    act.shrink_to_fit();
    tpreturn(rval, 0, out, 0, 0);
    return;
  }
  line(tag + " x=" + dump(f));
  tag.clear();
  tag.shrink_to_fit();
  act.clear();
  act.shrink_to_fit();
  tpreturn(rval, 0, out, 0, 0);
}

static tmdsptchtbl_t g_tab[8];
static struct tmsvrargs_t g_args;
struct tmsvrargs_t *_tmgetsvrargs() { return &g_args; }

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++)
    if (strcmp(argv[i], "-i") == 0) g_srvid = atoi(argv[i + 1]);
  static const char *names[] = {"UDA", "UDB", "A_SERVICE_OF_15"};
  for (int i = 0; i < 3; i++) {
    g_tab[i].svcname = const_cast<char *>(names[i]);
    g_tab[i].funcname = const_cast<char *>("UD");
    g_tab[i].svcfunc = UD;
  }
  g_args.xa_switch = &usys_switch;
  g_args.tmdsptchtbl = g_tab;
  g_args.svrinit = tpsvrinit;
  g_args.svrdone = tpsvrdone;
  g_args.mainloop = _tmrunserver;
  g_args.rminit = tprminit;
  g_args.svrthrinit = tpsvrthrinit;
  g_args.svrthrdone = tpsvrthrdone;
  _tmbuilt_with_thread_option = 0;
  sm::log("I srv=x.%d pid=%d name=udsrv", g_srvid, getpid());
  int rc = _tmstartserver(argc, argv, &g_args);
  return rc;
}
