// Messages of the universal server and client: a plan telling services what to
// do, and a body that both sides can compute from the id.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <atmi.h>
#include <errno.h>
#include <fcntl.h>
#include <fml32.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace sm {

// Signals that interrupt whatever the process waits for, every USYS_ITIMER microseconds
static inline long sig_flags() {
  static const bool b = getenv("USYS_ITIMER") != nullptr;
  return b ? TPSIGRSTRT : 0;
}
static inline void sig_timer(long us) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = [](int) {};
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it;
  it.it_interval.tv_sec = it.it_value.tv_sec = 0;
  it.it_interval.tv_usec = it.it_value.tv_usec = us;
  setitimer(ITIMER_REAL, &it, nullptr);
}
static inline void sig_start() {
  if (sig_flags()) sig_timer(atol(getenv("USYS_ITIMER")));
}

static inline int call(char *svc, char *idata, long ilen, char **odata, long *olen, long flags) {
  return tpcall(svc, idata, ilen, odata, olen, flags | sig_flags());
}
static inline int getrply(int *cd, char **data, long *len, long flags) {
  return tpgetrply(cd, data, len, flags | sig_flags());
}
static inline void nap(long us) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  ts.tv_sec += us / 1000000;
  ts.tv_nsec += us % 1000000 * 1000;
  if (ts.tv_nsec >= 1000000000) {
    ts.tv_sec++;
    ts.tv_nsec -= 1000000000;
  }
  while (clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &ts, nullptr) == EINTR) {
  }
}

inline int64_t now_ms() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return int64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

enum Type { CARRAY = 0, STRING, FML32, NODATA };
inline const char *tname(int t) {
  static const char *n[] = {"CARRAY", "STRING", "FML32", "NODATA"};
  return n[t & 3];
}

inline std::string body(uint64_t id, int salt, size_t len, bool text) {
  std::string s(len, 'x');
  uint64_t z = mix(id * 1000003 + salt);
  for (size_t i = 0; i < len; i++) {
    if (i % 8 == 0) z = mix(z + i);
    unsigned char c = z >> (8 * (i % 8));
    s[i] = text ? char(33 + c % 90) : char(c);
  }
  return s;
}

inline FLDID32 FPLAN() { return Fmkfldid32(FLD_STRING, 1001); }
inline FLDID32 FBODY() { return Fmkfldid32(FLD_CARRAY, 1002); }
inline FLDID32 FNUM() { return Fmkfldid32(FLD_LONG, 1003); }
inline FLDID32 FDBL() { return Fmkfldid32(FLD_DOUBLE, 1004); }

// Puts plan and body into *buf (of type t; replaced as needed); length to send
inline long put(char **buf, int t, const std::string &plan, const std::string &b) {
  char type[16] = "", sub[32] = "";
  if (*buf != nullptr) tptypes(*buf, type, sub);
  type[8] = 0;
  if (*buf != nullptr && strcmp(type, tname(t)) != 0) {
    tpfree(*buf);
    *buf = nullptr;
  }
  size_t need = plan.size() + b.size() + 64;
  if (t == FML32) need = need * 2 + 1024;
  if (*buf == nullptr) {
    *buf = tpalloc(const_cast<char *>(tname(t)), nullptr, need);
  } else {
    if (t == FML32) {
      FBFR32 *f = reinterpret_cast<FBFR32 *>(*buf);
      Finit32(f, Fsizeof32(f));
    }
    *buf = tprealloc(*buf, need);
  }
  if (*buf == nullptr) {
    fprintf(stderr, "no memory for %zu %s: %s\n", need, tname(t), tpstrerror(tperrno));
    exit(96);
  }
  std::string s = plan + "\n" + b;
  if (t == CARRAY) {
    memcpy(*buf, s.data(), s.size());
    return s.size();
  }
  if (t == STRING) {
    memcpy(*buf, s.c_str(), s.size() + 1);
    return 0;
  }
  FBFR32 *f = reinterpret_cast<FBFR32 *>(*buf);
  Finit32(f, Fsizeof32(f));
  int rc = 0;
  rc |= Fadd32(f, FPLAN(), const_cast<char *>(plan.c_str()), 0);
  rc |= Fadd32(f, FBODY(), const_cast<char *>(b.data()), b.size());
  for (long i = 0; i < long(b.size() % 5); i++) {
    long v = i * 7919 + b.size();
    double d = v / 8.0;
    rc |= Fadd32(f, FNUM(), reinterpret_cast<char *>(&v), 0);
    rc |= Fadd32(f, FDBL(), reinterpret_cast<char *>(&d), 0);
  }
  if (rc != 0) {
    fprintf(stderr, "Fadd32: %s\n", Fstrerror32(Ferror32));
    exit(96);
  }
  return 0;
}

// What is in a received buffer; false (and why) when it is no message at all
inline bool get(char *buf, long len, int *t, std::string *plan, std::string *b, std::string *why) {
  char type[16] = "", sub[32] = "";
  plan->clear();
  b->clear();
  if (buf == nullptr) {
    *t = NODATA;
    if (len != 0) {
      *why = "no data but length " + std::to_string(len);
      return false;
    }
    return true;
  }
  if (tptypes(buf, type, sub) == -1) {
    *why = "not a typed buffer";
    return false;
  }
  type[8] = 0;
  if (strcmp(type, "CARRAY") == 0) {
    *t = CARRAY;
    std::string s(buf, len);
    auto n = s.find('\n');
    if (n == std::string::npos) {
      *why = "no plan in CARRAY of " + std::to_string(len);
      return false;
    }
    *plan = s.substr(0, n);
    *b = s.substr(n + 1);
    return true;
  }
  if (strcmp(type, "STRING") == 0) {
    *t = STRING;
    std::string s(buf);
    if (len != long(s.size() + 1)) {
      *why = "STRING of " + std::to_string(s.size()) + " with length " + std::to_string(len);
      return false;
    }
    auto n = s.find('\n');
    if (n == std::string::npos) {
      *why = "no plan in STRING";
      return false;
    }
    *plan = s.substr(0, n);
    *b = s.substr(n + 1);
    return true;
  }
  if (strcmp(type, "FML32") == 0) {
    *t = FML32;
    FBFR32 *f = reinterpret_cast<FBFR32 *>(buf);
    FLDLEN32 l = 0;
    char *p = Ffind32(f, FPLAN(), 0, &l);
    if (p == nullptr) {
      *why = "no plan in FML32";
      return false;
    }
    *plan = p;
    p = Ffind32(f, FBODY(), 0, &l);
    if (p == nullptr) {
      *why = "no body in FML32";
      return false;
    }
    *b = std::string(p, l);
    FLDOCC32 n = b->size() % 5;
    if (Foccur32(f, FNUM()) != n || Foccur32(f, FDBL()) != n || Foccur32(f, FPLAN()) != 1 ||
        Foccur32(f, FBODY()) != 1) {
      *why = "other occurrences in FML32";
      return false;
    }
    for (FLDOCC32 i = 0; i < n; i++) {
      long v = 0;
      double d = 0;
      Fget32(f, FNUM(), i, reinterpret_cast<char *>(&v), nullptr);
      Fget32(f, FDBL(), i, reinterpret_cast<char *>(&d), nullptr);
      if (v != i * 7919 + long(b->size()) || d != v / 8.0) {
        *why = "other numbers in FML32";
        return false;
      }
    }
    return true;
  }
  *why = std::string("type ") + type;
  return false;
}

inline std::string val(const std::string &plan, const char *key) {
  std::string k = std::string(key) + "=";
  size_t at = 0;
  while (at < plan.size()) {
    size_t e = plan.find(' ', at);
    if (e == std::string::npos) e = plan.size();
    if (plan.compare(at, k.size(), k) == 0) return plan.substr(at + k.size(), e - at - k.size());
    at = e + 1;
  }
  return "";
}

inline std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r;
  size_t at = 0;
  while (true) {
    size_t e = s.find(c, at);
    if (e == std::string::npos) {
      r.push_back(s.substr(at));
      return r;
    }
    r.push_back(s.substr(at, e - at));
    at = e + 1;
  }
}

inline int logfd() {
  static int fd = -2;
  if (fd == -2) {
    const char *p = getenv("USYS_LOG");
    fd = p ? open(p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644) : -1;
  }
  return fd;
}
inline void log(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void log(const char *f, ...) {
  char b[1500];
  int n = snprintf(b, 40, "%lld ", (long long)now_ms());
  va_list ap;
  va_start(ap, f);
  n += vsnprintf(b + n, sizeof b - n - 2, f, ap);
  va_end(ap);
  if (n > int(sizeof b) - 2) n = sizeof b - 2;
  b[n++] = '\n';
  ssize_t w = write(logfd(), b, n);
  (void)w;
}
inline long tid() { return syscall(SYS_gettid); }

}  // namespace sm
