// Modes of the universal client beyond plain calls

static char *junk() {
  // looks like nothing allocated by tpalloc, with readable memory around
  static char area[4096];
  static bool init = false;
  if (!init) {
    for (size_t i = 0; i < sizeof area; i++) area[i] = char('A' + i % 26);
    init = true;
  }
  return area + 2048;
}

struct Snap {
  std::string type, bytes;
  char *p;
};
static Snap snap(char *b, size_t n) {
  char t[16] = "", s[32] = "";
  tptypes(b, t, s);
  t[8] = 0;
  return {t, std::string(b, n), b};
}

// ---------------------------------------------------------------- outcome
// Calls that have to be refused, in between calls outstanding
static void refused(Rng &r, std::map<int, Call> &out, char *&rb) {
  long ol = 0;
  int rc, e;
  std::string svc = r.pick(g_svcs);
  char *s = const_cast<char *>(svc.c_str());
  auto want = [&](const char *what, std::initializer_list<int> errs) {
    bool ok = rc == -1;
    if (ok) {
      ok = false;
      for (int x : errs) ok = ok || x == e;
    }
    if (!ok)
      viol(fmt("%s-gives-%d", what, rc == -1 ? e : 0), fmt("%s returned %d, tperrno %d, %zu calls outstanding", what, rc, e, out.size()));
    cnt("refused");
    dist("refused", fmt("%s %d", what, e));
  };
  long l = sm::put(&t_snd, r.u(3), "id=0 st=0", "x");
  tptypes(rb, nullptr, nullptr);
  switch (r.u(24)) {
    case 0: rc = tpcall(nullptr, t_snd, l, &rb, &ol, 0); e = tperrno; want("tpcall-null-service", {TPEINVAL}); break;
    case 1: rc = tpcall((char *)"", t_snd, l, &rb, &ol, 0); e = tperrno; want("tpcall-empty-service", {TPEINVAL}); break;
    case 2:
    case 3: {
      std::string n = r.p(50) ? "NOSUCH" : svc + "X";
      rc = tpcall((char *)n.c_str(), t_snd, l, &rb, &ol, 0); e = tperrno; want("tpcall-unknown-service", {TPENOENT});
      break;
    }
    case 4: {
      std::string n(10 + r.u(200), 'S');
      rc = tpacall((char *)n.c_str(), t_snd, l, r.p(50) ? TPNOREPLY : 0); e = tperrno; want("tpacall-unknown-service", {TPENOENT, TPEINVAL});
      break;
    }
    case 5: rc = tpcall(s, t_snd, l, nullptr, &ol, 0); e = tperrno; want("tpcall-null-odata", {TPEINVAL}); break;
    case 6: {
      char *p = nullptr;
      rc = tpcall(s, t_snd, l, &p, &ol, 0); e = tperrno; want("tpcall-odata-to-null", {TPEINVAL});
      break;
    }
    case 7: {
      char *p = junk();
      rc = tpcall(s, t_snd, l, &p, &ol, 0); e = tperrno; want("tpcall-odata-not-typed", {TPEINVAL, TPEITYPE, TPEOTYPE});
      break;
    }
    case 8: rc = tpcall(s, junk(), 10, &rb, &ol, 0); e = tperrno; want("tpcall-idata-not-typed", {TPEINVAL, TPEITYPE}); break;
    case 9: rc = tpacall(s, junk(), 10, 0); e = tperrno; want("tpacall-data-not-typed", {TPEINVAL, TPEITYPE}); break;
    case 10: rc = tpacall(nullptr, t_snd, l, 0); e = tperrno; want("tpacall-null-service", {TPEINVAL}); break;
    case 11: rc = tpgetrply(nullptr, &rb, &ol, 0); e = tperrno; want("tpgetrply-null-cd", {TPEINVAL}); break;
    case 12: {
      int cd = out.empty() ? 1 : out.begin()->first;
      rc = tpgetrply(&cd, nullptr, &ol, 0); e = tperrno; want("tpgetrply-null-data", {TPEINVAL});
      break;
    }
    case 13: {
      int cd = out.empty() ? 1 : out.begin()->first;
      char *p = r.p(50) ? nullptr : junk();
      rc = tpgetrply(&cd, &p, &ol, 0); e = tperrno; want("tpgetrply-data-not-typed", {TPEINVAL, TPEITYPE, TPEOTYPE});
      break;
    }
    case 14: {
      int cd = r.p(30) ? 0 : r.p(50) ? -int(r.u(1000)) - 1 : 1000000 + int(r.u(1000));
      rc = tpgetrply(&cd, &rb, &ol, 0); e = tperrno; want("tpgetrply-unknown-cd", {TPEBADDESC});
      break;
    }
    case 15: {
      int cd = r.p(30) ? 0 : r.p(50) ? -int(r.u(1000)) - 1 : 1000000 + int(r.u(1000));
      rc = tpcancel(cd); e = tperrno; want("tpcancel-unknown-cd", {TPEBADDESC});
      break;
    }
    case 16: rc = tpsblktime(5, 0); e = tperrno; want("tpsblktime-no-flags", {TPEINVAL}); break;
    case 17: rc = tpgblktime(12345); e = tperrno; want("tpgblktime-bad-flags", {TPEINVAL}); break;
    default: {
      // the type of the reply differs from the one of the buffer or not
      Call c;
      c.id = newid();
      c.svc = svc;
      c.type = r.u(3);
      c.blen = r.u(500);
      c.rtype = r.u(3);
      c.rlen = r.u(3000);
      bool nodata = r.p(10);
      bool fail = r.p(25);
      c.rcode = r.u(1000);
      c.nulldata = nodata;
      c.err = fail ? TPESVCFAIL : 0;
      c.todo = fmt("%s,l%zu,c%ld,%s", nodata ? "t-" : fmt("t%d", c.rtype).c_str(), c.rlen, c.rcode, fail ? "rF" : "rS");
      int bt = r.u(3);
      char *b = tpalloc(const_cast<char *>(sm::tname(bt)), nullptr, 4500);
      if (bt == sm::CARRAY) memset(b, 'c', 4500);
      if (bt == sm::STRING) strcpy(b, "something");
      std::string was = bt == sm::FML32 ? std::string(b, Fused32((FBFR32 *)b)) : std::string(b, bt == sm::STRING ? 10 : 4500);
      l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      char *b0 = b;
      bool async = r.p(40);
      ol = 4242;
      if (async) {
        int cd = tpacall(s, t_snd, l, 0);
        if (cd == -1) {
          viol("tpacall-refused", tpe());
          tpfree(b);
          return;
        }
        rc = tpgetrply(&cd, &b, &ol, TPNOCHANGE);
      } else {
        rc = tpcall(s, t_snd, l, &b, &ol, TPNOCHANGE);
      }
      e = tperrno;
      long urc = tpurcode;
      sm::log("S id=%llu cd=0 err=0", (unsigned long long)c.id);
      if (!nodata && bt != c.rtype) {
        want("other-type-under-TPNOCHANGE", {TPEOTYPE});
        char t[16] = "";
        tptypes(b, t, nullptr);
        t[8] = 0;
        size_t n = bt == sm::FML32 ? Fused32((FBFR32 *)b) : was.size();
        if (b != b0 || strcmp(t, sm::tname(bt)) != 0 || std::string(b, n) != was)
          viol("buffer-changed-under-TPNOCHANGE", fmt("%s buffer given for a %s reply: now %s", sm::tname(bt), sm::tname(c.rtype), t));
      } else {
        verify("TPNOCHANGE", c, rc, e, urc, b, ol, "");
        cnt("nochange_same");
        if (!nodata) {
          char t[16] = "";
          tptypes(b, t, nullptr);
          t[8] = 0;
          if (strcmp(t, sm::tname(bt)) != 0) viol("type-changed-under-TPNOCHANGE", fmt("%s to %s", sm::tname(bt), t));
        }
      }
      tpfree(b);
    }
  }
}

static void outcome(Rng &r, long n, int maxdelay) {
  std::map<int, Call> out;
  size_t weight = 0;
  char *rb = mkrecv(r);
  for (long i = 0; i < n || !out.empty(); i++) {
    int k = i >= n ? 99 : r.u(100);
    if (k < 45) {
      refused(r, out, rb);
    } else if (k < 60) {
      // as it happens on the way
      Call c = mkcall(r, 1, 3, maxdelay);
      if (r.p(25)) {
        c = mkcall(r, 1, 1, maxdelay);
        c.todo = fmt("s%ld,%s", r.in(0, maxdelay), r.p(40) ? "fNOSUCH" : r.p(50) ? "rB" : "fX");
        if (c.todo.substr(c.todo.size() - 2) == "fX") c.todo = "f" + std::string(100, 'X');
        c.err = TPESVCERR;
        c.stages = 1;
      }
      if (weight + c.weight > 9000 || out.size() > 20) continue;
      if (r.p(50)) {
        long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
        sm::log("B id=%llu svc=%s n=%d", (unsigned long long)c.id, c.svc.c_str(), c.stages);
        long ol = 1;
        int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
        int e = tperrno;
        long urc = tpurcode;
        sm::log("%s id=%llu err=%d", rc == -1 && e != TPESVCFAIL && e != TPESVCERR ? "X" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
        verify("tpcall", c, rc, e, urc, rb, ol, "");
        cnt("outcomes");
        dist("outcome", fmt("%d n%d d%d", c.err, c.stages, int(c.nulldata)));
      } else {
        if (do_acall(c, 0) == -1) {
          viol("tpacall-refused", tpe());
          continue;
        }
        weight += c.weight;
        out[c.cd] = c;
      }
    } else if (!out.empty()) {
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      int cd = it->first;
      bool any = r.p(40);
      long ol = 5;
      int rc = tpgetrply(&cd, &rb, &ol, any ? TPGETANY : 0);
      int e = tperrno;
      long urc = tpurcode;
      it = out.find(cd);
      if (it == out.end()) {
        viol("reply-for-unknown-descriptor", fmt("tpgetrply gave %d descriptor %d tperrno %d", rc, cd, e));
        break;
      }
      verify("tpgetrply", it->second, rc, e, urc, rb, ol, "");
      cnt("outcomes");
      dist("outcome", fmt("a%d n%d d%d", it->second.err, it->second.stages, int(it->second.nulldata)));
      weight -= it->second.weight;
      out.erase(it);
    }
  }
  tpfree(rb);
}

// The service that names come and go on; args: a service of the same server
static void advertise(Rng &r, long n, const std::string &svc) {
  static const char *base[] = {"V1", "V2", "V3", "VERYLONGNAMEOFASERVICE"};
  std::map<std::string, bool> on;  // name -> second function
  std::map<std::string, int> fn;
  char *rb = mkrecv(r);
  std::string suffix = fmt("_%llu", (unsigned long long)newid());
  for (long i = 0; i < n; i++) {
    int b = r.u(7);
    // as long as a name may be, different in the last byte only; and one byte more
    std::string nm = b < 4 ? base[b] + suffix : std::string(XATMI_SERVICE_NAME_LENGTH - 2 - suffix.size(), 'P') + suffix + (b == 4 ? "a" : b == 5 ? "b" : "ab");
    bool toolong = b == 6;
    int k = r.u(4);
    Call c;
    c.id = newid();
    c.svc = svc;
    c.type = r.u(3);
    c.blen = r.u(100);
    std::string want;
    if (k == 3) {
      // is it there
      c.svc = nm;
      c.todo = "rS";
      c.rtype = c.type;
      c.rlen = c.blen;
      c.err = fn.count(nm) ? 0 : TPENOENT;
    } else {
      c.rtype = c.type;
      c.rlen = c.blen;
      const char ops[] = "aAu";
      c.todo = fmt("%c%s,rS", ops[k], nm.c_str());
      if (k < 2) {
        want = fmt("%c=%d", ops[k], toolong ? TPEINVAL : fn.count(nm) && fn[nm] != k ? TPEMATCH : 0);
        if (!fn.count(nm) && !toolong) fn[nm] = k;
      } else {
        want = fmt("u=%d", fn.count(nm) ? 0 : TPENOENT);
        fn.erase(nm);
      }
    }
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
    int e = tperrno;
    long urc = tpurcode;
    sm::log("%s id=%llu err=%d", rc == -1 ? "X" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
    verify(k == 3 ? "call" : "advertise", c, rc, e, urc, rb, ol, "");
    if (!want.empty() && rc != -1) {
      int t;
      std::string p, b, why;
      if (sm::get(rb, ol, &t, &p, &b, &why) && (" " + p + " ").find(" " + want + " ") == std::string::npos)
        viol("advertise-result", fmt("%s: expected %s, service reported %s", c.todo.c_str(), want.c_str(), p.c_str()));
    }
    cnt("advertisings");
    dist("advertise", fmt("%d %zu %d", k, fn.size(), c.err));
  }
  // leave nothing behind
  for (auto &f : fn) {
    Call c;
    c.id = newid();
    c.svc = svc;
    c.rtype = c.type;
    c.todo = "u" + f.first + ",rS";
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, 0, c.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0), e = tperrno;
    sm::log("%s id=%llu err=%d", rc == -1 ? "X" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
    verify("unadvertise", c, rc, e, tpurcode, rb, ol, "");
  }
  tpfree(rb);
}

// One name on one server; how it ends is printed
static void advertise1(Rng &r, long n, const std::string &svc, const std::string &name) {
  char *rb = mkrecv(r);
  bool on = false, first = true, ever = false;
  for (long i = 0; i < n; i++) {
    bool want = r.p(60);
    std::string todo = fmt("%c%s,rS", want ? 'a' : 'u', name.c_str());
    uint64_t id = newid();
    long l = sm::put(&t_snd, sm::STRING, fmt("id=%llu st=0 ty=1 bl=3 do=", (unsigned long long)id) + todo, sm::body(id, 0, 3, true));
    long ol = 0;
    if (tpcall(const_cast<char *>(svc.c_str()), t_snd, l, &rb, &ol, 0) == -1) {
      viol("advertise-call", tpe());
      break;
    }
    on = want;
    ever |= want;
    first = false;
  }
  if (!first) printf("now %s %d %d\n", name.c_str(), int(on), int(ever));
  tpfree(rb);
}

// Servers that end by TPEXIT: the caller still gets what they returned, then
// their services are gone.  Two servers offer X1, one X70 and one X71; X2 is
// the only service of a third
static void exits(Rng &r) {
  char *rb = mkrecv(r);
  std::vector<std::string> order = {"X70", "X71", "X2"};
  for (size_t i = 0; i < 3; i++) std::swap(order[i], order[r.u(3)]);
  std::set<std::string> alive = {"X70", "X71", "X2"};
  auto call = [&](const std::string &svc, const char *how, int err) {
    Call c;
    c.id = newid();
    c.svc = svc;
    c.type = r.u(3);
    c.blen = anysize(r, 0);
    c.rtype = r.u(3);
    c.rlen = anysize(r, 0);
    c.rcode = r.u(100000);
    c.err = err;
    c.todo = fmt("t%d,l%zu,c%ld,%s", c.rtype, c.rlen, c.rcode, how);
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(svc.c_str()), t_snd, l, &rb, &ol, 0);
    int e = tperrno;
    long urc = tpurcode;
    sm::log("%s id=%llu err=%d", rc == -1 && e != TPESVCFAIL ? "X" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
    verify(how, c, rc, e, urc, rb, ol, "");
    cnt("exits");
    dist("exits", fmt("%s %s %d %zu", svc.c_str(), how, e, alive.size()));
  };
  for (auto &svc : order) {
    for (int k = r.u(4); k > 0; k--) {
      std::string s = r.p(40) ? "X1" : r.p(50) ? "X2" : r.p(50) ? "X70" : "X71";
      bool there = s == "X1" ? alive.count("X70") || alive.count("X71") : alive.count(s) > 0;
      bool fail = r.p(30);
      call(s, fail ? "rF" : "rS", !there ? TPENOENT : fail ? TPESVCFAIL : 0);
    }
    call(svc, "rX", TPESVCFAIL);
    alive.erase(svc);
    int64_t t0 = sm::now_ms();
    int rc;
    while (true) {
      rc = tpacall(const_cast<char *>(svc.c_str()), nullptr, 0, TPNOREPLY);
      if (rc == -1 || sm::now_ms() - t0 > 15000) break;
      usleep(20000);
    }
    if (rc != -1)
      viol("service-stays-after-TPEXIT", fmt("%s is still found 15 s after its server returned TPEXIT", svc.c_str()));
    else if (tperrno != TPENOENT)
      viol(fmt("after-TPEXIT-gives-%d", tperrno), tpe());
    dist("exits", fmt("gone within %ld ms", long(sm::now_ms() - t0) / 100 * 100));
  }
  call("X1", "rS", TPENOENT);
  tpfree(rb);
}

// ---------------------------------------------------------------- descriptors
struct Desc {
  Call c;
  bool timedout = false;
};

// Descriptors, cancellation, time-outs; slow: some services take longer than
// any block time used
static void desc(Rng &r, long n, int maxdelay, bool slow) {
  std::map<int, Desc> out;
  std::set<int> gone;
  size_t weight = 0;  // nothing more than the reply queue takes is asked for
  size_t lost = 0;    // replies that may still come though nobody waits for them
  char *rb = mkrecv(r);
  long all = 0;
  auto done = [&](int cd, const Call &c, bool late) {
    gone.insert(cd);
    weight -= late ? 0 : c.weight;
    out.erase(cd);
  };
  for (long i = 0; i < n || !out.empty(); i++) {
    int k = i >= n ? 60 + r.u(40) : r.u(100);
    long ol = 0;
    if (k < 30) {
      Call c = mkcall(r, r.p(20), 2, maxdelay);
      if (weight + c.weight > 8000 || out.size() >= 40) continue;
      if (do_acall(c, 0) == -1) {
        viol("tpacall-refused", tpe());
        continue;
      }
      if (c.cd <= 0 || out.count(c.cd)) {
        viol("descriptor-not-unique", fmt("tpacall returned %d, %zu outstanding", c.cd, out.size()));
        continue;
      }
      gone.erase(c.cd);
      weight += c.weight;
      out[c.cd].c = c;
      cnt("tpacalls");
    } else if (k < 36) {
      if (out.empty()) continue;
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      int cd = it->first;
      int rc = tpcancel(cd);
      if (rc == -1) viol("tpcancel-refused", fmt("tpcancel(%d) of an outstanding call: %s", cd, tpe().c_str()));
      // its reply still takes place in the queue until it is read
      done(cd, it->second.c, true);
      lost++;
      cnt("cancelled");
    } else if (k < 44) {
      if (gone.empty()) continue;
      auto it = gone.begin();
      std::advance(it, r.u(gone.size()));
      int cd = *it;
      int rc = r.p(50) ? tpcancel(cd) : tpgetrply(&cd, &rb, &ol, r.p(50) ? TPNOBLOCK : 0);
      if (rc != -1 || tperrno != TPEBADDESC)
        viol("finished-descriptor", fmt("descriptor %d finished or cancelled before: %d %s", *it, rc, tpe().c_str()));
      cnt("bad_descriptors");
    } else if (k < 48) {
      // tpcall in between
      Call c = mkcall(r, r.p(20), 1, maxdelay);
      if (weight + c.weight > 8000) continue;
      long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
      sm::log("B id=%llu svc=%s n=%d", (unsigned long long)c.id, c.svc.c_str(), c.stages);
      int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
      int e = tperrno;
      long urc = tpurcode;
      sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c.id, rc == -1 ? e : 0);
      verify("tpcall", c, rc, e, urc, rb, ol, "");
      cnt("tpcalls");
    } else if (k < 50 && slow) {
      // a call nobody answers in time
      Call c = mkcall(r, 0, 1, 0);
      long bt = r.in(50, 900);
      long svcms = bt + 7000 + r.u(500);
      c.todo = fmt("s%ld,", svcms) + c.todo;
      c.svc = "Z1";
      bool next = r.p(50);
      tpsblktime(bt, TPBLK_MILLISECOND | (next ? TPBLK_NEXT : TPBLK_ALL));
      if (tpgblktime(TPBLK_MILLISECOND | (next ? TPBLK_NEXT : TPBLK_ALL)) != bt)
        viol("tpgblktime", fmt("set %ld, reported %d", bt, tpgblktime(TPBLK_MILLISECOND | (next ? TPBLK_NEXT : TPBLK_ALL))));
      long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      int64_t t0 = sm::now_ms();
      int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
      int e = tperrno;
      int64_t dt = sm::now_ms() - t0;
      if (!next) tpsblktime(all, TPBLK_MILLISECOND | TPBLK_ALL);
      sm::log("O id=%llu rc=%d err=%d", (unsigned long long)c.id, rc, e);
      if (rc != -1 || e != TPETIME)
        viol("no-timeout", fmt("service takes %ld ms, block time %ld ms: tpcall returned %d %d after %ld ms", svcms, bt, rc, rc == -1 ? e : 0, long(dt)));
      else if (dt < bt - 2)
        viol("timeout-too-early", fmt("block time %ld ms, TPETIME after %ld ms", bt, long(dt)));
      else if (dt > bt + 6000)
        viol("timeout-too-late", fmt("block time %ld ms, TPETIME after %ld ms", bt, long(dt)));
      cnt("timeouts");
      dist("timeout", fmt("call %ld %d", bt / 100, int(next)));
      lost++;
    } else if (k < 54) {
      // short block time with calls outstanding: replies or TPETIME, no sooner
      if (out.empty()) continue;
      long bt = r.in(20, 400);
      bool next = r.p(50), any = r.p(50);
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      int cd = any ? 0 : it->first, asked = cd;
      tpsblktime(bt, TPBLK_MILLISECOND | (next ? TPBLK_NEXT : TPBLK_ALL));
      int64_t t0 = sm::now_ms();
      int rc = tpgetrply(&cd, &rb, &ol, any ? TPGETANY : 0);
      int e = tperrno;
      long urc = tpurcode;
      int64_t dt = sm::now_ms() - t0;
      if (!next) tpsblktime(all, TPBLK_MILLISECOND | TPBLK_ALL);
      if (next && tpgblktime(TPBLK_MILLISECOND | TPBLK_NEXT) != 0) {
        // found without waiting; do not let it spill over
        tpsblktime(0, TPBLK_MILLISECOND | TPBLK_NEXT);
      }
      if (rc == -1 && e == TPETIME) {
        if (dt < bt - 2) viol("timeout-too-early", fmt("block time %ld ms, TPETIME from tpgetrply after %ld ms", bt, long(dt)));
        if (dt > bt + 6000) viol("timeout-too-late", fmt("block time %ld ms, TPETIME after %ld ms", bt, long(dt)));
        cnt("timeouts");
        dist("timeout", fmt("get %ld %d %d", bt / 50, int(next), int(any)));
        if (!any) out[asked].timedout = true;
        continue;
      }
      it = out.find(cd);
      if (it == out.end() || (!any && cd != asked)) {
        viol("reply-for-unknown-descriptor", fmt("tpgetrply(%d) gave %d, descriptor %d, tperrno %d", asked, rc, cd, e));
        break;
      }
      verify("tpgetrply", it->second.c, rc, e, urc, rb, ol, "");
      cnt("replies");
      done(cd, it->second.c, false);
    } else if (k < 58) {
      // asked again and again without waiting
      if (out.empty()) continue;
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      bool any = r.p(50);
      int cd, asked = it->first;
      int64_t t0 = sm::now_ms();
      int rc, e;
      while (true) {
        cd = any ? 0 : asked;
        rc = tpgetrply(&cd, &rb, &ol, TPNOBLOCK | (any ? TPGETANY : 0));
        e = tperrno;
        if (rc != -1 || e != TPEBLOCK || sm::now_ms() - t0 > 40000) break;
        cnt("polls");
        usleep(500 + r.u(3000));
      }
      long urc = tpurcode;
      if (rc == -1 && e == TPEBLOCK) {
        viol("reply-lost", fmt("no reply to %s after 40 s of asking", it->second.c.todo.c_str()));
        break;
      }
      if (rc == -1 && e == TPEBADDESC && !any && it->second.timedout) {
        done(asked, it->second.c, true);
        continue;
      }
      it = out.find(cd);
      if (it == out.end() || (!any && cd != asked)) {
        viol("reply-for-unknown-descriptor", fmt("tpgetrply(%d,TPNOBLOCK) gave %d, descriptor %d, tperrno %d", asked, rc, cd, e));
        break;
      }
      verify("tpgetrply(TPNOBLOCK)", it->second.c, rc, e, urc, rb, ol, "");
      cnt("replies");
      done(cd, it->second.c, false);
    } else if (!out.empty()) {
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      bool any = r.p(45);
      int cd = any ? (r.p(50) ? 0 : it->first) : it->first, asked = it->first;
      int rc = tpgetrply(&cd, &rb, &ol, (any ? TPGETANY : 0) | (r.p(20) ? TPNOTIME : 0));
      int e = tperrno;
      long urc = tpurcode;
      if (rc == -1 && e == TPEBADDESC && !any && it->second.timedout) {
        done(asked, it->second.c, true);
        continue;
      }
      it = out.find(cd);
      if (it == out.end() || (!any && cd != asked)) {
        viol("reply-for-unknown-descriptor", fmt("tpgetrply(%d%s) gave %d, descriptor %d, tperrno %d", asked, any ? ",TPGETANY" : "", rc, cd, e));
        break;
      }
      verify(any ? "tpgetrply(TPGETANY)" : "tpgetrply", it->second.c, rc, e, urc, rb, ol, "");
      cnt("replies");
      dist("order", fmt("%zu of %zu", std::distance(out.begin(), it), out.size()));
      done(cd, it->second.c, false);
    }
  }
  // Only what was cancelled or given up may still arrive, and that is dropped
  if (slow) usleep(7500000);
  int cd = 0;
  long ol = 0;
  tpsblktime(700, TPBLK_MILLISECOND | TPBLK_NEXT);
  int rc = tpgetrply(&cd, &rb, &ol, TPGETANY | (r.p(50) ? TPNOBLOCK : 0));
  int e = tperrno;
  if (rc != -1 || !(e == TPEBLOCK || e == TPETIME || e == TPEBADDESC))
    viol("reply-nobody-asked-for", fmt("nothing outstanding but tpgetrply(TPGETANY) gave %d %d descriptor %d", rc, e, cd));
  cnt("given_up", lost);
  tpfree(rb);
}

// The block time of the domain; Z1 sleeps as long as it is told
static void deftime(Rng &r, long n, long bt, const char *linger) {
  char *rb = mkrecv(r);
  for (long i = 0; i < n; i++) {
    Call c;
    c.id = newid();
    c.svc = "Z1";
    c.type = r.u(3);
    c.blen = anysize(r, 0);
    c.rtype = r.u(3);
    c.rlen = r.u(3000);
    int how = (i + r.u(2)) % 4;
    if (bt < 2000 && how == 3) how = 0;  // a busy machine might need that long
    // 0 tpcall too slow, 1 tpgetrply too slow, 2 TPNOTIME and slow, 3 just in time
    long ms = how == 3 ? bt / 3 : how == 2 ? bt + 1500 : bt + 2500;
    c.todo = fmt("s%ld,t%d,l%zu,rS", ms, c.rtype, c.rlen);
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=Z1 n=1", (unsigned long long)c.id);
    long ol = 0;
    int cd = -1;
    int64_t t0 = sm::now_ms();
    int rc;
    if (how == 1 || (how == 2 && r.p(50))) {
      cd = tpacall(const_cast<char *>("Z1"), t_snd, l, 0);
      if (cd == -1) {
        viol("tpacall-refused", tpe());
        return;
      }
      t0 = sm::now_ms();
      int cd2 = cd;
      rc = tpgetrply(&cd2, &rb, &ol, how == 2 ? TPNOTIME : r.p(50) ? TPGETANY : 0);
    } else {
      rc = tpcall(const_cast<char *>("Z1"), t_snd, l, &rb, &ol, how == 2 ? TPNOTIME : 0);
    }
    int e = tperrno;
    long urc = tpurcode;
    int64_t dt = sm::now_ms() - t0;
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c.id, rc == -1 ? e : 0);
    if (how < 2) {
      if (rc != -1 || e != TPETIME)
        viol("no-timeout", fmt("service takes %ld ms, BLOCKTIME %ld ms: %d %d after %ld ms", ms, bt, rc, rc == -1 ? e : 0, long(dt)));
      else if (dt < bt - 2)
        viol("timeout-too-early", fmt("BLOCKTIME %ld ms, TPETIME after %ld ms", bt, long(dt)));
      else if (dt > bt + 6000)
        viol("timeout-too-late", fmt("BLOCKTIME %ld ms, TPETIME after %ld ms", bt, long(dt)));
      if (how == 1 && rc == -1) {
        // given more time the reply comes
        if (r.p(60)) {
          int cd2 = cd;
          rc = tpgetrply(&cd2, &rb, &ol, TPNOTIME);
          e = tperrno;
          verify("tpgetrply after TPETIME", c, rc, e, tpurcode, rb, ol, "");
          cnt("after_timeout");
        } else if (tpcancel(cd) == -1) {
          viol("tpcancel-refused", tpe());
        }
      }
    } else {
      verify(how == 2 ? "TPNOTIME" : "in time", c, rc, e, urc, rb, ol, "");
    }
    cnt("timeouts");
    dist("timeout", fmt("default %ld %d", bt, how));
    // late replies do not answer this
    Call c2 = mkcall(r, 0, 1, 0);
    l = sm::put(&t_snd, c2.type, planof(c2), sm::body(c2.id, 0, c2.blen, c2.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c2.id, c2.svc.c_str());
    if (r.p(50)) usleep(3000000);
    rc = tpcall(const_cast<char *>(c2.svc.c_str()), t_snd, l, &rb, &ol, 0);
    e = tperrno;
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c2.id, rc == -1 ? e : 0);
    verify("tpcall after TPETIME", c2, rc, e, tpurcode, rb, ol, "");
  }
  if (linger != nullptr) {
    // stays in the domain without waiting for anything
    printf("idle\n");
    fflush(stdout);
    while (access(linger, F_OK) != 0) usleep(50000);
  }
  tpfree(rb);
}

// Signals arrive while the client waits; Z1 sleeps as long as it is told
static void signals(Rng &r, long n, long bt) {
  char *rb = mkrecv(r);
  for (long i = 0; i < n; i++) {
    Call c;
    c.id = newid();
    c.svc = "Z1";
    c.type = r.u(3);
    c.blen = anysize(r, 0);
    c.rtype = r.u(3);
    c.rlen = r.u(3000);
    // 0 goes on, 1 tpcall given up, 2 tpgetrply given up and asked again, 3 goes on until the block time
    int how = i % 4;
    bool acall = how == 2 || (how != 1 && r.p(50)), any = acall && r.p(50);
    long ms = how == 3 ? bt + 2500 : 300 + r.u(bt / 5);
    c.todo = fmt("s%ld,t%d,l%zu,rS", ms, c.rtype, c.rlen);
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=Z1 n=1", (unsigned long long)c.id);
    long ol = 0, fl = how == 0 || how == 3 ? TPSIGRSTRT : 0;
    int cd = -1;
    sm::sig_timer(how == 1 || how == 2 ? 40000 + r.u(60000) : 2000 + r.u(90000));
    int64_t t0 = sm::now_ms();
    int rc;
    if (acall) {
      cd = tpacall(const_cast<char *>("Z1"), t_snd, l, fl);
      if (cd == -1) {
        sm::sig_timer(0);
        viol("tpacall-refused", tpe());
        return;
      }
      int cd2 = cd;
      rc = tpgetrply(&cd2, &rb, &ol, fl | (any ? TPGETANY : 0));
    } else {
      rc = tpcall(const_cast<char *>("Z1"), t_snd, l, &rb, &ol, fl);
    }
    int e = tperrno;
    long urc = tpurcode;
    int64_t dt = sm::now_ms() - t0;
    sm::sig_timer(0);
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c.id, rc == -1 ? e : 0);
    std::string how_s = fmt("%s%s, service %ld ms, BLOCKTIME %ld ms", acall ? "tpgetrply" : "tpcall", fl ? "(TPSIGRSTRT)" : "", ms, bt);
    if (how == 0) {
      verify(how_s.c_str(), c, rc, e, urc, rb, ol, "");
      cnt("went_on");
    } else if (how == 3) {
      if (rc != -1 || e != TPETIME)
        viol("no-timeout-with-signals", how_s + fmt(": %d %d after %ld ms", rc, rc == -1 ? e : 0, long(dt)));
      else if (dt < bt - 2)
        viol("timeout-too-early", how_s + fmt(": TPETIME after %ld ms", long(dt)));
      else if (dt > bt + 6000)
        viol("timeout-too-late", how_s + fmt(": TPETIME after %ld ms", long(dt)));
      if (acall && rc == -1 && tpcancel(cd) == -1) viol("tpcancel-refused", tpe());
      cnt("timeouts");
    } else if (rc == -1 && e == TPGOTSIG) {
      cnt("interrupted");
      if (acall) {
        int cd2 = cd;
        rc = tpgetrply(&cd2, &rb, &ol, 0);
        e = tperrno;
        verify("tpgetrply after TPGOTSIG", c, rc, e, tpurcode, rb, ol, "");
      }
    } else if (dt < ms) {
      viol(fmt("interrupted-%d", rc == -1 ? e : 0), how_s + fmt(": %d %d after %ld ms", rc, rc == -1 ? e : 0, long(dt)));
    } else {
      verify(how_s.c_str(), c, rc, e, urc, rb, ol, "");
    }
    dist("interrupted", fmt("%d %d %d %d", how, acall, any, rc == -1 ? e : 0));
    // late replies do not answer this
    Call c2 = mkcall(r, 0, 1, 0);
    l = sm::put(&t_snd, c2.type, planof(c2), sm::body(c2.id, 0, c2.blen, c2.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c2.id, c2.svc.c_str());
    if (r.p(30)) usleep(600000);
    rc = tpcall(const_cast<char *>(c2.svc.c_str()), t_snd, l, &rb, &ol, 0);
    e = tperrno;
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c2.id, rc == -1 ? e : 0);
    verify("tpcall after signals", c2, rc, e, tpurcode, rb, ol, "");
  }
  tpfree(rb);
}

// Services that leave calls of their own outstanding: that takes nothing from
// the requests that follow in the same server
static void leave(Rng &r, long n, const std::string &svc) {
  char *rb = mkrecv(r);
  for (long i = 0; i < n; i++) {
    Call c;
    c.id = newid();
    c.svc = svc;
    c.type = r.u(3);
    c.blen = r.u(50);
    c.rtype = c.type;
    c.rlen = c.blen;
    bool nested = r.p(20), left = r.p(80);
    c.todo = "j,";
    int k = left ? 1 + r.u(3) : 0;
    for (int j = 0; j < (k > 0 ? 1 : 0); j++) c.todo += "o" + r.pick(g_svcs) + ",";
    if (nested) c.todo += "n" + r.pick(g_svcs) + ",";
    static const int errs[] = {0, TPESVCFAIL, TPESVCERR};
    int o = r.p(70) ? 0 : r.u(3);
    c.err = errs[o];
    c.todo += o == 0 ? "rS" : o == 1 ? "rF" : "rV";
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
    int e = tperrno;
    long urc = tpurcode;
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)c.id, rc == -1 ? e : 0);
    verify("leave", c, rc, e, urc, rb, ol, "");
    if (rc != -1 || e == TPESVCFAIL) {
      int t;
      std::string p, b, why;
      if (sm::get(rb, ol, &t, &p, &b, &why)) {
        p = " " + p + " ";
        if (p.find(" j=0 ") != std::string::npos)
          viol("reply-nobody-asked-for", "service got a reply to a call another request left: " + c.todo + ": " + p);
        if (left && p.find(" o=1 ") == std::string::npos) viol("tpacall-in-service", "request " + fmt("%ld", i) + " of the server: " + c.todo + ": " + p);
        if (nested && p.find(" n=ok ") == std::string::npos) viol("tpcall-in-service", c.todo + ": " + p);
      }
    }
    cnt("left");
    dist("left", fmt("%d %d %d", int(left), int(nested), o));
  }
  tpfree(rb);
}

// As many calls outstanding as possible; replies are taken out of the queue by
// calls that wait for their own
static void limit(Rng &r, long n) {
  char *rb = mkrecv(r);
  std::map<int, uint64_t> out;
  std::set<int> ever;
  size_t first = 0;
  for (long round = 0; round < n; round++) {
    while (true) {
      Call c;
      c.id = newid();
      c.svc = r.pick(g_svcs);
      c.type = sm::STRING;
      c.blen = 3;
      c.todo = "l3,rS";
      int cd = do_acall(c, 0);
      if (cd == -1) {
        if (tperrno != TPELIMIT) viol(fmt("tpacall-%d-instead-of-TPELIMIT", tperrno), fmt("with %zu calls outstanding: %s", out.size(), tpe().c_str()));
        break;
      }
      if (cd <= 0 || out.count(cd)) {
        viol("descriptor-not-unique", fmt("tpacall returned %d, %zu outstanding", cd, out.size()));
        break;
      }
      out[cd] = c.id;
      if (out.size() % 12 == 0) {
        for (auto &svc : g_svcs) {
          Call w;
          w.id = newid();
          w.svc = svc;
          w.type = w.rtype = sm::STRING;
          w.blen = w.rlen = 5;
          w.todo = "rS";
          long l = sm::put(&t_snd, w.type, planof(w), sm::body(w.id, 0, w.blen, true));
          sm::log("B id=%llu svc=%s n=1", (unsigned long long)w.id, svc.c_str());
          long ol = 0;
          int rc = tpcall(const_cast<char *>(svc.c_str()), t_snd, l, &rb, &ol, 0);
          int e = tperrno;
          if (rc == -1 && e == TPELIMIT) break;
          verify("tpcall near the limit", w, rc, e, tpurcode, rb, ol, "");
        }
      }
      if (out.size() > 20000) {
        viol("no-TPELIMIT", "20000 calls outstanding");
        break;
      }
    }
    dist("limit", fmt("%zu", out.size()));
    if (round == 0) {
      first = out.size();
      if (first < 30) viol("limit-too-low", fmt("TPELIMIT with %zu calls outstanding", first));
    } else if (out.size() != first) {
      viol("limit-moves", fmt("TPELIMIT with %zu calls outstanding, with %zu before", out.size(), first));
    }
    // other kinds of requests need no descriptor
    int nr = tpacall(const_cast<char *>(g_svcs[0].c_str()), nullptr, 0, TPNOREPLY);
    if (nr != 0) viol("TPNOREPLY-limited", fmt("tpacall(TPNOREPLY) at the limit: %d %s", nr, nr == -1 ? tpe().c_str() : ""));
    size_t keep = r.u(3) == 0 ? 0 : r.u(out.size());
    while (out.size() > keep) {
      auto it = out.begin();
      std::advance(it, r.u(out.size()));
      bool any = r.p(30);
      int cd = any ? 0 : it->first;
      if (r.p(10)) {
        cd = it->first;
        if (tpcancel(cd) == -1) viol("tpcancel-refused", tpe());
        out.erase(cd);
        continue;
      }
      long ol = 0;
      int rc = tpgetrply(&cd, &rb, &ol, any ? TPGETANY : 0);
      if (rc == -1) {
        viol(fmt("reply-lost-%d", tperrno), fmt("tpgetrply with %zu outstanding: %s", out.size(), tpe().c_str()));
        return;
      }
      it = out.find(cd);
      if (it == out.end()) {
        viol("reply-for-unknown-descriptor", fmt("descriptor %d", cd));
        return;
      }
      int t;
      std::string p, b, why;
      if (!sm::get(rb, ol, &t, &p, &b, &why) || sm::val(p, "re") != std::to_string(it->second))
        viol("reply-of-another-request", fmt("descriptor %d: %s %s", cd, p.c_str(), why.c_str()));
      out.erase(it);
      cnt("replies");
    }
  }
  tpfree(rb);
}

// args: pid of the only server of service Z2, which is stopped meanwhile
static void fullq(Rng &r, long n, pid_t pid) {
  char *rb = mkrecv(r);
  for (long round = 0; round < n; round++) {
    kill(pid, SIGSTOP);
    std::map<int, Call> out;
    int full = 0;
    size_t weight = 0;
    while (true) {
      Call c = mkcall(r, 0, 1, 0);
      c.svc = "Z2";
      if (full > 2) c.blen = r.u(20);  // what still fits
      c.todo = "l0,rS";
      c.rtype = c.type;
      c.rlen = 0;
      c.nulldata = false;
      c.rcode = 0;
      bool noreply = weight > 6000 || r.p(60);
      int cd = do_acall(c, TPNOBLOCK | (noreply ? TPNOREPLY : 0));
      if (cd == -1) {
        if (tperrno != TPEBLOCK) viol(fmt("full-queue-gives-%d", tperrno), "tpacall(TPNOBLOCK) to a full queue: " + tpe());
        if (++full > 6) break;
        continue;
      }
      if (!noreply) {
        out[cd] = c;
        weight += 400;
      }
    }
    cnt("queue_full");
    Call c = mkcall(r, 0, 1, 0);
    c.svc = "Z2";
    c.blen = 2000;
    long bt = r.in(30, 300);
    tpsblktime(bt, TPBLK_MILLISECOND | TPBLK_NEXT);
    c.todo = "rS";
    int64_t t0 = sm::now_ms();
    int cd = do_acall(c, r.p(50) ? TPNOREPLY : 0);
    int e = tperrno;
    int64_t dt = sm::now_ms() - t0;
    if (cd != -1 || e != TPETIME)
      viol("full-queue-no-timeout", fmt("tpacall to a full queue gave %d %d", cd, e));
    else if (dt < bt - 2 || dt > bt + 6000)
      viol("full-queue-timeout", fmt("block time %ld ms, TPETIME after %ld ms", bt, long(dt)));
    cnt("timeouts");
    // a blocked sender goes on when there is room again
    std::thread t([&] {
      usleep(100000);
      kill(pid, SIGCONT);
    });
    Call c2 = c;
    c2.id = newid();
    c2.nulldata = false;
    c2.rcode = 0;
    c2.todo = "l5,rS";
    c2.rtype = c2.type;
    c2.rlen = 5;
    cd = do_acall(c2, TPNOTIME);
    t.join();
    if (cd == -1)
      viol("blocked-send-fails", "tpacall(TPNOTIME): " + tpe());
    else
      out[cd] = c2;
    while (!out.empty()) {
      cd = 0;
      long ol = 0;
      int rc = tpgetrply(&cd, &rb, &ol, TPGETANY);
      e = tperrno;
      auto it = out.find(cd);
      if (it == out.end()) {
        viol("reply-for-unknown-descriptor", fmt("%d %d", cd, e));
        return;
      }
      verify("after full queue", it->second, rc, e, tpurcode, rb, ol, "");
      cnt("replies");
      out.erase(it);
    }
  }
  tpfree(rb);
}

// ---------------------------------------------------------------- administration
static void dump(FILE *f, FBFR32 *b) {
  FLDID32 id = FIRSTFLDID;
  FLDOCC32 oc = 0;
  while (Fnext32(b, &id, &oc, nullptr, nullptr) == 1) {
    FLDLEN32 len = 0;
    char *v = Ffind32(b, id, oc, &len);
    if (v == nullptr) {
      fprintf(f, "%d %d ?\n", int(id), int(oc));
      continue;
    }
    fprintf(f, "%d %d ", int(id), int(oc));
    switch (Fldtype32(id)) {
      case FLD_SHORT: fprintf(f, "%d", int(*reinterpret_cast<short *>(v))); break;
      case FLD_LONG: fprintf(f, "%ld", *reinterpret_cast<long *>(v)); break;
      case FLD_CHAR: fprintf(f, "%c", *v); break;
      case FLD_STRING: fprintf(f, "%s", v); break;
      default: fprintf(f, "type %d", Fldtype32(id));
    }
    fputc('\n', f);
  }
}

static FBFR32 *admbuf(size_t n = 4096) { return reinterpret_cast<FBFR32 *>(tpalloc(const_cast<char *>("FML32"), nullptr, n)); }

static std::string mibfile() { return std::string(getenv("USYS_LOG")) + ".mib." + std::to_string(getpid()); }

// One query; through the library or the administrative service
static int query(FILE *f, const char *klass, const char *op, bool service) {
  FBFR32 *in = admbuf();
  FBFR32 *out = admbuf(64);
  Fchg32(in, TA_CLASS, 0, const_cast<char *>(klass), 0);
  Fchg32(in, TA_OPERATION, 0, const_cast<char *>(op), 0);
  int rc;
  long len = 0;
  if (service)
    rc = tpcall(const_cast<char *>(".TMIB"), reinterpret_cast<char *>(in), 0, reinterpret_cast<char **>(&out), &len, 0);
  else
    rc = tpadmcall(in, &out, 0);
  int e = tperrno;
  if (f != nullptr) {
    fprintf(f, "== %d %d\n", rc, rc == -1 ? e : 0);
    dump(f, out);
    fprintf(f, "==end\n");
  }
  tpfree(reinterpret_cast<char *>(in));
  tpfree(reinterpret_cast<char *>(out));
  return rc == -1 ? e : 0;
}

// Requests that have to be refused; the service goes on
static void bad_queries(Rng &r, long n) {
  static const char *classes[] = {"T_DOMAIN", "T_MACHINE", "T_GROUP", "T_SERVICE", "T_SVCGRP", "T_SERVER", "T_QUEUE"};
  for (long i = 0; i < n; i++) {
    FBFR32 *in = admbuf();
    FBFR32 *out = admbuf(r.p(50) ? 0 : 1000);
    char *rq = reinterpret_cast<char *>(in);
    std::string what;
    bool lib = r.p(50);
    auto put = [&](FLDID32 id, const std::string &v) { Fchg32(in, id, 0, const_cast<char *>(v.c_str()), 0); };
    std::string k = classes[r.u(7)];
    switch (r.u(8)) {
      case 0: what = "no class"; put(TA_OPERATION, "GET"); break;
      case 1: what = "no operation"; put(TA_CLASS, k); break;
      case 2: what = "empty"; break;
      case 3: {
        what = "unknown class";
        static const char *bad[] = {"T_NOSUCH", "", "t_server", "T_SERVER ", "T_CLIENTX", "GET"};
        put(TA_CLASS, r.p(80) ? bad[r.u(6)] : std::string(5000, 'T'));
        put(TA_OPERATION, "GET");
        break;
      }
      case 4: {
        what = "unknown operation";
        static const char *bad[] = {"PUT", "", "get", "GETT", "GETNEXT", "DELETE"};
        put(TA_CLASS, k);
        put(TA_OPERATION, r.p(80) ? bad[r.u(6)] : std::string(9000, 'G'));
        break;
      }
      case 5:
        what = "SET without fields";
        put(TA_CLASS, r.p(50) ? "T_SERVER" : k);
        put(TA_OPERATION, "SET");
        if (r.p(50)) put(TA_SRVGRP, "NOSUCHGROUP");
        break;
      case 6: {
        // other types of buffers
        lib = false;
        int t = r.u(2);
        what = fmt("%s buffer", sm::tname(t));
        tpfree(rq);
        rq = tpalloc(const_cast<char *>(sm::tname(t)), nullptr, 5000);
        size_t m = r.u(4900);
        memset(rq, 'A' + int(r.u(26)), m);
        rq[m] = 0;
        break;
      }
      default: what = "no data"; lib = false; tpfree(rq); rq = nullptr; break;
    }
    int rc;
    long len = 0, l = rq == nullptr ? 0 : 4000;
    if (lib)
      rc = tpadmcall(in, &out, 0);
    else
      rc = tpcall(const_cast<char *>(".TMIB"), rq, l, reinterpret_cast<char **>(&out), &len, 0);
    int e = tperrno;
    if (rc != -1) viol("bad-query-accepted", what + (lib ? " by tpadmcall" : " by .TMIB"));
    else if (!lib && e != TPESVCFAIL && e != TPESVCERR) viol(fmt("bad-query-gives-%d", e), what);
    else if (lib && e == 0) viol("bad-query-gives-0", what);
    cnt("bad_queries");
    dist("bad_query", fmt("%s %d %d", what.c_str(), int(lib), e));
    if (rq != nullptr) tpfree(rq);
    tpfree(reinterpret_cast<char *>(out));
    if (r.p(20)) {
      e = query(nullptr, k.c_str(), "GET", r.p(50));
      if (e != 0) viol(fmt("query-gives-%d", e), "GET of " + k + " after bad ones");
    }
  }
}

// ---------------------------------------------------------------- under direction
// Does what the lines of standard input say, one @ACK each
static void talk(Rng &r) {
  char *rb = mkrecv(r);
  std::vector<Call> out;
  char line[512];
  long acks = 0;
  setvbuf(stdin, nullptr, _IONBF, 0);
  while (fgets(line, sizeof line, stdin) != nullptr) {
    char cmd[32] = "", svc[128] = "";
    long a = 0, b = 0;
    sscanf(line, "%31s %127s %ld %ld", cmd, svc, &a, &b);
    std::string c = cmd;
    std::string res;
    if (c == "call") {
      // a calls, all of which have to succeed
      for (long i = 0; i < a; i++) {
        Call q;
        q.id = newid();
        q.svc = svc;
        q.type = r.u(3);
        q.blen = anysize(r, 0);
        q.rtype = r.u(3);
        q.rlen = anysize(r, 0);
        q.todo = fmt("t%d,l%zu,rS", q.rtype, q.rlen);
        long l = sm::put(&t_snd, q.type, planof(q), sm::body(q.id, 0, q.blen, q.type == sm::STRING));
        sm::log("B id=%llu svc=%s n=1", (unsigned long long)q.id, svc);
        long ol = 0;
        int rc = tpcall(svc, t_snd, l, &rb, &ol, 0);
        int e = tperrno;
        long urc = tpurcode;
        sm::log("S id=%llu cd=0 err=%d", (unsigned long long)q.id, rc == -1 ? e : 0);
        if (rc == -1) {
          viol(fmt("offered-service-gives-%d", e), fmt("tpcall to %s, which is offered: %s", svc, tpe().c_str()));
          break;
        }
        verify("call", q, rc, e, urc, rb, ol, "");
        cnt("calls");
      }
    } else if (c == "gone") {
      int rc = tpacall(svc, nullptr, 0, TPNOREPLY | TPNOBLOCK);
      if (rc != -1 || tperrno != TPENOENT)
        viol(fmt("service-nobody-offers-gives-%d", rc == -1 ? tperrno : 0), fmt("tpacall to %s, which nobody offers", svc));
      cnt("gone");
    } else if (c == "open") {
      // a requests outstanding, each taking b ms
      for (long i = 0; i < a; i++) {
        Call q;
        q.id = newid();
        q.svc = svc;
        q.type = q.rtype = r.u(3);
        q.blen = r.p(30) ? 6000 : 10;
        q.rlen = 20;
        q.todo = fmt("s%ld,l20,rS", b);
        if (do_acall(q, 0) == -1)
          viol(fmt("tpacall-gives-%d", tperrno), fmt("tpacall to %s: %s", svc, tpe().c_str()));
        else
          out.push_back(q);
      }
    } else if (c == "kill") {
      // one request that kills its server
      Call q;
      q.id = newid();
      q.svc = svc;
      q.type = q.rtype = r.u(3);
      q.blen = 10;
      q.todo = "k,rS";
      if (do_acall(q, 0) == -1)
        viol(fmt("tpacall-gives-%d", tperrno), fmt("tpacall to %s: %s", svc, tpe().c_str()));
      else
        out.push_back(q);
    } else if (c == "get") {
      // everything outstanding ends, with its reply or TPETIME
      for (auto &q : out) {
        int cd = q.cd;
        long ol = 0;
        int64_t t0 = sm::now_ms();
        int rc = tpgetrply(&cd, &rb, &ol, 0);
        int e = tperrno;
        if (rc == -1 && e == TPETIME) {
          cnt("unanswered");
          tpcancel(q.cd);
        } else {
          verify("get", q, rc, e, tpurcode, rb, ol, "");
          cnt("answered");
        }
        if (sm::now_ms() - t0 > a + 8000) viol("get-takes-long", fmt("%ld ms with a block time of %ld ms", long(sm::now_ms() - t0), a));
      }
      out.clear();
    } else if (c == "mib") {
      // a queries of class svc, all ways
      FILE *f = fopen(mibfile().c_str(), "w");
      for (long i = 0; i < a; i++) {
        query(f, svc, "GET", b == 1 || (b == 2 && r.p(50)));
        cnt("queries");
      }
      fclose(f);
    } else if (c == "badmib") {
      bad_queries(r, a);
    } else if (c == "init") {
      tpinit(nullptr);
    } else if (c == "join") {
      if (tpinit(nullptr) == -1) viol("tpinit-refused", tpe());
    } else if (c == "term") {
      out.clear();
      tpterm();
    } else if (c == "exit") {
      _exit(0);
    } else if (c == "end") {
      printf("@ACK %ld\n", ++acks);
      break;
    }
    printf("@ACK %ld\n", ++acks);
    fflush(stdout);
  }
  tpfree(rb);
}

// Calls until the file appears.  Servers of services K* may be killed at any
// moment: such a call may fail, but never gives anything wrong
static void steady(Rng &r, const char *stop) {
  char *rb = mkrecv(r);
  while (access(stop, F_OK) != 0) {
    Call q = mkcall(r, 0, 1, 3);
    bool k = q.svc[0] == 'K';
    long l = sm::put(&t_snd, q.type, planof(q), sm::body(q.id, 0, q.blen, q.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)q.id, q.svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(q.svc.c_str()), t_snd, l, &rb, &ol, 0);
    int e = tperrno;
    long urc = tpurcode;
    sm::log("%s id=%llu cd=0 err=%d", rc == -1 || k ? "X" : "S", (unsigned long long)q.id, rc == -1 ? 13 : 13);
    if (k && rc == -1 && (e == TPETIME || e == TPENOENT || e == TPEOS || e == TPESYSTEM)) {
      cnt("failed_by_kills");
      dist("failed", fmt("%d", e));
      if (e == TPENOENT) usleep(20000);
      continue;
    }
    verify("steady", q, rc, e, urc, rb, ol, "");
    cnt("calls");
  }
  tpfree(rb);
}

// ---------------------------------------------------------------- transactions
static void tx_setup(TxWalk &w, Rng &r, const std::string &walker, const std::string &leaf) {
  w.viol = [](const std::string &k, const std::string &d) { viol(k, d); };
  w.note = [](const char *what, const std::string &t) {
    if (*what == 'L') sm::log("%s", t.c_str());
    else if (*what == 'C') cnt(t);
    else dist(what, t);
  };
  w.state = TxWalk::s0;
  w.call = [&w, &r, walker, leaf](int kind, bool notran, bool *orb) -> int {
    static thread_local char *rb;
    if (rb == nullptr) rb = mkrecv(r);
    uint64_t id = newid();
    bool finish = r.p(85);
    std::string todo = kind == 0 ? "rS" : kind == 1 ? "rF"
                       : fmt("w%u.%u.%d.%d,t1,l5,rS", unsigned(r.u(1000000000)), unsigned(3 + r.u(25)), int(finish), int(w.crowded));
    std::string plan = fmt("id=%llu st=0 ty=1 bl=3 x=%s do=", (unsigned long long)id, notran ? "" : w.xid.c_str()) + todo;
    long l = sm::put(&t_snd, 1, plan, sm::body(id, 0, 3, true));
    long ol = 0;
    const std::string &svc = kind == 2 ? walker : leaf;
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)id, svc.c_str());
    int rc = tpcall(const_cast<char *>(svc.c_str()), t_snd, l, &rb, &ol, notran ? TPNOTRAN : 0), e = tperrno;
    sm::log("S id=%llu cd=0 err=%d", (unsigned long long)id, rc == -1 ? e : 0);
    cnt("calls");
    int want = kind == 1 ? TPESVCFAIL : 0;
    if (kind == 2 && !finish && rc == -1 && e == TPESVCERR) want = TPESVCERR;
    if ((rc == -1 ? e : 0) != want) {
      viol(fmt("call-gives-%d", rc == -1 ? e : 0), fmt("call %s in S%d%s gives %d, not %d", todo.c_str(), w.state, notran ? " with TPNOTRAN" : "", rc == -1 ? e : 0, want));
    } else if (rc != -1 && kind == 2) {
      int rt;
      std::string rp, bb, why;
      if (!sm::get(rb, ol, &rt, &rp, &bb, &why) || sm::val(rp, "re") != std::to_string(id)) viol("walk-reply", why + rp);
      else {
        *orb = sm::val(rp, "rb") == "1";
        if (sm::val(rp, "open") == "1") viol("open-transaction-accepted", "a service left a transaction open and returned TPSUCCESS");
        cnt("server_steps", atol(sm::val(rp, "w").c_str()));
      }
    }
    return rc != -1;
  };
}

static void txwalk(Rng &r, long n, const std::string &walker, const std::string &leaf, bool crowded) {
  TxWalk w;
  tx_setup(w, r, walker, leaf);
  w.crowded = crowded;
  // nothing has been opened
  w.look();
  long all = n;
  while (n > 0) {
    long k = 1 + r.u(60);
    w.walk(r, k);
    if (n > all / 2 && n - k <= all / 2 && all > 300) w.many(r);
    n -= k;
    if (r.p(30)) w.settle(r, true);
  }
  w.settle(r, true);
}

// Transactions over several resource managers that fail in every way. What
// became of each is compared with the records of the resource managers later.
struct Atom {
  Rng &r;
  bool faults, kills;
  int maxdelay;
  char *rb;
  std::vector<std::string> fronts, mids, leaves;
  struct Tx {
    std::string xid;
    int failed = 0;
    bool doomed = false, maybe = false;  // has to be, may be rollback-only
    std::vector<std::pair<int, Call>> out, lost;
  };

  std::string gen(Tx *tx, bool front, bool own, bool *fails, bool *dooms) {
    std::string s;
    if (maxdelay && r.p(30)) s += fmt("s%ld,", r.in(0, maxdelay));
    long k = front ? r.u(4) : 0;
    for (long i = 0; i < k; i++) {
      if (own) {
        s += std::string("B") + (r.p(75) ? "c" : "r");
        for (long m = r.u(4); m > 0; m--) s += "+" + r.pick(leaves);
        s += ",";
      } else if (r.p(70)) {
        s += "n" + r.pick(leaves) + ",";
      } else if (r.p(60)) {
        s += "q" + r.pick(leaves) + ",";
      } else if (r.p(40)) {
        s += "m" + r.pick(leaves) + ",";
        *dooms = true;
      }
      if (maxdelay && r.p(20)) s += fmt("s%ld,", r.in(0, maxdelay));
    }
    if (kills && r.p(4)) {
      s += "k,";
      *fails = true;
    }
    if (front && r.p(25)) return s + "f" + r.pick(mids) + "/" + gen(tx, false, own, fails, dooms);
    if (r.p(8)) {
      *fails = true;
      return s + (r.p(60) ? "rF" : r.p(50) ? "rV" : "rN");
    }
    return s + "rS";
  }
  void info(Tx &tx, const char *when) {
    TXINFO ti;
    memset(&ti, 0, sizeof ti);
    int rc = tx_info(&ti);
    if (rc != 1 || TxWalk::hex(ti.xid) != tx.xid) {
      viol("not-in-transaction", fmt("%s: tx_info gives %d in '%s' not in '%s'", when, rc, TxWalk::hex(ti.xid).c_str(), tx.xid.c_str()));
      return;
    }
    bool ro = ti.transaction_state == TX_ROLLBACK_ONLY;
    if (tx.doomed && !ro) viol("failed-but-not-rollback-only", fmt("%s: transaction %s with failed work is in state %ld", when, tx.xid.c_str(), long(ti.transaction_state)));
    if (ro && !tx.doomed && !tx.maybe) viol("rollback-only-without-reason", fmt("%s: transaction %s", when, tx.xid.c_str()));
  }
  Call mk(Tx &tx, bool notran, bool *fails, bool *dooms) {
    Call c;
    c.id = newid();
    c.type = 1;
    c.blen = 3;
    bool front = r.p(60);
    c.svc = r.pick(front ? fronts : leaves);
    c.todo = gen(&tx, front, notran, fails, dooms);
    return c;
  }
  std::string plan(const Call &c, const std::string &x) {
    return fmt("id=%llu st=0 ty=1 bl=3 x=%s do=", (unsigned long long)c.id, x.c_str()) + c.todo;
  }
  void result(Tx *tx, const Call &c, int rc, int e, bool fails, bool dooms) {
    bool bad = rc == -1;
    dist("atom_call", fmt("%d%s%s", bad ? e : 0, fails ? " told to fail" : "", tx ? "" : " outside"));
    if (!bad && fails) viol("failure-not-reported", fmt("call %s of %s succeeds", c.todo.c_str(), c.svc.c_str()));
    if (bad && !fails && !(faults && e == TPESVCERR && tx) && !(kills && (e == TPETIME || e == TPESVCERR || e == TPENOENT))) viol(fmt("call-fails-%d", e), fmt("call %s of %s fails with %d", c.todo.c_str(), c.svc.c_str(), e));
    if (bad && fails && !(e == TPESVCFAIL || e == TPESVCERR || (kills && (e == TPETIME || e == TPENOENT)))) viol(fmt("call-fails-%d", e), fmt("call %s of %s fails with %d", c.todo.c_str(), c.svc.c_str(), e));
    if (tx == nullptr) return;
    if (bad && e == TPENOENT) {  // nothing was sent, perhaps
      tx->maybe = true;
      return;
    }
    if (bad) {
      tx->failed++;
      tx->doomed = true;
    }
    if (dooms && !bad && !kills) tx->doomed = true;
  }
  void step(Tx &tx, int depth) {
    int k = r.u(100);
    if (k < 45) {
      bool fails = false, dooms = false;
      bool notran = r.p(15);
      Call c = mk(tx, notran, &fails, &dooms);
      long l = sm::put(&t_snd, 1, plan(c, notran ? "" : tx.xid), sm::body(c.id, 0, 3, true)), ol = 0;
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, notran ? TPNOTRAN : 0), e = tperrno;
      sm::log("%s id=%llu cd=0 err=%d", rc == -1 ? "G" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
      cnt("calls");
      // its nested calls might have failed as well
      if (faults || kills || dooms) tx.maybe = true;
      result(notran ? nullptr : &tx, c, rc, e, fails, notran ? false : dooms);
      info(tx, "after a call");
    } else if (k < 65) {
      bool fails = false, dooms = false;
      Call c = mk(tx, false, &fails, &dooms);
      c.err = fails;
      c.nulldata = dooms;
      long l = sm::put(&t_snd, 1, plan(c, tx.xid), sm::body(c.id, 0, 3, true));
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      int cd = tpacall(const_cast<char *>(c.svc.c_str()), t_snd, l, 0);
      sm::log("S id=%llu cd=%d err=0", (unsigned long long)c.id, cd);
      if (cd == -1) {
        if (!(kills && tperrno == TPENOENT)) viol("tpacall-fails", tpe());
        return;
      }
      cnt("acalls");
      // whatever it does can happen any time from now
      tx.maybe = true;
      tx.out.push_back({cd, c});
      info(tx, "after tpacall");
    } else if (k < 85) {
      collect(tx);
    } else if (depth < 2) {
      TPTRANID id;
      if (tpsuspend(&id, 0) == -1) {
        viol("tpsuspend-fails", tpe());
        return;
      }
      cnt("suspended");
      if (r.p(80)) one(depth + 1);
      if (tpresume(&id, 0) == -1) {
        viol("tpresume-fails", tpe());
        return;
      }
      info(tx, "after tpresume");
    }
  }
  void collect(Tx &tx) {
    if (tx.out.empty()) return;
    size_t i = r.u(tx.out.size());
    int cd = tx.out[i].first;
    Call c = tx.out[i].second;
    tx.out.erase(tx.out.begin() + i);
    long ol = 0;
    int want = cd;
    int rc = tpgetrply(&cd, &rb, &ol, 0), e = tperrno;
    if (rc == -1 && e == TPETIME && kills) {
      // it can be asked for again
      tx.lost.push_back({want, c});
      cnt("timeouts");
      return;
    }
    if (rc != -1 && cd != want) viol("other-reply", fmt("asked for %d, got %d", want, cd));
    cnt("collected");
    result(&tx, c, rc, e, c.err, c.nulldata);
    info(tx, "after tpgetrply");
  }
  void one(int depth) {
    Tx tx;
    int rc = r.p(50) ? tx_begin() : tpbegin(0, 0) == 0 ? TX_OK : -100 - tperrno;
    if (rc != TX_OK) {
      viol(fmt("begin-gives-%d", rc), "");
      return;
    }
    TXINFO ti;
    memset(&ti, 0, sizeof ti);
    tx_info(&ti);
    tx.xid = TxWalk::hex(ti.xid);
    sm::log("N xid=%s", tx.xid.c_str());
    long k = r.u(depth ? 4 : 8);
    for (long i = 0; i < k; i++) step(tx, depth);
    if (r.p(85))
      while (!tx.out.empty()) collect(tx);
    memset(&ti, 0, sizeof ti);
    tx_info(&ti);
    bool commit = r.p(80);
    bool tp = r.p(50);
    if (commit) {
      rc = tp ? (tpcommit(0) == 0 ? TX_OK : tperrno == TPEABORT ? TX_ROLLBACK : tperrno == TPEHEURISTIC ? TX_MIXED : tperrno == TPEHAZARD ? TX_HAZARD : -100 - tperrno) : tx_commit();
    } else {
      rc = tp ? (tpabort(0) == 0 ? TX_OK : tperrno == TPEPROTO ? TX_COMMITTED : tperrno == TPEHEURISTIC ? TX_MIXED : tperrno == TPEHAZARD ? TX_HAZARD : -100 - tperrno) : tx_rollback();
    }
    sm::log("T xid=%s op=%s rc=%d st=%ld failed=%d open=%zu doomed=%d maybe=%d pid=%d", tx.xid.c_str(), commit ? "commit" : "rollback", rc,
            long(ti.transaction_state), tx.failed, tx.out.size() + tx.lost.size(), int(tx.doomed), int(tx.maybe), getpid());
    cnt("transactions");
    memset(&ti, 0, sizeof ti);
    if (int now = tx_info(&ti); now != 0) viol("in-transaction-after-its-end", fmt("tx_info gives %d after %s", now, tx.xid.c_str()));
    // replies of the work left behind are of no use anymore
    for (auto &o : tx.out) {
      long ol = 0;
      int cd = o.first;
      int g = tpgetrply(&cd, &rb, &ol, TPNOBLOCK);
      if (g != -1 || tperrno != TPEBADDESC) viol("descriptor-outlives-transaction", fmt("tpgetrply gives %d %s", g, tpe().c_str()));
    }
  }
};

static void txatom(Rng &r, long n, bool faults, bool kills, int maxdelay) {
  Atom a{r, faults, kills, maxdelay, mkrecv(r), sm::split(getenv("UCLI_FRONTS"), ','), sm::split(getenv("UCLI_MIDS"), ','), sm::split(getenv("UCLI_LEAVES"), ',')};
  int rc = tx_open();
  if (rc != TX_OK) viol("tx_open", fmt("%d", rc));
  for (long i = 0; i < n; i++) {
    if (r.p(10)) {
      // work outside of transactions, services have their own
      Atom::Tx none;
      bool fails = false, dooms = false;
      Call c = a.mk(none, true, &fails, &dooms);
      long l = sm::put(&t_snd, 1, a.plan(c, ""), sm::body(c.id, 0, 3, true)), ol = 0;
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &a.rb, &ol, 0), e = tperrno;
      sm::log("%s id=%llu cd=0 err=%d", rc == -1 ? "G" : "S", (unsigned long long)c.id, rc == -1 ? e : 0);
      a.result(nullptr, c, rc, e, fails, dooms);
    }
    a.one(0);
  }
  rc = tx_close();
  if (rc != TX_OK) viol("tx_close", fmt("%d", rc));
  tpfree(a.rb);
}

// The table of transactions fills up; it is an error then, until one ends
static void txfull(Rng &r, long n, long others) {
  TxWalk w;
  tx_setup(w, r, "", "");
  w.call = nullptr;
  tx_open();
  w.state = TxWalk::s1;
  long cap = -1;
  for (long i = 0; i < n; i++) {
    if (r.p(30)) {
      int c = r.u(2);
      tx_set_transaction_control(c);
      w.control = c;
      w.state = w.in() ? (c ? TxWalk::s4 : TxWalk::s3) : (c ? TxWalk::s2 : TxWalk::s1);
    }
    // as many as there can be
    for (long guard = 0; guard < 100000; guard++) {
      int rc = r.p(50) ? tx_begin() : (tpbegin(0, 0) == 0 ? TX_OK : tperrno == TPERMERR ? TX_ERROR : tperrno);
      w.timeout = 0;
      tx_set_transaction_timeout(0);
      if (rc == TX_ERROR) {
        w.look();
        break;
      }
      if (!w.eq("tx_begin", rc, TX_OK)) return;
      w.begun();
      w.suspend(r, true);
    }
    long held = w.susp.size();
    dist("table", fmt("%ld", held));
    if (held < 10 && others == 0) viol("table-small", fmt("only %ld transactions can be started", held));
    if (others == 0) {
      if (cap != -1 && held != cap)
        viol("table-capacity-changes", fmt("%ld transactions fit, %ld before", held, cap));
      cap = held;
    }
    cnt("table_full");
    // full: all else goes on, with the transactions there are
    long m = r.p(20) ? held : r.u(held / 3 + 1);
    for (long k = 0; k < m; k++) {
      w.resume(r, int(r.u(w.susp.size())));
      if (!w.in()) {
        viol("resume-in-full-table", w.last);
        return;
      }
      w.look();
      w.crowded = others != 0;
      int rc;
      if (r.p(50)) rc = tx_commit();
      else rc = tx_rollback();
      w.ended(rc, "tx_end", TX_OK);
      w.crowded = false;
      if (w.in()) w.suspend(r, true);  // chained
    }
    long now = w.susp.size();
    if (w.control == TX_UNCHAINED && others == 0) {
      // exactly these can be started again
      for (long k = 0; k < held - now + 1; k++) {
        int rc = tx_begin();
        if (!w.eq(k < held - now ? "tx_begin" : "tx_begin(full)", rc, k < held - now ? TX_OK : TX_ERROR)) return;
        if (rc != TX_OK) break;
        w.begun();
        w.suspend(r, true);
      }
      cnt("table_refilled");
    }
    // some or all end
    tx_set_transaction_control(TX_UNCHAINED);
    w.control = TX_UNCHAINED;
    w.state = TxWalk::s1;
    long left = r.p(50) ? 0 : r.u(w.susp.size() + 1);
    while (long(w.susp.size()) > left) {
      w.resume(r, int(r.u(w.susp.size())));
      if (!w.in()) return;
      w.ended(r.p(50) ? tx_commit() : tx_rollback(), "tx_end", TX_OK);
    }
    if (others == 0) {
      // the rest counts
    }
  }
  while (!w.susp.empty()) {
    w.resume(r, int(r.u(w.susp.size())));
    if (!w.in()) return;
    w.ended(tx_rollback(), "tx_end", TX_OK);
  }
}

// Threads with a client of their own each, that come and go
static void thcalls(Rng &r, long n, int threads, int rounds, const std::string &adv, int maxdelay) {
  for (int k = 0; k < rounds; k++) {
    std::vector<std::thread> th;
    std::atomic<int> ready{0};
    for (int i = 0; i < threads; i++) {
      uint64_t sd = r.next();
      th.emplace_back([&, sd, i] {
        Rng tr(sd);
        ready.fetch_add(1);
        while (ready.load() < threads) {
        }
        for (int parts = 1 + tr.u(3); parts > 0; parts--) {
          int what = tr.u(8);
          if (what < 4) {
            calls(tr, n, 0, 3, maxdelay);
          } else if (what < 6) {
            calls(tr, n, 1, 1, maxdelay);
          } else if (what == 6) {
            advertise(tr, n / 4 + 1, adv);
          } else {
            static const char *const K[] = {"T_DOMAIN", "T_MACHINE", "T_GROUP", "T_SERVER", "T_SERVICE", "T_SVCGRP", "T_QUEUE"};
            for (long q = 0; q < n / 4 + 1; q++) {
              char *b = nullptr;
              size_t bl = 0;
              FILE *f = open_memstream(&b, &bl);
              int rc = query(f, K[tr.u(7)], "GET", tr.p(50));
              fclose(f);
              if (rc != 0) viol("administration", fmt("%d %s", rc, b));
              free(b);
              cnt("queries");
            }
          }
          dist("part", fmt("%d", what));
          // a new client from here on
          if (tr.p(40)) {
            tpterm();
            cnt("terms");
          }
          if (tr.p(30)) userlog(const_cast<char *>("thread %d part %d"), i, parts);
        }
        // some just end
        if (tr.p(50)) tpterm();
        tpfree(t_snd);
        t_snd = nullptr;
        cnt("client_threads");
        t_tally.flush();
      });
    }
    for (auto &t : th) t.join();
  }
}

// Block times of the thread and of the next call, set, asked for and used up; bt is that of the domain
static void blktime(Rng &r, long n, long bt) {
  char *rb = mkrecv(r);
  long next = 0, all = 0;
  std::string hist;
  for (long i = 0; i < n; i++) {
    int k = r.u(100);
    bool isnext = r.p(60), sec = r.p(40);
    long fl = (sec ? TPBLK_SECOND : TPBLK_MILLISECOND) | (isnext ? TPBLK_NEXT : TPBLK_ALL);
    if (k < 25) {
      int got = tpgblktime(fl);
      long want = isnext ? next : all;
      if (got != (sec ? want / 1000 : want))
        viol("tpgblktime", fmt("%s block time is %ld ms, tpgblktime gives %d %s after%s", isnext ? "next" : "thread's", want, got, sec ? "s" : "ms", hist.c_str()));
      cnt("blktime_reads");
      continue;
    }
    if (k < 55) {
      long v = r.p(20) ? 0 : sec ? (r.p(60) ? 1 + r.u(2) : 30 + r.u(60)) : (r.p(60) ? 50 + r.u(900) : 30000 + r.u(60000));
      if (tpsblktime(v, fl) == -1) viol("tpsblktime-refused", tpe());
      (isnext ? next : all) = sec ? v * 1000 : v;
      hist += fmt(" %s=%ld%s", isnext ? "next" : "all", v, sec ? "s" : "ms");
      continue;
    }
    bool split = r.p(30), notime = next == 0 && r.p(10);
    long L = next && !split ? next : all ? all : bt;
    Call c;
    c.id = newid();
    c.svc = "Z1";
    c.type = r.u(3);
    c.blen = r.u(300);
    c.rtype = r.u(3);
    c.rlen = r.u(300);
    bool quick = r.p(35);
    // too slow, in time by far, or at once
    bool tooslow = !quick && !notime && L < 10000;
    long ms = quick ? 0 : tooslow ? L + 2500 + r.u(300) : notime && L < 10000 ? L + 2500 : 2600 + r.u(900);
    c.todo = fmt("s%ld,t%d,l%zu,rS", ms, c.rtype, c.rlen);
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING)), ol = 0;
    sm::log("B id=%llu svc=Z1 n=1", (unsigned long long)c.id);
    int64_t t0 = sm::now_ms();
    int rc, cd = -1;
    if (split) {
      cd = tpacall(const_cast<char *>("Z1"), t_snd, l, 0);
      if (cd == -1) {
        viol("tpacall-refused", tpe());
        return;
      }
      t0 = sm::now_ms();
      int cd2 = cd;
      rc = tpgetrply(&cd2, &rb, &ol, notime ? TPNOTIME : 0);
    } else {
      rc = tpcall(const_cast<char *>("Z1"), t_snd, l, &rb, &ol, notime ? TPNOTIME : 0);
    }
    int e = tperrno;
    long urc = tpurcode;
    int64_t dt = sm::now_ms() - t0;
    sm::log("O id=%llu rc=%d err=%d", (unsigned long long)c.id, rc, e);
    std::string how = fmt("block time %ld ms (next %ld, thread %ld, domain %ld)%s, service takes %ld ms: %d after %ld ms, after%s", L, next, all, bt,
                          notime ? " TPNOTIME" : "", ms, rc == -1 ? e : 0, long(dt), hist.c_str());
    bool late = rc == -1 && e == TPETIME;
    if (late && (notime || dt < L - 2)) viol("timeout-too-early", how);
    else if (late && dt > L + 6000) viol("timeout-too-late", how);
    else if (tooslow && !late) viol("no-timeout", how);
    else if (!late) verify("tpcall", c, rc, e, urc, rb, ol, "");
    if (late && split && tpcancel(cd) == -1) viol("tpcancel-refused", tpe());
    hist += fmt(" call(%ld)", ms);
    if (hist.size() > 200) hist = hist.substr(hist.size() - 200);
    next = 0;
    cnt(tooslow ? "timeouts" : "blktime_calls");
    dist("timeout", fmt("set %d %d %d %d %d", int(split), int(notime), int(tooslow), int(quick), int(all != 0)));
  }
  tpfree(rb);
}

// A long life of one client: requests whose replies are fetched only after tens of thousands of other calls, and
// joining and leaving more often than there are entries for clients.
static void marathon(Rng &r, long n, long joins) {
  char *rb = mkrecv(r);
  std::map<int, Call> held;
  auto small = [&](const std::string &svc) {
    Call c;
    c.id = newid();
    c.svc = svc;
    c.type = c.rtype = r.p(50) ? sm::STRING : sm::CARRAY;
    // more messages in files than there may be files open
    c.blen = c.rlen = r.u(100) < 4 ? 4000 + r.u(9000) : r.u(40);
    c.rcode = r.u(1000);
    c.todo = fmt("c%ld,rS", c.rcode);
    return c;
  };
  auto hold = [&] {
    Call c = small(r.pick(g_svcs));
    int cd = do_acall(c, 0);
    if (cd <= 0 || held.count(cd)) {
      viol("descriptor-not-unique", fmt("tpacall returned %d (%s) with %zu outstanding", cd, cd == -1 ? tpe().c_str() : "", held.size()));
      return;
    }
    held[cd] = c;
  };
  auto fetch = [&](long after) {
    auto it = held.begin();
    std::advance(it, r.u(held.size()));
    int cd = it->first;
    long ol = 0;
    int rc = tpgetrply(&cd, &rb, &ol, 0);
    int e = tperrno;
    if (rc != -1 && cd != it->first) viol("other-descriptor", fmt("tpgetrply of %d gave %d", it->first, cd));
    verify(fmt("reply fetched after %ld calls", after).c_str(), it->second, rc, e, tpurcode, rb, ol, "");
    held.erase(it);
    cnt("replies");
    cnt("held_replies");
  };
  while (held.size() < 12) hold();
  long next = 100;
  for (long i = 0; i < n; i++) {
    Call c = small(g_svcs[i % g_svcs.size()]);
    if (r.p(20)) {
      int cd = do_acall(c, 0);
      if (cd <= 0 || held.count(cd)) {
        viol("descriptor-not-unique", fmt("tpacall number %ld returned %d (%s) with %zu outstanding", i, cd, cd == -1 ? tpe().c_str() : "", held.size()));
        break;
      }
      int want = cd;
      long ol = 0;
      int rc = tpgetrply(&cd, &rb, &ol, 0);
      int e = tperrno;
      if (rc != -1 && cd != want) viol("other-descriptor", fmt("tpgetrply of %d gave %d", want, cd));
      if (!verify("tpgetrply", c, rc, e, tpurcode, rb, ol, "")) break;
      cnt("replies");
    } else {
      long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
      sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
      long ol = 0;
      int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
      int e = tperrno;
      if (!verify("tpcall", c, rc, e, tpurcode, rb, ol, "")) break;
      cnt("tpcalls");
    }
    if (i == next) {
      next *= 3;
      fetch(i);
      if (r.p(50)) hold();
    }
  }
  while (!held.empty()) fetch(n);
  tpfree(rb);
  tpfree(t_snd);
  t_snd = nullptr;
  dist("marathon", fmt("%ld", n));
  for (long i = 0; i < joins; i++) {
    if (tpterm() == -1) viol("tpterm", tpe());
    if (r.p(50) && tpinit(nullptr) == -1) viol("join-refused", fmt("tpinit number %ld: %s", i, tpe().c_str()));
    rb = mkrecv(r);
    Call c = small(g_svcs[i % g_svcs.size()]);
    long l = sm::put(&t_snd, c.type, planof(c), sm::body(c.id, 0, c.blen, c.type == sm::STRING));
    sm::log("B id=%llu svc=%s n=1", (unsigned long long)c.id, c.svc.c_str());
    long ol = 0;
    int rc = tpcall(const_cast<char *>(c.svc.c_str()), t_snd, l, &rb, &ol, 0);
    int e = tperrno;
    if (!verify(fmt("tpcall after joining %ld times", i + 1).c_str(), c, rc, e, tpurcode, rb, ol, "")) break;
    tpfree(rb);
    tpfree(t_snd);
    t_snd = nullptr;
    cnt("joins");
  }
}

static bool more_modes(const std::string &mode, Rng &r, long n, int argc, char **argv) {
  int maxdelay = getenv("UCLI_DELAY") ? atoi(getenv("UCLI_DELAY")) : 0;
  if (mode == "refused") {
    outcome(r, n, maxdelay);
  } else if (mode == "advertise") {
    advertise(r, n, argv[0]);
  } else if (mode == "exits") {
    exits(r);
  } else if (mode == "desc") {
    desc(r, n, maxdelay, false);
  } else if (mode == "slow") {
    desc(r, n, maxdelay, true);
  } else if (mode == "deftime") {
    deftime(r, n, atol(argv[0]), argc > 1 ? argv[1] : nullptr);
  } else if (mode == "signals") {
    signals(r, n, atol(argv[0]));
  } else if (mode == "blktime") {
    blktime(r, n, atol(argv[0]));
  } else if (mode == "leave") {
    leave(r, n, argv[0]);
  } else if (mode == "talk") {
    talk(r);
  } else if (mode == "steady") {
    steady(r, argv[0]);
  } else if (mode == "advertise1") {
    advertise1(r, n, argv[0], argv[1]);
  } else if (mode == "txwalk") {
    int nt = argc > 3 ? atoi(argv[3]) : 1;
    if (nt < 2) {
      txwalk(r, n, argv[0], argv[1], atoi(argv[2]));
    } else {
      std::vector<std::thread> th;
      for (int i = 0; i < nt; i++) {
        uint64_t sd = r.next();
        th.emplace_back([=] {
          Rng tr(sd);
          txwalk(tr, n, argv[0], argv[1], atoi(argv[2]));
          tpterm();
          t_tally.flush();
        });
      }
      for (auto &t : th) t.join();
    }
  } else if (mode == "txatom") {
    int nt = atoi(argv[3]);
    if (nt < 2) {
      txatom(r, n, atoi(argv[0]), atoi(argv[1]), atoi(argv[2]));
    } else {
      std::vector<std::thread> th;
      for (int i = 0; i < nt; i++) {
        uint64_t sd = r.next();
        th.emplace_back([=] {
          Rng tr(sd);
          txatom(tr, n, atoi(argv[0]), atoi(argv[1]), atoi(argv[2]));
          tpterm();
          t_tally.flush();
        });
      }
      for (auto &t : th) t.join();
    }
  } else if (mode == "thcalls") {
    thcalls(r, n, atoi(argv[0]), atoi(argv[1]), argv[2], atoi(argv[3]));
  } else if (mode == "txfull") {
    txfull(r, n, atoi(argv[0]));
  } else if (mode == "limit") {
    limit(r, n);
  } else if (mode == "marathon") {
    marathon(r, n, atol(argv[0]));
  } else if (mode == "full") {
    fullq(r, n, atoi(argv[0]));
  } else {
    return false;
  }
  return true;
}
