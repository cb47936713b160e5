// Random walk over the transaction calls of one thread with a model of what
// each has to return and what tx_info has to say afterwards.
#pragma once
#include <atmi.h>
#include <stdarg.h>
#include <string.h>
#include <tx.h>
#include <xa.h>
#include <functional>
#include <string>
#include <vector>
#include "vh.h"

struct TxWalk {
  enum { s0, s1, s2, s3, s4 };
  int state = s1;
  long when = 0, control = TX_UNCHAINED, timeout = 0;
  std::string xid;      // of the current transaction
  bool joined = false;  // it belongs to somebody else
  bool rb = false, maybe = false;
  struct Susp {
    std::string xid;
    TPTRANID id;
    bool joined, rb, maybe;
  };
  std::vector<Susp> susp;
  std::vector<TPTRANID> gone;  // ids of transactions that have ended
  bool server = false, crowded = false;
  std::function<void(const std::string &, const std::string &)> viol;
  std::function<void(const char *, const std::string &)> note;  // dist/cnt/log
  // kind 0 success, 1 failure, 2 a service that walks itself; 1 success, 0 failed, -1 as not expected
  std::function<int(int kind, bool notran, bool *rb)> call;
  // the next xa_open or xa_close fails like this, and whether there was one
  std::function<void(int)> rmfail;
  std::function<bool()> rmfailed;
  std::string last;
  long steps = 0;

  static std::string hex(const XID &x) {
    if (x.formatID == -1) return "";
    std::string s = std::to_string(x.formatID) + ".";
    char h[4];
    for (long i = 0; i < x.gtrid_length + x.bqual_length && i < XIDDATASIZE; i++) {
      snprintf(h, sizeof h, "%02x", (unsigned char)x.data[i]);
      s += h;
    }
    return s;
  }
  bool in() const { return state == s3 || state == s4; }
  void bad(const std::string &key, const std::string &d) {
    viol(key, vh::fmt("%s; state S%d%s%s, before: %s", d.c_str(), state, joined ? " joined" : "", server ? " in a server" : "", last.c_str()));
  }
  // what a call returned
  bool eq(const char *what, long got, long want) {
    note("C", "tx_calls");
    note("tx_call", vh::fmt("%s S%d%s%s%s = %ld", what, state, joined ? "j" : "", rb ? "r" : "", server ? " server" : "", want));
    last = vh::fmt("%s = %ld", what, got) + (last.empty() ? "" : ", " + last.substr(0, 150));
    if (got == want) return true;
    bad(vh::fmt("%s-returned-%ld-not-%ld", what, got, want), vh::fmt("%s returned %ld, not %ld", what, got, want));
    resync();
    return false;
  }
  bool tp(const char *what, int rc, int e, int want) {
    // 0 or -1
    return eq(what, rc == -1 ? e : rc == 0 ? 0 : 1000 + rc, want);
  }
  // after a difference: go on from what the library says
  void resync() {
    TXINFO i;
    memset(&i, 0, sizeof i);
    int rc = tx_info(&i);
    if (rc < 0) {
      state = s0;
      xid = "";
      return;
    }
    control = i.transaction_control;
    when = i.when_return;
    timeout = i.transaction_timeout;
    xid = hex(i.xid);
    state = rc == 1 ? (control ? s4 : s3) : (control ? s2 : s1);
    rb = i.transaction_state == TX_ROLLBACK_ONLY;
    if (rc == 0) joined = false;
  }
  void look() {
    TXINFO i;
    memset(&i, 0x5a, sizeof i);
    int rc = tx_info(&i);
    if (state == s0) {
      eq("tx_info", rc, TX_PROTOCOL_ERROR);
      return;
    }
    if (!eq("tx_info", rc, in() ? 1 : 0)) return;
    std::string x = hex(i.xid);
    if (x != xid) bad("tx_info-xid", "tx_info says " + x + ", not " + xid);
    if (i.when_return != when) bad("tx_info-when", vh::fmt("when_return %ld, not %ld", i.when_return, when));
    if (i.transaction_control != control) bad("tx_info-control", vh::fmt("transaction_control %ld, not %ld", i.transaction_control, control));
    if (i.transaction_timeout != timeout) bad("tx_info-timeout", vh::fmt("transaction_timeout %ld, not %ld", i.transaction_timeout, timeout));
    if (in()) {
      long w = rb ? TX_ROLLBACK_ONLY : TX_ACTIVE;
      if (i.transaction_state != w && !(maybe && !rb && i.transaction_state == TX_ROLLBACK_ONLY) && !(joined && !rb && i.transaction_state == TX_ROLLBACK_ONLY))
        bad("tx_info-state", vh::fmt("transaction_state %ld, not %ld", i.transaction_state, w));
    }
    note("C", "tx_infos");
  }
  // a new transaction is there: its id is new
  void fresh() {
    TXINFO i;
    memset(&i, 0, sizeof i);
    if (tx_info(&i) != 1) {
      bad("no-transaction-after-begin", "tx_info does not report the transaction started");
      resync();
      return;
    }
    xid = hex(i.xid);
    if (xid.empty()) bad("null-xid", "transaction with a null XID");
    joined = rb = maybe = false;
    note("L", "N xid=" + xid);
    note("C", "transactions");
  }
  void begun() {
    state = state == s1 ? s3 : s4;
    fresh();
  }
  // commit or rollback
  void ended(int rc, const char *what, int want) {
    bool nb = false;
    if (state == s4 && crowded && rc <= TX_NO_BEGIN) {
      nb = true;
      want = want == TX_OK ? TX_NO_BEGIN : want + TX_NO_BEGIN;
    }
    if (maybe && !rb && want == TX_OK && rc == TX_ROLLBACK && !strcmp(what, "tx_commit")) want = rc;
    if (!eq(what, rc, want)) return;
    note("L", "G xid=" + xid);
    TPTRANID t;
    memset(&t, 0, sizeof t);
    xid = "";
    rb = maybe = joined = false;
    if (state == s3) state = s1;
    else if (nb) state = s2;
    else fresh();
  }
  int fail_begin() { return crowded ? 1 : 0; }

  void step(vh::Rng &r) {
    steps++;
    int k = r.u(100);
    // transactions come to an end often enough
    if (k < 9) {
      bool close = k >= 4 && (k < 7 || r.p(50)), plain = k < 7;
      if (close && !susp.empty()) return;
      static const int codes[] = {XAER_RMERR, XAER_RMFAIL, XAER_INVAL, XAER_PROTO};
      int f = rmfail && r.p(25) ? codes[r.u(4)] : XA_OK;
      if (f != XA_OK) rmfail(f);
      int rc = plain ? (close ? tx_close() : tx_open()) : (close ? tpclose() : tpopen()), e = tperrno;
      if (f != XA_OK && !rmfailed()) f = XA_OK;
      bool proto = close && in();
      if (plain) {
        if (!eq(close ? "tx_close" : "tx_open", rc, proto ? TX_PROTOCOL_ERROR : f == XA_OK ? TX_OK : f == XAER_RMERR ? TX_ERROR : TX_FAIL)) return;
      } else {
        if (!tp(close ? "tpclose" : "tpopen", rc, e, proto ? TPEPROTO : f == XA_OK ? 0 : TPERMERR)) return;
      }
      if (f != XA_OK) note("C", "open_faults"), note("L", "W fault");
      if (proto || f != XA_OK) return;
      if (close) {
        state = s0;
      } else if (state == s0) {
        state = s1;
        when = control = timeout = 0;
      }
    } else if (k < 24) {
      bool bad = in() || state == s0;
      if (r.p(50)) {
        int rc = tx_begin();
        if (!bad && crowded && rc == TX_ERROR) return;
        if (eq("tx_begin", rc, bad ? TX_PROTOCOL_ERROR : TX_OK) && !bad) begun();
      } else {
        long t = r.p(70) ? 0 : 100 + r.u(1000);
        long f = r.p(85) ? 0 : (r.p(50) ? TPNOTIME : 1);
        int rc = tpbegin(t, f), e = tperrno;
        if (f == 0 && state != s0) timeout = t;
        if (!bad && f == 0 && crowded && rc == -1 && e == TPERMERR) return;
        if (tp("tpbegin", rc, e, f != 0 ? TPEINVAL : bad ? TPEPROTO : 0) && !bad && f == 0) begun();
      }
    } else if (k < 42) {
      bool bad = !in() || joined;
      bool commit = r.p(60);
      if (bad && r.p(60)) return;
      if (r.p(50)) {
        int rc = commit ? tx_commit() : tx_rollback();
        const char *w = commit ? "tx_commit" : "tx_rollback";
        if (bad) eq(w, rc, TX_PROTOCOL_ERROR);
        else ended(rc, w, commit && rb ? TX_ROLLBACK : TX_OK);
      } else {
        const char *w = commit ? "tpcommit" : "tpabort";
        if (r.p(12)) {
          int rc = commit ? tpcommit(1) : tpabort(TPNOTIME), e = tperrno;
          tp(w, rc, e, TPEINVAL);
          return;
        }
        if (crowded && state == s4) return;
        int rc = commit ? tpcommit(0) : tpabort(0), e = tperrno;
        if (bad) {
          tp(w, rc, e, TPEPROTO);
          return;
        }
        int want = commit && rb ? TPEABORT : 0;
        if (maybe && !rb && want == 0 && commit && rc == -1 && e == TPEABORT) want = TPEABORT;
        if (tp(w, rc, e, want)) {
          note("L", "G xid=" + xid);
          xid = "";
          rb = maybe = false;
          if (state == s3) state = s1;
          else fresh();
        }
      }
    } else if (k < 47) {
      int w = r.p(80) ? r.u(2) : (r.p(50) ? 2 : -1);
      int rc = tx_set_commit_return(w);
      if (eq("tx_set_commit_return", rc, state == s0 ? TX_PROTOCOL_ERROR : w < 0 || w > 1 ? TX_EINVAL : TX_OK) && rc == TX_OK) when = w;
    } else if (k < 55) {
      int c = r.p(85) ? r.u(2) : (r.p(50) ? 2 : -7);
      int rc = tx_set_transaction_control(c);
      if (eq("tx_set_transaction_control", rc, state == s0 ? TX_PROTOCOL_ERROR : c < 0 || c > 1 ? TX_EINVAL : TX_OK) && rc == TX_OK) {
        control = c;
        state = in() ? (c ? s4 : s3) : (c ? s2 : s1);
      }
    } else if (k < 59) {
      long t = r.p(80) ? long(r.u(5000)) : -1 - long(r.u(9));
      if (r.p(50)) t = t < 0 ? t : 0;
      int rc = tx_set_transaction_timeout(t);
      if (eq("tx_set_transaction_timeout", rc, state == s0 ? TX_PROTOCOL_ERROR : t < 0 ? TX_EINVAL : TX_OK) && rc == TX_OK) timeout = t;
    } else if (k < 63) {
      int rc = tpgetlev(), e = tperrno;
      if (state == s0) tp("tpgetlev", rc, e, TPEPROTO);
      else if (rc != (in() ? 1 : 0)) eq("tpgetlev", rc == -1 ? -e : rc, in() ? 1 : 0);
    } else if (k < 70) {
      suspend(r);
    } else if (k < 80) {
      resume(r);
    } else if (k < 92) {
      docall(r);
    } else {
      look();
    }
  }
  void suspend(vh::Rng &r, bool valid = false) {
    if (!valid && r.p(10)) {
      int rc = tpsuspend(nullptr, 0), e = tperrno;
      tp("tpsuspend", rc, e, TPEINVAL);
      return;
    }
    TPTRANID t;
    memset(&t, 0, sizeof t);
    if (!valid && r.p(10)) {
      int rc = tpsuspend(&t, TPNOTIME), e = tperrno;
      tp("tpsuspend", rc, e, TPEINVAL);
      return;
    }
    int rc = tpsuspend(&t, 0), e = tperrno;
    if (!tp("tpsuspend", rc, e, in() ? 0 : TPEPROTO) || !in()) return;
    susp.push_back({xid, t, joined, rb, maybe});
    state = state == s3 ? s1 : s2;
    xid = "";
    joined = rb = maybe = false;
  }
  void resume(vh::Rng &r, int which = -1) {
    if (which < 0 && r.p(25)) {
      TPTRANID t;
      memset(&t, r.p(50) ? 0 : 0xff, sizeof t);
      int k = r.u(5);
      int rc, e;
      if (k == 0) {
        rc = tpresume(nullptr, 0), e = tperrno;
        tp("tpresume", rc, e, TPEINVAL);
        return;
      }
      if (!susp.empty() && r.p(70)) t = susp[r.u(susp.size())].id;
      if (k == 1) {
        rc = tpresume(&t, 1), e = tperrno;
        tp("tpresume", rc, e, TPEINVAL);
        return;
      }
      if (k == 2 && !gone.empty()) {
        // ended meanwhile
        t = r.pick(gone);
        rc = tpresume(&t, 0), e = tperrno;
        tp("tpresume", rc, e, in() || state == s0 ? TPEPROTO : TPEMATCH);
        return;
      }
      // damaged
      // (never a little: that may well be the id of somebody else's transaction)
      if (r.p(50))
        for (size_t i = 0, m = 1 + r.u(3); i < m; i++) reinterpret_cast<unsigned char *>(&t)[r.u(offsetof(XID, data))] ^= 1 + r.u(255);
      else
        for (size_t i = offsetof(XID, data); i < sizeof t; i++) reinterpret_cast<unsigned char *>(&t)[i] = r.u(256);
      bool known = false;
      for (auto &s : susp) known |= memcmp(&s.id, &t, offsetof(XID, data) + 9) == 0;
      if (known || susp.empty()) return;
      if (!in() && state != s0) {
        rc = tpresume(&t, 0), e = tperrno;
        if (rc != -1 || (e != TPEMATCH && e != TPEINVAL)) eq("tpresume(damaged)", rc == -1 ? e : 0, TPEMATCH);
      }
      return;
    }
    if (susp.empty()) return;
    size_t i = which >= 0 ? size_t(which) : r.u(susp.size());
    Susp s = susp[i];
    int rc = tpresume(&s.id, 0), e = tperrno;
    if (!tp("tpresume", rc, e, in() || state == s0 ? TPEPROTO : 0) || in() || state == s0) return;
    susp.erase(susp.begin() + i);
    state = state == s1 ? s3 : s4;
    xid = s.xid;
    joined = s.joined;
    rb = s.rb;
    maybe = s.maybe;
    if (!joined && gone.size() < 50) pending = s.id, has_pending = true;
    note("C", "resumes");
  }
  TPTRANID pending;
  bool has_pending = false;
  void docall(vh::Rng &r) {
    if (!call) return;
    int kind = r.u(3);
    bool notran = r.p(30);
    bool orb = false;
    int rc = call(kind, notran, &orb);
    if (rc < 0) return;
    if (in() && !notran) {
      if (rc == 0 || orb) rb = true;
    }
    last = vh::fmt("call %d%s = %d", kind, notran ? " TPNOTRAN" : "", rc) + (last.empty() ? "" : ", " + last.substr(0, 150));
    note("tx_in_call", vh::fmt("S%d kind %d notran %d", state, kind, int(notran)));
  }
  // Transactions that stay open while hundreds of others come and go
  void many(vh::Rng &r) {
    if (crowded || server || state == s0) return;
    if (control != TX_UNCHAINED) {
      if (!eq("tx_set_transaction_control", tx_set_transaction_control(TX_UNCHAINED), TX_OK)) return;
      control = TX_UNCHAINED;
      state = in() ? s3 : s1;
    }
    if (!in()) {
      if (!eq("tx_begin", tx_begin(), TX_OK)) return;
      begun();
    }
    if (!joined && !rb && call && r.p(60)) {
      bool orb = false;
      int rc = call(1, false, &orb);
      if (rc == 0 || orb) rb = true;
    }
    suspend(r, true);
    if (state != s1) return;
    size_t open = susp.size();
    for (int i = 0, n = 260 + r.u(100); i < n && state == s1; i++) {
      if (!eq("tx_begin", tx_begin(), TX_OK)) return;
      begun();
      if (r.p(10)) look();
      if (r.p(20)) ended(tx_rollback(), "tx_rollback", TX_OK);
      else ended(tx_commit(), "tx_commit", TX_OK);
      if (in() || susp.size() != open) return;
    }
    note("C", "long_open");
    resume(r, int(susp.size()) - 1);
    look();
  }
  void walk(vh::Rng &r, long n) {
    for (long i = 0; i < n; i++) {
      std::string before = xid;
      step(r);
      // the one resumed has ended
      if (has_pending && !before.empty() && before != xid) {
        bool still = false;
        for (auto &s : susp) still |= s.xid == before;
        if (!still) gone.push_back(pending);
        has_pending = false;
      }
      if (r.p(40)) look();
    }
  }
  // Everything suspended is ended, nothing is left open; the one joined is current again
  void settle(vh::Rng &r, bool finish) {
    if (state == s0) {
      if (eq("tx_open", tx_open(), TX_OK)) state = s1, when = control = timeout = 0;
    }
    for (int guard = 0; guard < 50; guard++) {
      if (in() && joined) {
        bool others = false;
        for (auto &s : susp) others |= !s.joined;
        if (!others) break;
        suspend(r, true);
      }
      if (in()) {
        if (!finish && susp.empty()) break;
        if (control != TX_UNCHAINED) {
          if (eq("tx_set_transaction_control", tx_set_transaction_control(TX_UNCHAINED), TX_OK)) control = TX_UNCHAINED, state = s3;
        }
        if (r.p(50)) ended(tx_rollback(), "tx_rollback", TX_OK);
        else ended(tx_commit(), "tx_commit", rb ? TX_ROLLBACK : TX_OK);
      }
      if (susp.empty()) break;
      // the one joined last
      size_t i = 0;
      for (size_t j = 0; j < susp.size(); j++)
        if (!susp[j].joined) i = j;
      resume(r, int(i));
    }
    look();
  }
};
