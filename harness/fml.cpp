// FML32 against a reference model.  Modes: map, space, setops, persist, conv.
#include "fmlmodel.h"
#include <math.h>
#include <atmi.h>
using namespace vh;
using namespace fm;

// Now and then values, occurrences and buffers are large
static thread_local size_t g_big = 0;
static void pile_up(Rng &r, Model &m, const std::vector<FLDID32> &ids, int n) {
  GenOpt o;
  o.maxlen = 12;
  o.nest = 1;
  for (int i = 0, k = 1 + r.u(3); i < k; i++) {
    FLDID32 id = r.pick(ids);
    auto &v = m.f[id];
    for (int j = n / 2 + r.u(n); j > 0; j--) v.push_back(rand_val(r, type_of(id), ids, o));
  }
}

static void check_all(FBFR32 *b, const Model &m, const char *what) {
  auto d = content_diff(b, m, "");
  if (!d.empty()) viol(std::string("content-after-") + what, std::string(what) + ": " + d);
  long size = Fsizeof32(b), used = Fused32(b), unused = Funused32(b);
  if (used + unused != size || unused < 0 || used < header_size())
    viol(std::string("space-accounting-after-") + what,
         fmt("%s: size %ld used %ld unused %ld", what, size, used, unused));
}

static void check_canonical(Rng &r, FBFR32 *b, const Model &m) {
  Buf fresh = build(m, 0, &r);
  auto d = content_diff(fresh.get(), m, "");
  if (!d.empty()) viol("content-of-fresh-buffer", d);
  if (Fused32(fresh.get()) != Fused32(b))
    viol("used-depends-on-history", fmt("used %ld, freshly built equal buffer uses %ld", Fused32(b), Fused32(fresh.get())));
  // Neither do leftovers of other values nor the memory buffer was made of
  long x = Fchksum32(b), y = Fchksum32(fresh.get());
  count("checksums");
  if (x != y) viol("checksum-depends-on-history", fmt("checksum %lx, freshly built equal buffer has %lx", x, y));
}

static void probe(Rng &r, FBFR32 *b, const Model &m, const std::vector<FLDID32> &ids) {
  FLDID32 id = r.p(90) ? r.pick(ids) : (((FLDID32)r.pick(types()) << 24) | (1 + r.u(300)));
  auto it = m.f.find(id);
  static const std::vector<Val> none;
  const auto &vals = it == m.f.end() ? none : it->second;
  FLDOCC32 n = vals.size();
  FLDOCC32 oc = r.u(n + 2);
  int type = type_of(id);
  auto at = idstr(id) + fmt("[%d of %d]", oc, n);
  count("probes");
  cur_op() = "probe";
  if (Foccur32(b, id) != n) viol("foccur", at + fmt(": Foccur32 says %d", Foccur32(b, id)));
  if (Fpres32(b, id, oc) != (oc < n)) viol("fpres", at + ": Fpres32 wrong");
  FLDLEN32 len = 4242;
  char *p = Ffind32(b, id, oc, &len);
  if (oc >= n) {
    if (p || Ferror32 != FNOTPRES) viol("ffind-missing", at + fmt(": Ffind32 %p error %d", p, Ferror32));
    if (Flen32(b, id, oc) != -1 || Ferror32 != FNOTPRES) viol("flen-missing", at);
    char tmp[8];
    FLDLEN32 l = 8;
    if (Fget32(b, id, oc, tmp, &l) != -1 || Ferror32 != FNOTPRES) viol("fget-missing", at);
    if (Fgetalloc32(b, id, oc, nullptr) != nullptr || Ferror32 != FNOTPRES) viol("fgetalloc-missing", at);
    if (n == 0) {
      FLDOCC32 lo = -7;
      if (Ffindlast32(b, id, &lo, &l) != nullptr || Ferror32 != FNOTPRES) viol("ffindlast-missing", at);
    }
  } else {
    if (!p) viol("ffind", at + fmt(": Ffind32 failed %d", Ferror32));
    auto d = val_diff(type, p, len, vals[oc], at);
    if (!d.empty()) viol("ffind-value", d);
    if (Ffind32(b, id, oc, nullptr) != p) viol("ffind-nolen", at);
    if (Flen32(b, id, oc) != (long)len) viol("flen", at + fmt(": Flen32 %ld, Ffind32 %u", Flen32(b, id, oc), len));
    if ((type == FLD_LONG || type == FLD_DOUBLE || type == FLD_FML32) && ((uintptr_t)p & 7)) viol("ffind-align", at);
    // Fget32 with exact, larger, missing and too small room
    FLDLEN32 want = len;
    {
      Buf nb;
      std::unique_ptr<char[]> box;
      char *dst;
      if (type == FLD_FML32) {
        nb = alloc(want);
        dst = (char *)nb.get();
      } else {
        box.reset(new char[want ? want : 1]);
        dst = box.get();
      }
      FLDLEN32 l = want + (type == FLD_FML32 ? 0 : r.u(3));
      if (Fget32(b, id, oc, dst, r.p(20) ? nullptr : &l) == -1) viol("fget", at + fmt(": Fget32 failed %d", Ferror32));
      auto dd = val_diff(type, dst, want, vals[oc], at);
      if (!dd.empty()) viol("fget-value", dd);
      if (type == FLD_FML32 && Fsizeof32(nb.get()) != (long)want)
        viol("fget-nested-size", at + ": Fget32 changed the size of the target");
      if (want > 0) {
        FLDLEN32 sm = r.u(want);
        char keep = 0x33;
        if (Fget32(b, id, oc, &keep, &sm) != -1 || Ferror32 != FNOSPACE || sm != want || keep != 0x33)
          viol("fget-small", at + fmt(": rc/err %d len %u", Ferror32, sm));
      }
    }
    FLDLEN32 extra = r.u(20), e0 = extra;
    char *ga = Fgetalloc32(b, id, oc, r.p(30) ? nullptr : &extra);
    if (!ga) viol("fgetalloc", at + fmt(": failed %d", Ferror32));
    std::string gs(ga, want);
    bool geq = type == FLD_FML32 ? content_diff((FBFR32 *)ga, *vals[oc].nested, "").empty() : gs == vals[oc].b;
    if (extra != e0 && extra != want) viol("fgetalloc-len", at);
    if (extra == want && e0) memset(ga + want, 1, e0 && extra != e0 ? e0 : 0);
    free(ga);
    if (!geq) viol("fgetalloc-value", at);
    FLDOCC32 lo = -7;
    FLDLEN32 ll = 0;
    p = Ffindlast32(b, id, &lo, &ll);
    if (!p || lo != n - 1) viol("ffindlast", at + fmt(": last %d", lo));
    d = val_diff(type, p, ll, vals[n - 1], at + "last");
    if (!d.empty()) viol("ffindlast-value", d);
    // value -> first occurrence
    if (type != FLD_FML32) {
      FLDOCC32 first = 0;
      auto eq = [&](const Val &x) {
        if (type == FLD_FLOAT) return unraw<float>(x.b) == unraw<float>(vals[oc].b);
        if (type == FLD_DOUBLE) return unraw<double>(x.b) == unraw<double>(vals[oc].b);
        return x.b == vals[oc].b;
      };
      while (!eq(vals[first])) first++;
      FLDOCC32 got = with_val(vals[oc], [&](char *q, FLDLEN32 l) {
        return Ffindocc32(b, id, q, type == FLD_CARRAY ? l : 0);
      });
      if (got != first) viol("ffindocc", at + fmt(": Ffindocc32 gives %d expected %d", got, first));
      // one that is not there
      Val v = rand_val(r, type, ids, GenOpt());
      bool there = false;
      FLDOCC32 w = -1;
      for (FLDOCC32 i = n - 1; i >= 0; i--)
        if ((type == FLD_DOUBLE || type == FLD_FLOAT)
                ? (type == FLD_DOUBLE ? unraw<double>(vals[i].b) == unraw<double>(v.b) : unraw<float>(vals[i].b) == unraw<float>(v.b))
                : vals[i].b == v.b) {
          there = true;
          w = i;
        }
      got = with_val(v, [&](char *q, FLDLEN32 l) { return Ffindocc32(b, id, q, type == FLD_CARRAY ? l : 0); });
      if (there ? got != w : (got != -1 || Ferror32 != FNOTPRES)) viol("ffindocc-other", at + fmt(": %d expected %d", got, w));
    }
    // step from here
    FLDID32 nid = id;
    FLDOCC32 noc = oc;
    static thread_local std::vector<char> room_(4000000);
    FLDLEN32 nl = room_.size();
    int mode = r.u(3);
    int rc = mode == 0 ? Fnext32(b, &nid, &noc, nullptr, nullptr)
             : mode == 1 ? Fnext32(b, &nid, &noc, room_.data(), &nl)
                         : Fnext32(b, &nid, &noc, room_.data(), nullptr);
    FLDID32 eid = id;
    FLDOCC32 eoc = oc + 1;
    const Val *ev = nullptr;
    if (eoc < n) ev = &vals[eoc];
    else {
      auto j = std::next(it);
      while (j != m.f.end() && j->second.empty()) ++j;
      if (j != m.f.end()) {
        eid = j->first;
        eoc = 0;
        ev = &j->second[0];
      }
    }
    if (!ev) {
      if (rc != 0) viol("fnext-end", at + fmt(": Fnext32 %d after the last field", rc));
    } else {
      if (rc != 1 || nid != eid || noc != eoc) viol("fnext-step", at + fmt(": rc %d err %d ", rc, Ferror32) + idstr(nid) + fmt("[%d]", noc));
      if (mode && type_of(eid) != FLD_FML32 && memcmp(room_.data(), ev->b.data(), ev->b.size()) != 0) viol("fnext-value", at);
      if (mode == 1 && type_of(eid) != FLD_FML32 && nl != ev->b.size()) viol("fnext-len", at);
    }
  }
}

static long cost_bound(const Val &v) {
  long len = v.nested ? room(*v.nested) : (long)v.b.size();
  return Fneeded32(1, len) - header_size();
}

// One random mutation of a buffer and its model.  tight: space failures expected.
static void mutate(Rng &r, Buf &b, Model &m, const std::vector<FLDID32> &ids, bool tight) {
  FLDID32 id = r.pick(ids);
  int type = type_of(id);
  auto &vals = m.f[id];
  FLDOCC32 n = vals.size();
  GenOpt o;
  if (tight) o.nest = 1;
  else if (r.p(3)) o.maxlen = 5000;
  if (g_big && !tight) o.maxlen = g_big;
  int op = r.u(100);
  long unused = Funused32(b.get());
  long used0 = Fused32(b.get());
  count("mutations");
  int err = 0;
  auto note = [&](int rc) {
    err = Ferror32;
    return rc;
  };
  auto space_ok = [&](int rc, const char *what, long bound) {
    if (rc != -1) return true;
    if (err != FNOSPACE) viol(std::string(what) + "-error", fmt("%s %s failed with %d", what, idstr(id).c_str(), err));
    if (unused >= bound)
      viol(std::string(what) + "-nospace-with-room", fmt("%s %s: FNOSPACE with %ld unused, %ld suffice", what, idstr(id).c_str(), unused, bound));
    if (Fused32(b.get()) != used0) viol(std::string(what) + "-failed-but-changed", fmt("used %ld -> %ld", used0, Fused32(b.get())));
    count("nospace");
    return false;
  };
  if (op < 35) {
    cur_op() = "Fadd32";
    Val v = rand_val(r, type, ids, o);
    log("add " + idstr(id) + " " + esc(v.b, 20));
    bool viachg = r.p(30);
    int rc = with_val(v, [&](char *p, FLDLEN32 l) {
      return note(viachg ? Fchg32(b.get(), id, -1, p, l) : Fadd32(b.get(), id, p, l));
    });
    if (space_ok(rc, viachg ? "Fchg32-append" : "Fadd32", cost_bound(v))) vals.push_back(v);
    distinct("ops", fmt("add-%s-%d", tname(type), rc));
  } else if (op < 62) {
    cur_op() = "Fchg32";
    Val v = rand_val(r, type, ids, o);
    FLDOCC32 oc = r.p(75) ? r.u(n + 1) : n + r.u(r.p(10) ? 40 : 4);
    log(fmt("chg %s[%d] ", idstr(id).c_str(), oc) + esc(v.b, 20));
    int rc = with_val(v, [&](char *p, FLDLEN32 l) { return note(Fchg32(b.get(), id, oc, p, l)); });
    long bound = cost_bound(v);
    if (oc > n) bound += (oc - n) * cost_bound(default_val(type));
    if (space_ok(rc, oc < n ? "Fchg32-replace" : oc == n ? "Fchg32-new" : "Fchg32-gap", bound)) {
      while ((FLDOCC32)vals.size() < oc) vals.push_back(default_val(type));
      if ((FLDOCC32)vals.size() == oc) vals.push_back(v);
      else vals[oc] = v;
    }
    distinct("ops", fmt("chg-%s-%d-%s", tname(type), rc, oc < n ? "replace" : oc == n ? "new" : "gap"));
  } else if (op < 80) {
    FLDOCC32 oc = r.u(n + 1);
    bool viachg = r.p(25);
    cur_op() = viachg ? "Fchg32-null" : "Fdel32";
    log(fmt("del %s[%d]", idstr(id).c_str(), oc));
    int rc = viachg ? Fchg32(b.get(), id, oc, nullptr, 0) : Fdel32(b.get(), id, oc);
    if (oc >= n) {
      if (rc != -1 || Ferror32 != FNOTPRES) viol("fdel-missing", fmt("Fdel32 of a missing occurrence: %d error %d", rc, Ferror32));
    } else {
      if (rc == -1) viol("fdel", fmt("Fdel32 failed %d", Ferror32));
      vals.erase(vals.begin() + oc);
    }
    distinct("ops", fmt("del-%s-%d", tname(type), rc));
  } else if (op < 86) {
    cur_op() = "Fdelall32";
    log("delall " + idstr(id));
    int rc = Fdelall32(b.get(), id);
    if (n == 0 ? (rc != -1 || Ferror32 != FNOTPRES) : rc == -1) viol("fdelall", fmt("rc %d error %d n %d", rc, Ferror32, n));
    vals.clear();
    distinct("ops", fmt("delall-%s-%d", tname(type), rc));
  } else if (op < 90) {
    cur_op() = "Fcpy32";
    log("cpy");
    // to a buffer that just fits, one byte less, or larger
    long need = Fused32(b.get());
    long sz = r.p(40) ? need : r.p(30) ? std::max(header_size(), need - 1 - (long)r.u(9)) : need + r.u(300);
    Buf c = alloc(sz);
    Model before;
    if (r.p(50) && sz > header_size() + 40) {
      short s = 5;
      Fadd32(c.get(), Fmkfldid32(FLD_SHORT, 77), (char *)&s, 0);
      before.f[Fmkfldid32(FLD_SHORT, 77)].push_back(Val{raw<short>(5), nullptr});
    }
    int rc = Fcpy32(c.get(), b.get());
    if (sz >= need) {
      if (rc == -1) viol("fcpy", fmt("Fcpy32 of %ld bytes into %ld failed %d", need, sz, Ferror32));
      check_all(c.get(), m, "Fcpy32");
      if (Fsizeof32(c.get()) != sz) viol("fcpy-size", "Fcpy32 changed the size of the target");
      if (Fchksum32(c.get()) != Fchksum32(b.get())) viol("fcpy-chksum", "checksum of a copy differs");
      b = c;
    } else {
      if (rc != -1 || Ferror32 != FNOSPACE) viol("fcpy-small", fmt("Fcpy32 of %ld bytes into %ld: %d", need, sz, rc));
      check_all(c.get(), before, "Fcpy32-failed");
    }
  } else if (op < 93) {
    cur_op() = "Findex";
    if (Findex32(b.get(), 8) == -1 || Fidxused32(b.get()) == -1 || Frstrindex32(b.get(), 4) == -1 || Funindex32(b.get()) == -1)
      viol("findex", "index call failed");
  } else if (op < 96) {
    cur_op() = "Finit32";
    log("init");
    long sz = Fsizeof32(b.get());
    if (Finit32(b.get(), sz) == -1 || Fsizeof32(b.get()) != sz || Fused32(b.get()) != header_size()) viol("finit", "Finit32");
    m.f.clear();
  } else {
    cur_op() = "Frealloc32";
    // malloc'ed by Falloc32 so that it may be reallocated
    long need = Fused32(b.get());
    FBFR32 *a = Falloc32(1 + r.u(4), 1 + r.u(16) + need);
    if (!a || Fcpy32(a, b.get()) == -1) viol("falloc", fmt("Falloc32/Fcpy32 %d", Ferror32));
    FLDOCC32 F = 1 + r.u(5);
    FLDLEN32 V = 1 + r.u(need + 400);
    log(fmt("realloc %d %u", F, V));
    long promised = Fneeded32(F, V);
    FBFR32 *q = Frealloc32(a, F, V);
    if (promised < need) {
      if (q || Ferror32 != FNOSPACE) viol("frealloc-small", fmt("Frealloc32 below the used size: %p %d", (void *)q, Ferror32));
      check_all(a, m, "Frealloc32-failed");
      free((void *)a);
    } else {
      if (!q) viol("frealloc", fmt("Frealloc32 failed %d", Ferror32));
      if (Fsizeof32(q) != Fneeded32(F, V)) viol("frealloc-size", fmt("size %ld expected %ld", Fsizeof32(q), Fneeded32(F, V)));
      check_all(q, m, "Frealloc32");
      b = Buf(q, [](FBFR32 *x) { Ffree32(x); });
    }
  }
  if (m.f.count(id) && m.f[id].empty()) m.f.erase(id);
}

static void mode_map(Rng &r) {
  auto ids = make_ids(r);
  Model m;
  long cap = 120000;
  int ops = 20 + r.u(80);
  int kind = r.u(100);
  g_big = 0;
  if (kind < 2) {
    g_big = r.p(50) ? 150000 : 40000;
    cap = 3000000;
    ops = 12 + r.u(12);
    count("large_values");
  }
  Buf b = alloc(header_size() + cap);
  if (kind == 2) {
    // many occurrences
    pile_up(r, m, ids, r.p(50) ? 140 : 300);
    b = build(m, 20000, &r);
    cap = std::max(cap, Fused32(b.get()) + 60000);
    ops = 6 + r.u(12);
    count("many_occurrences");
  }
  for (int i = 0; i < ops; i++) {
    if (Fsizeof32(b.get()) < cap / 2) {  // a previous step moved us to a small one
      Buf c = alloc(header_size() + cap);
      if (Fcpy32(c.get(), b.get()) == -1) viol("fcpy", "growing copy failed");
      b = c;
    }
    mutate(r, b, m, ids, false);
    check_all(b.get(), m, cur_op());
    probe(r, b.get(), m, ids);
  }
  check_canonical(r, b.get(), m);
  count("distinct_nontrivial", m.total() > 1);
  distinct("shapes", fmt("%zu-fields-%zu-values", m.f.size(), m.total()));
  if (cur_case() % 997 == 3) {
    std::string s;
    for (auto &o : oplog()) s += o + "; ";
    sample(s.substr(0, 600));
  }
}

static void invalid_args(Rng &r, Buf &b, Model &m) {
  cur_op() = "invalid-args";
  char v[64] = {0};
  FLDLEN32 l = sizeof v;
  FLDOCC32 oc = 0;
  FLDID32 good = Fmkfldid32(FLD_STRING, 5);
  FLDID32 bad = r.p(50) ? BADFLDID : (FLDID32)((7 + r.u(2)) << 24 | 5);
  if (r.p(30)) bad = (FLDID32)((11 + r.u(200)) << 24 | (1 + r.u(9)));
  int want = bad == BADFLDID ? FBADFLD : FTYPERR;
  FBFR32 *nb = r.p(50) ? nullptr : (FBFR32 *)((char *)b.get() + 1 + r.u(7));
#define BADID(call, fail)                                                                              \
  do {                                                                                                 \
    Ferror32 = 0;                                                                                      \
    auto rc_ = call;                                                                                   \
    if (rc_ != fail || Ferror32 != want) viol("bad-fieldid", fmt(#call " with id %u: error %d", bad, Ferror32)); \
  } while (0)
#define BADBUF(call, fail)                                                                            \
  do {                                                                                                \
    Ferror32 = 0;                                                                                     \
    auto rc_ = call;                                                                                  \
    if (rc_ != fail || (Ferror32 != FNOTFLD && Ferror32 != FALIGNERR)) viol("bad-buffer", fmt(#call ": error %d", Ferror32)); \
  } while (0)
  BADID(Fadd32(b.get(), bad, v, 3), -1);
  BADID(Fchg32(b.get(), bad, 0, v, 3), -1);
  BADID(Fdel32(b.get(), bad, 0), -1);
  BADID(Fdelall32(b.get(), bad), -1);
  BADID(Fpres32(b.get(), bad, 0), -1);
  BADID(Foccur32(b.get(), bad), -1);
  BADID(Flen32(b.get(), bad, 0), -1);
  BADID(Fget32(b.get(), bad, 0, v, &l), -1);
  BADID(Ffind32(b.get(), bad, 0, &l), nullptr);
  BADID(Ffindlast32(b.get(), bad, &oc, &l), nullptr);
  BADID(Ffindocc32(b.get(), bad, v, 0), -1);
  BADID(Fgetalloc32(b.get(), bad, 0, &l), nullptr);
  BADID(CFadd32(b.get(), bad, v, 0, FLD_STRING), -1);
  BADID(CFchg32(b.get(), bad, 0, v, 0, FLD_STRING), -1);
  BADID(CFget32(b.get(), bad, 0, v, &l, FLD_STRING), -1);
  BADID(CFfind32(b.get(), bad, 0, &l, FLD_STRING), nullptr);
  BADID(CFfindocc32(b.get(), bad, v, 0, FLD_STRING), -1);
  l = sizeof v;
  FLDID32 list[] = {good, BADFLDID};
  BADBUF(Fadd32(nb, good, v, 3), -1);
  BADBUF(Fchg32(nb, good, 0, v, 3), -1);
  BADBUF(Fdel32(nb, good, 0), -1);
  BADBUF(Fdelall32(nb, good), -1);
  BADBUF(Fpres32(nb, good, 0), -1);
  BADBUF(Foccur32(nb, good), -1);
  BADBUF(Flen32(nb, good, 0), -1);
  BADBUF(Fget32(nb, good, 0, v, &l), -1);
  BADBUF(Ffind32(nb, good, 0, &l), nullptr);
  BADBUF(Fnext32(nb, &good, &oc, v, &l), -1);
  BADBUF(Fcpy32(nb, b.get()), -1);
  BADBUF(Fcpy32(b.get(), nb), -1);
  BADBUF(Fupdate32(nb, b.get()), -1);
  BADBUF(Fjoin32(b.get(), nb), -1);
  BADBUF(Fojoin32(b.get(), nb), -1);
  BADBUF(Fconcat32(b.get(), nb), -1);
  BADBUF(Fproj32(nb, list), -1);
  BADBUF(Fprojcpy32(b.get(), nb, list), -1);
  BADBUF(Fdelete32(nb, list), -1);
  BADBUF(Fused32(nb), -1);
  BADBUF(Fsizeof32(nb), -1);
  BADBUF(Funused32(nb), -1);
  BADBUF(Fchksum32(nb), -1);
  BADBUF(Finit32(nb, 100), -1);
  // conversions with unknown types
  int bt = r.p(50) ? 7 : 99;
  if (CFadd32(b.get(), good, v, 0, bt) != -1 || Ferror32 != FEBADOP) viol("bad-cvt-type", fmt("CFadd32 type %d: error %d", bt, Ferror32));
  if (Fnext32(b.get(), nullptr, &oc, v, &l) != -1 || Ferror32 != FEINVAL) viol("fnext-null", "");
  if (Finit32(b.get(), header_size() - 1 - r.u(header_size() - 1)) != -1 || Ferror32 != FNOSPACE) viol("finit-small", "");
  check_all(b.get(), m, "invalid-args");
  count("invalid_calls", 45);
}

static void mode_space(Rng &r) {
  auto ids = make_ids(r);
  Model m;
  long cap = header_size() + (r.p(60) ? r.u(200) : r.u(900));
  Buf b = alloc(cap);
  if (Fsizeof32(b.get()) != cap) viol("finit-size", fmt("size %ld expected %ld", Fsizeof32(b.get()), cap));
  int ops = 10 + r.u(60);
  for (int i = 0; i < ops; i++) {
    mutate(r, b, m, ids, true);
    check_all(b.get(), m, cur_op());
    if (r.p(30)) probe(r, b.get(), m, ids);
    if (r.p(8)) invalid_args(r, b, m);
    if (r.p(12)) {
      // fill the rest to the last byte with a carray, if it fits the grain
      long un = Funused32(b.get());
      FLDID32 id = Fmkfldid32(FLD_CARRAY, 9);
      if (un >= 16) {
        long grain = un & ~7L;
        Val v;
        v.b = rand_bytes(r, grain - 8, true);
        log(fmt("fill %ld", grain - 8));
        cur_op() = "fill";
        int rc = with_val(v, [&](char *p, FLDLEN32 l) { return Fadd32(b.get(), id, p, l); });
        if (rc == -1) {
          if (Fneeded32(1, grain - 8) - header_size() <= un) viol("fill", fmt("cannot use the last %ld bytes: %d", grain, Ferror32));
        } else {
          m.f[id].push_back(v);
          count("filled");
        }
        check_all(b.get(), m, "fill");
        // one more must fail and change nothing
        v.b = rand_bytes(r, 1 + r.u(40), true);
        int ofe = 0;
        rc = with_val(v, [&](char *p, FLDLEN32 l) {
          int x = Fadd32(b.get(), id, p, l);
          ofe = Ferror32;
          return x;
        });
        if (rc != -1) {
          m.f[id].push_back(v);
        } else if (ofe != FNOSPACE)
          viol("overfill-error", fmt("%d", ofe));
        check_all(b.get(), m, "overfill");
      }
    }
  }
  // what Fneeded32 promises
  FLDOCC32 F = 1 + r.u(6);
  FLDLEN32 V = r.p(60) ? rand_len(r, 70) : r.u(300);
  Buf p = alloc(Fneeded32(F, V));
  cur_op() = "Fneeded32";
  Model pm;
  for (FLDOCC32 i = 0; i < F; i++) {
    int type = r.p(50) ? (int)FLD_CARRAY : r.pick(types());
    FLDID32 id = Fmkfldid32(type, 1 + r.u(3));
    Val v;
    if (type == FLD_FML32) continue;
    if (type == FLD_CARRAY) v.b = rand_bytes(r, V, true);
    else if (type == FLD_STRING) {
      if (V == 0) continue;
      v.b = rand_bytes(r, V - 1, false) + std::string(1, '\0');
    } else {
      v = rand_val(r, type, ids, GenOpt());
      if (v.b.size() > V) continue;
    }
    int rc = with_val(v, [&](char *q, FLDLEN32 l) { return Fadd32(p.get(), id, q, l); });
    if (rc == -1) viol("fneeded-promise", fmt("Fneeded32(%d,%u) does not hold field %d (%s of %zu): %d", F, V, i, tname(type), v.b.size(), Ferror32));
    pm.f[id].push_back(v);
  }
  check_all(p.get(), pm, "Fneeded32");
  check_canonical(r, b.get(), m);
  count("distinct_nontrivial", counters()["nospace"] > 0);
  distinct("capacities", fmt("%ld", cap));
  if (cur_case() % 997 == 3) sample(fmt("capacity %ld, %d operations, ends with %zu values, used %ld", cap, ops, m.total(), Fused32(b.get())));
}

static void mode_setops(Rng &r) {
  auto ids = make_ids(r);
  GenOpt o;
  for (int round = 0; round < 6; round++) {
    bool large = r.p(1) && r.p(60);
    GenOpt lo;
    lo.maxlen = large && r.p(60) ? 90000 : 70;
    auto d = rand_model(r, ids, r.u(14), lo);
    auto s = rand_model(r, ids, r.u(14), lo);
    if (large && lo.maxlen == 70) {
      if (r.p(70)) pile_up(r, *d, ids, 140);
      if (r.p(70)) pile_up(r, *s, ids, 140);
    }
    if (large) count("large_sets");
    bool tight = r.p(30);
    Model dm = *d, sm = *s, exp;
    Buf sb = build(sm, r.u(64), &r);
    long sck = Fchksum32(sb.get());
    int op = r.u(8);
    static const char *names[] = {"Fupdate32", "Fjoin32", "Fojoin32", "Fconcat32", "Fproj32", "Fprojcpy32", "Fdelete32", "Fcpy32"};
    cur_op() = names[op];
    std::vector<FLDID32> list;
    for (auto id : ids)
      if (r.p(50)) list.push_back(id);
    if (r.p(20)) list.push_back(Fmkfldid32(FLD_LONG, 4242));
    if (r.p(30) && !list.empty()) list.push_back(list[0]);
    for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[r.u(i)]);
    auto in = [&](FLDID32 id) { return std::find(list.begin(), list.end(), id) != list.end(); };
    exp = dm;
    switch (op) {
      case 0:
        for (auto &x : sm.f)
          for (size_t i = 0; i < x.second.size(); i++) {
            auto &v = exp.f[x.first];
            if (i < v.size()) v[i] = x.second[i];
            else v.push_back(x.second[i]);
          }
        break;
      case 1: {
        Model e2;
        for (auto &x : dm.f)
          for (size_t i = 0; i < x.second.size(); i++) {
            auto j = sm.f.find(x.first);
            if (j != sm.f.end() && i < j->second.size()) e2.f[x.first].push_back(j->second[i]);
          }
        exp = e2;
        break;
      }
      case 2:
        for (auto &x : exp.f)
          for (size_t i = 0; i < x.second.size(); i++) {
            auto j = sm.f.find(x.first);
            if (j != sm.f.end() && i < j->second.size()) x.second[i] = j->second[i];
          }
        break;
      case 3:
        for (auto &x : sm.f)
          for (auto &v : x.second) exp.f[x.first].push_back(v);
        break;
      case 4:
        for (auto i = exp.f.begin(); i != exp.f.end();) i = in(i->first) ? std::next(i) : exp.f.erase(i);
        break;
      case 5:
        exp.f.clear();
        for (auto &x : sm.f)
          if (in(x.first)) exp.f[x.first] = x.second;
        break;
      case 6:
        for (auto i = exp.f.begin(); i != exp.f.end();) i = in(i->first) ? exp.f.erase(i) : std::next(i);
        break;
      case 7: exp = sm; break;
    }
    // room: everything that may be in the buffer on the way
    Model both = dm;
    for (auto &x : sm.f)
      for (auto &v : x.second) both.f[x.first].push_back(v);
    long enough = room(both) + header_size() + 64;
    Buf db = build(dm, 0, &r);
    long cap = tight ? Fused32(db.get()) + r.u(enough) : enough;
    Buf t = alloc(cap);
    if (Fcpy32(t.get(), db.get()) == -1) viol("fcpy", "setup copy failed");
    std::vector<FLDID32> arg = list;
    arg.push_back(BADFLDID);
    log(fmt("%s dest %zu src %zu list %zu cap %ld", names[op], dm.total(), sm.total(), list.size(), cap));
    int rc = -2;
    switch (op) {
      case 0: rc = Fupdate32(t.get(), sb.get()); break;
      case 1: rc = Fjoin32(t.get(), sb.get()); break;
      case 2: rc = Fojoin32(t.get(), sb.get()); break;
      case 3: rc = Fconcat32(t.get(), sb.get()); break;
      case 4: rc = Fproj32(t.get(), arg.data()); break;
      case 5: rc = Fprojcpy32(t.get(), sb.get(), arg.data()); break;
      case 6: rc = Fdelete32(t.get(), arg.data()); break;
      case 7: rc = Fcpy32(t.get(), sb.get()); break;
    }
    count("set_operations");
    std::string key = names[op];
    if (rc == -1) {
      if (Ferror32 != FNOSPACE) viol(key + "-error", fmt("%s failed with %d", names[op], Ferror32));
      if (cap >= enough || op == 4 || op == 6) viol(key + "-nospace-with-room", fmt("%s: FNOSPACE with cap %ld", names[op], cap));
      count("nospace");
      // still a well formed buffer
      FLDID32 id = 0;
      FLDOCC32 oc = 0;
      int k = 0;
      while (Fnext32(t.get(), &id, &oc, nullptr, nullptr) == 1)
        if (!Ffind32(t.get(), id, oc, nullptr) || ++k > 100000) viol(key + "-corrupt", "after FNOSPACE the buffer is not traversable");
    } else {
      for (auto i = exp.f.begin(); i != exp.f.end();) i = i->second.empty() ? exp.f.erase(i) : std::next(i);
      check_all(t.get(), exp, names[op]);
      if (r.p(50)) check_canonical(r, t.get(), exp);
      if (r.p(50)) probe(r, t.get(), exp, ids);
      distinct("ops", fmt("%s-%d-%d", names[op], (int)std::min<size_t>(dm.total(), 6), (int)std::min<size_t>(sm.total(), 6)));
    }
    if (Fsizeof32(t.get()) != cap) viol(key + "-size", "the size of the target changed");
    check_all(sb.get(), sm, (std::string(names[op]) + "-source").c_str());
    if (Fchksum32(sb.get()) != sck) viol(key + "-source-changed", "source checksum changed");
    count("distinct_nontrivial", dm.total() > 0 && sm.total() > 0);
    if (cur_case() % 499 == 3 && round == 0) sample(oplog().back());
  }
}

// ------------------------------------------------------------ persistence
static std::vector<FLDID32> table_ids(Rng &r) {
  static const std::vector<const char *> names = {"VS1", "VS2", "VL1", "VL2", "VC1", "VC2", "VF1", "VF2",
                                                  "VD1", "VD2", "VT1", "VT2", "VA1", "VA2", "VN1", "VN2"};
  std::vector<FLDID32> ids;
  for (auto n : names)
    if (r.p(60)) {
      auto id = Fldid32((char *)n);
      if (id == BADFLDID) viol("fldid", std::string("Fldid32 does not know ") + n);
      ids.push_back(id);
    }
  if (ids.empty()) ids.push_back(Fldid32((char *)"VT1"));
  return ids;
}
// the textual form keeps six decimals
static void limit_values(Model &m) {
  for (auto &x : m.f)
    for (auto &v : x.second) {
      if (v.nested) limit_values(*v.nested);
      if (type_of(x.first) == FLD_DOUBLE) {
        double d = unraw<double>(v.b);
        if (!(fabs(d) < 1e9)) d = 12345.0;
        v.b = raw<double>(floor(d * 64.0) / 64.0);
      }
    }
}

static void mode_persist(Rng &r) {
  auto ids = table_ids(r);
  GenOpt o;
  o.finite = true;
  if (r.p(10)) o.maxlen = 9000;
  if (r.p(1)) o.maxlen = 150000, count("large_values");
  auto mp = rand_model(r, ids, r.u(16), o);
  if (o.maxlen == 70 && r.p(1)) pile_up(r, *mp, ids, 140), count("many_occurrences");
  Model &m = *mp;
  limit_values(m);
  Buf b = build(m, r.u(100), &r);
  long cap = Fused32(b.get());
  count("distinct_nontrivial", m.total() > 0);
  distinct("shapes", fmt("%zu-%zu", m.f.size(), m.total()));
  // -------- binary file
  {
    cur_op() = "Fwrite32";
    FILE *f = tmpfile();
    int k = 1 + r.u(3);
    for (int i = 0; i < k; i++)
      if (Fwrite32(b.get(), f) == -1) viol("fwrite", fmt("%d", Ferror32));
    long flen = ftell(f);
    rewind(f);
    cur_op() = "Fread32";
    for (int i = 0; i < k; i++) {
      Buf c = alloc(cap + (r.p(50) ? 0 : r.u(500)));
      long sz = Fsizeof32(c.get());
      if (Fread32(c.get(), f) == -1) viol("fread", fmt("Fread32 of record %d of %d: %d", i, k, Ferror32));
      check_all(c.get(), m, "Fread32");
      if (Fsizeof32(c.get()) != sz) viol("fread-size", "Fread32 changed the size");
      if (Fchksum32(c.get()) != Fchksum32(b.get())) viol("fread-chksum", "checksum differs");
      probe(r, c.get(), m, ids);
      count("binary_round_trips");
    }
    { // nothing left
      Buf c = alloc(cap + 64);
      Model e;
      if (Fread32(c.get(), f) != -1) viol("fread-past-end", "Fread32 at end of file succeeds");
      check_all(c.get(), e, "Fread32-eof");
    }
    // truncated file: an error, and the buffer stays usable
    if (flen > 8) {
      rewind(f);
      long cut = r.u(flen / k);
      (void)!ftruncate(fileno(f), cut);
      Buf c = alloc(cap + 64);
      if (Fread32(c.get(), f) != -1) viol("fread-truncated", fmt("Fread32 of %ld of %ld bytes succeeds", cut, flen / k));
      Model e;
      check_all(c.get(), e, "Fread32-truncated");
      count("truncated_reads");
    }
    fclose(f);
    if (m.total() > 0) {
      FILE *g = tmpfile();
      Fwrite32(b.get(), g);
      rewind(g);
      Buf c = alloc(std::max(header_size(), cap - 8 - (long)r.u(cap)));
      Model e;
      if (Fread32(c.get(), g) != -1 || Ferror32 != FNOSPACE) viol("fread-small", fmt("error %d", Ferror32));
      check_all(c.get(), e, "Fread32-small");
      fclose(g);
    }
  }
  // -------- text
  {
    cur_op() = "Ffprint32";
    FILE *f = tmpfile();
    if (Ffprint32(b.get(), f) == -1) viol("ffprint", fmt("%d", Ferror32));
    long end = ftell(f);
    rewind(f);
    std::string text(end, 0);
    (void)!fread(&text[0], 1, end, f);
    for (unsigned char c : text)
      if (c != '\n' && c != '\t' && (c < 32 || c > 126)) viol("ffprint-unprintable", fmt("byte %02x in printed form", c));
#ifndef VH_THR
    if (r.p(10)) {
      // the same on standard output
      cur_op() = "Fprint32";
      fflush(stdout);
      FILE *o = tmpfile();
      int was = dup(1);
      dup2(fileno(o), 1);
      int rc = Fprint32(b.get());
      fflush(stdout);
      dup2(was, 1);
      close(was);
      std::string t1(end + 10, 0);
      rewind(o);
      t1.resize(fread(&t1[0], 1, end + 10, o));
      fclose(o);
      if (rc == -1) viol("fprint", fmt("%d", Ferror32));
      if (t1 != text) viol("fprint-text", "Fprint32 and Ffprint32 differ");
      count("printed");
    }
#endif
    rewind(f);
    cur_op() = "Fextread32";
    Buf c = alloc(cap + 64);
    if (Fextread32(c.get(), f) == -1) viol("fextread", fmt("Fextread32 of a printed buffer: %d: ", Ferror32) + esc(text));
    auto d = content_diff(c.get(), m, "");
    if (!d.empty()) viol("fextread-content", d + " text " + esc(text));
    fclose(f);
    // printing again gives the same text
    FILE *g = tmpfile();
    Ffprint32(c.get(), g);
    rewind(g);
    std::string t2(end + 10, 0);
    t2.resize(fread(&t2[0], 1, end + 10, g));
    fclose(g);
    if (t2 != text) viol("ffprint-again", "printing the read back buffer differs");
    count("text_round_trips");
    // damaged text: no crash, and the target is either unchanged or readable
    std::string bad = text;
    int edits = 1 + r.u(3);
    for (int i = 0; i < edits && !bad.empty(); i++) {
      size_t at = r.u(bad.size());
      switch (r.u(4)) {
        case 0: bad.erase(at, 1 + r.u(3)); break;
        case 1: bad.insert(at, 1, (char)r.u(256)); break;
        case 2: bad[at] = r.u(256); break;
        default: bad.resize(at); break;
      }
    }
    FILE *h = tmpfile();
    fwrite(bad.data(), 1, bad.size(), h);
    rewind(h);
    Buf e = alloc(cap + 200);
    Model em;
    if (Fextread32(e.get(), h) == -1) {
      check_all(e.get(), em, "Fextread32-failed");
      count("damaged_rejected");
    } else
      count("damaged_accepted");
    FLDID32 id = 0;
    FLDOCC32 oc = 0;
    int k = 0;
    while (Fnext32(e.get(), &id, &oc, nullptr, nullptr) == 1)
      if (++k > 10000) viol("fextread-damaged", "endless buffer");
    fclose(h);
  }
  if (cur_case() % 499 == 3) sample(fmt("buffer of %zu fields / %zu values, %ld bytes", m.f.size(), m.total(), cap));
}

// ------------------------------------------------------------ conversions
static std::string cvt(Rng &, int to, int from, const std::string &in, bool &ok) {
  ok = true;
  double num = 0;
  long ln = 0;
  bool isint = true;
  std::string s;
  bool text = false;
  switch (from) {
    case FLD_SHORT: ln = unraw<short>(in); break;
    case FLD_LONG: ln = unraw<long>(in); break;
    case FLD_CHAR: ln = unraw<char>(in); break;
    case FLD_FLOAT: num = unraw<float>(in); isint = false; break;
    case FLD_DOUBLE: num = unraw<double>(in); isint = false; break;
    case FLD_STRING: s = in.c_str(); text = true; break;
    case FLD_CARRAY: s = in; text = true; break;
  }
  if (text) {
    const char *c = s.c_str();
    switch (to) {
      case FLD_SHORT: return raw<short>((short)strtol(c, 0, 10));
      case FLD_LONG: return raw<long>(strtol(c, 0, 10));
      case FLD_CHAR: return raw<char>(s.empty() ? 0 : s[0]);
      case FLD_FLOAT: return raw<float>((float)strtod(c, 0));
      case FLD_DOUBLE: return raw<double>(strtod(c, 0));
      default: return s + std::string(1, '\0');
    }
  }
  if (!isint) {
    double lim = to == FLD_SHORT ? 32000 : to == FLD_CHAR ? 120 : to == FLD_LONG ? 9e18 : 1e308;
    if (!(fabs(num) < lim)) {
      ok = false;
      return "";
    }
    if (to == FLD_FLOAT && fabs(num) > 3e38) {
      ok = false;
      return "";
    }
  }
  switch (to) {
    case FLD_SHORT: return raw<short>(isint ? (short)ln : (short)num);
    case FLD_LONG: return raw<long>(isint ? ln : (long)num);
    case FLD_CHAR: return raw<char>(isint ? (char)ln : (char)num);
    case FLD_FLOAT: return raw<float>(isint ? (float)ln : (float)num);
    case FLD_DOUBLE: return raw<double>(isint ? (double)ln : num);
    default:
      if (from == FLD_CHAR) return std::string(1, in[0]) + std::string(1, '\0');
      char b[512];
      if (isint) snprintf(b, sizeof b, "%ld", ln);
      else snprintf(b, sizeof b, "%f", num);
      return std::string(b) + std::string(1, '\0');
  }
}

static void mode_conv(Rng &r) {
  static const std::vector<int> tt{FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY};
  std::vector<FLDID32> ids;
  for (int round = 0; round < 12; round++) {
    int from = r.pick(tt), to = r.pick(tt);
    Val v;
    if ((from == FLD_STRING || from == FLD_CARRAY) && r.p(75)) {
      std::string s;
      switch (r.u(6)) {
        case 0: s = fmt("%ld", rand_long(r)); break;
        case 1: s = fmt("%f", r.in(-100000, 100000) / 64.0); break;
        case 2: s = fmt("%.17g", r.d() * 1e10); break;
        case 3: s = fmt("  %d xyz", (int)r.in(-50, 50)); break;
        case 4: s = fmt("%e", r.d() * 1e20); break;
        default: s = std::string(r.u(300), 'x'); break;
      }
      v.b = from == FLD_STRING ? s + std::string(1, '\0') : s;
    } else
      v = rand_val(r, from, ids, GenOpt());
    if (from == FLD_DOUBLE && r.p(40)) v.b = raw<double>(r.in(-120 * 64, 120 * 64) / 64.0);
    if (from == FLD_FLOAT && r.p(40)) v.b = raw<float>(r.in(-120 * 64, 120 * 64) / 64.0);
    bool ok;
    std::string exp = cvt(r, to, from, v.b, ok);
    if (!ok) continue;
    auto at = fmt("%s->%s ", tname(from), tname(to)) + esc(v.b, 60);
    log(at);
    count("conversions");
    distinct("pairs", fmt("%s-%s", tname(from), tname(to)));
    count("distinct_nontrivial", from != to);
    cur_op() = "Ftypcvt32";
    with_val(v, [&](char *p, FLDLEN32 l) {
      FLDLEN32 tl = 7777;
      char *q = Ftypcvt32(&tl, to, p, from, l);
      if (!q) viol("ftypcvt", at + fmt(": failed %d", Ferror32));
      if (tl != exp.size()) viol("ftypcvt-len", at + fmt(": length %u expected %zu", tl, exp.size()));
      if (memcmp(q, exp.data(), tl) != 0) viol("ftypcvt-value", at + ": got " + esc(std::string(q, tl), 60) + " expected " + esc(exp, 60));
      return 0;
    });
    // CFadd/CFchg put the converted value, of the field's type
    cur_op() = "CFadd32";
    FLDID32 id = Fmkfldid32(to, 1 + r.u(3));
    Buf b = alloc(header_size() + 4000);
    Model m;
    Val cv;
    cv.b = to == FLD_STRING ? std::string(exp.c_str()) + std::string(1, '\0') : exp;
    auto put = [&](FLDOCC32 oc) {
      return with_val(v, [&](char *p, FLDLEN32 l) {
        return oc < 0 ? CFadd32(b.get(), id, p, l, from) : CFchg32(b.get(), id, oc, p, l, from);
      });
    };
    int pre = r.u(3);
    for (int i = 0; i < pre; i++) {
      Val x = rand_val(r, to, ids, GenOpt());
      with_val(x, [&](char *p, FLDLEN32 l) { return Fadd32(b.get(), id, p, l); });
      m.f[id].push_back(x);
    }
    FLDOCC32 oc = r.p(50) ? -1 : (FLDOCC32)r.u(pre + 1);
    if (put(oc) == -1) viol("cfadd", at + fmt(": CFadd32/CFchg32 failed %d", Ferror32));
    if (oc < 0 || oc == pre) {
      oc = pre;
      m.f[id].push_back(cv);
    } else
      m.f[id][oc] = cv;
    auto d = content_diff(b.get(), m, "");
    if (!d.empty()) viol("cfadd-content", at + ": " + d);
    // reading back with a conversion of the stored value
    int rt = r.pick(tt);
    bool ok2;
    std::string e2 = cvt(r, rt, to, cv.b, ok2);
    if (!ok2) continue;
    cur_op() = "CFfind32";
    FLDLEN32 l = 999;
    char *q = CFfind32(b.get(), id, oc, r.p(20) ? nullptr : &l, rt);
    if (!q || memcmp(q, e2.data(), e2.size()) != 0 || (l != 999 && l != e2.size()))
      viol("cffind", at + fmt(": read as %s: ", tname(rt)) + (q ? esc(std::string(q, e2.size()), 60) : "null") + " expected " + esc(e2, 60) + fmt(" len %u", l));
    cur_op() = "CFget32";
    {
      std::unique_ptr<char[]> box(new char[e2.size()]);
      FLDLEN32 gl = e2.size();
      if (CFget32(b.get(), id, oc, box.get(), &gl, rt) == -1 || gl != e2.size() || memcmp(box.get(), e2.data(), gl) != 0)
        viol("cfget", at + fmt(": CFget32 as %s, error %d, len %u", tname(rt), Ferror32, gl));
      if (e2.size() > 1) {
        gl = 1 + r.u(e2.size() - 1);
        char z = 9;
        if (CFget32(b.get(), id, oc, &z, &gl, rt) != -1 || Ferror32 != FNOSPACE || z != 9) viol("cfget-small", at);
      }
    }
    if (rt == FLD_STRING) {
      char *fs = Ffinds32(b.get(), id, oc);
      if (!fs || memcmp(fs, e2.data(), e2.size()) != 0) viol("ffinds", at);
      std::unique_ptr<char[]> box(new char[e2.size()]);
      if (Fgets32(b.get(), id, oc, box.get()) == -1 || memcmp(box.get(), e2.data(), e2.size()) != 0) viol("fgets", at);
    }
    // missing
    if (CFfind32(b.get(), id, pre + 5, &l, rt) || Ferror32 != FNOTPRES) viol("cffind-missing", at);
    // CFfindocc finds what CFadd put
    if (to != FLD_STRING && to != FLD_CARRAY) {
      cur_op() = "CFfindocc32";
      FLDOCC32 fo = with_val(v, [&](char *p, FLDLEN32 l) { return CFfindocc32(b.get(), id, p, l, from); });
      FLDOCC32 eo = 0;
      auto num = [&](const Val &x) { return to == FLD_FLOAT ? unraw<float>(x.b) : to == FLD_DOUBLE ? unraw<double>(x.b) : 0.0; };
      while (!(m.f[id][eo].b == cv.b || ((to == FLD_FLOAT || to == FLD_DOUBLE) && num(m.f[id][eo]) == num(cv)))) eo++;
      if (fo != eo) viol("cffindocc", at + fmt(": %d expected %d", fo, eo));
    }
    if (cur_case() % 499 == 3 && round == 0) sample(at);
  }
}

VH_MAIN({{"map", mode_map}, {"space", mode_space}, {"setops", mode_setops}, {"persist", mode_persist}, {"conv", mode_conv}})
