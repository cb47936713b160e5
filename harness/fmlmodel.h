// Reference model of an FML32 buffer: field id -> list of values, in id order
// (field ids order by type first, then by number).
#pragma once
#include <fml32.h>
#include <algorithm>
#include <memory>
#include "vh.h"

namespace fm {
using vh::fmt;
using vh::Rng;
using vh::viol;

struct Model;
struct Val {
  std::string b;                  // raw bytes; STRING includes the NUL
  std::shared_ptr<Model> nested;  // FLD_FML32
};
struct Model {
  std::map<FLDID32, std::vector<Val>> f;
  size_t total() const {
    size_t n = 0;
    for (auto &x : f) n += x.second.size();
    return n;
  }
};
using Buf = std::shared_ptr<FBFR32>;

inline const std::vector<int> &types() {
  static std::vector<int> t{FLD_SHORT,  FLD_LONG,   FLD_CHAR,   FLD_FLOAT,
                            FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};
  return t;
}
inline const char *tname(int t) {
  switch (t) {
    case FLD_SHORT: return "short";
    case FLD_LONG: return "long";
    case FLD_CHAR: return "char";
    case FLD_FLOAT: return "float";
    case FLD_DOUBLE: return "double";
    case FLD_STRING: return "string";
    case FLD_CARRAY: return "carray";
    case FLD_FML32: return "fml32";
  }
  return "?";
}
inline int type_of(FLDID32 id) { return id >> 24; }
inline std::string idstr(FLDID32 id) {
  return fmt("%s:%u", tname(type_of(id)), id & 0xffffff);
}
template <class T>
std::string raw(T v) {
  return std::string((char *)&v, sizeof v);
}
template <class T>
T unraw(const std::string &s) {
  T v;
  memcpy(&v, s.data(), sizeof v);
  return v;
}

inline long header_size() { return Fneeded32(0, 0); }

// A buffer whose last byte is the last byte of its allocation, so that the
// sanitizer sees the first byte written past it.
inline Buf alloc(long size) {
  FBFR32 *p = (FBFR32 *)malloc(size);
  // other junk for each buffer
  static thread_local unsigned char junk = 0x5a;
  memset((void *)p, junk += 0x35, size);
  if (Finit32(p, size) == -1) viol("finit-failed", fmt("Finit32(%ld) failed: %d", size, Ferror32));
  return Buf(p, [](FBFR32 *q) { free((void *)q); });
}

inline std::string rand_bytes(Rng &r, size_t n, bool nul_ok) {
  std::string s;
  int style = r.u(4);
  for (size_t i = 0; i < n; i++) {
    unsigned char c;
    if (style == 0) c = 'a' + r.u(26);
    else if (style == 1) c = 32 + r.u(95);
    else c = r.u(256);
    if (!nul_ok && c == 0) c = 1;
    s.push_back(c);
  }
  return s;
}
inline size_t rand_len(Rng &r, size_t cap) {
  static const size_t edges[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65};
  size_t n = r.p(70) ? edges[r.u(18)] : r.u(cap + 1);
  return std::min(n, cap);
}
inline double rand_double(Rng &r) {
  switch (r.u(6)) {
    case 0: return (double)r.in(-5, 5);
    case 1: return r.in(-1000000, 1000000) / 64.0;
    case 2: return r.d() * 1e300;
    case 3: return -r.d() * 1e-300;
    case 4: return r.u(2) ? 1.0 / 0.0 : -1.0 / 0.0;
    default: return r.in(-100000, 100000) / 4.0;
  }
}
inline long rand_long(Rng &r) {
  switch (r.u(5)) {
    case 0: return r.in(-3, 3);
    case 1: return (long)r.next();
    case 2: return r.u(2) ? INT64_MAX - (long)r.u(2) : INT64_MIN + (long)r.u(2);
    case 3: return r.in(-40000, 40000);
    default: return r.in(-100, 100);
  }
}

struct GenOpt {
  size_t maxlen = 70;
  int nest = 2;
  bool finite = false;
};
inline std::shared_ptr<Model> rand_model(Rng &r, const std::vector<FLDID32> &ids, int n, GenOpt o);
inline Val rand_val(Rng &r, int type, const std::vector<FLDID32> &ids, GenOpt o) {
  Val v;
  switch (type) {
    case FLD_SHORT: v.b = raw<short>(r.p(50) ? (short)r.in(-3, 3) : (short)r.next()); break;
    case FLD_LONG: v.b = raw<long>(rand_long(r)); break;
    case FLD_CHAR: v.b = raw<char>((char)r.u(256)); break;
    case FLD_FLOAT: v.b = raw<float>((float)(r.in(-100000, 100000) / 8.0)); break;
    case FLD_DOUBLE: {
      double d = rand_double(r);
      while (o.finite && (d > 1e15 || d < -1e15)) d = rand_double(r);
      v.b = raw<double>(d);
      break;
    }
    case FLD_STRING: v.b = rand_bytes(r, rand_len(r, o.maxlen), false) + std::string(1, '\0'); break;
    case FLD_CARRAY: v.b = rand_bytes(r, rand_len(r, o.maxlen), true); break;
    case FLD_FML32: {
      GenOpt q = o;
      q.nest = o.nest - 1;
      v.nested = rand_model(r, ids, (int)r.u(4), q);
      break;
    }
  }
  return v;
}
inline std::shared_ptr<Model> rand_model(Rng &r, const std::vector<FLDID32> &ids, int n, GenOpt o) {
  auto m = std::make_shared<Model>();
  for (int i = 0; i < n; i++) {
    auto id = r.pick(ids);
    if (type_of(id) == FLD_FML32 && o.nest <= 0) continue;
    m->f[id].push_back(rand_val(r, type_of(id), ids, o));
  }
  return m;
}
inline Val default_val(int type) {
  Val v;
  switch (type) {
    case FLD_SHORT: v.b = raw<short>(0); break;
    case FLD_LONG: v.b = raw<long>(0); break;
    case FLD_CHAR: v.b = raw<char>(0); break;
    case FLD_FLOAT: v.b = raw<float>(0); break;
    case FLD_DOUBLE: v.b = raw<double>(0); break;
    case FLD_STRING: v.b = std::string(1, '\0'); break;
    case FLD_CARRAY: break;
    case FLD_FML32: v.nested = std::make_shared<Model>(); break;
  }
  return v;
}

Buf build(const Model &m, long slack = 0, Rng *shuffle = nullptr);

// Upper bound of the room a model needs, from what Fneeded32 promises.
inline long room(const Model &m) {
  long n = header_size();
  for (auto &x : m.f)
    for (auto &v : x.second) {
      long len = v.nested ? room(*v.nested) : (long)v.b.size();
      n += Fneeded32(1, len) - header_size();
    }
  return n;
}

// Calls f(value pointer, length) with a pointer suitable for Fadd32/Fchg32.  The
// copy lives in a block of its own, so over-reads are seen.
template <class F>
auto with_val(const Val &v, F f) {
  if (v.nested) {
    Buf nb = build(*v.nested, 16);
    return f((char *)nb.get(), (FLDLEN32)0);
  }
  size_t n = v.b.size();
  std::unique_ptr<char[]> p(new char[n ? n : 1]);
  memcpy(p.get(), v.b.data(), n);
  return f(p.get(), (FLDLEN32)n);
}

inline Buf build(const Model &m, long slack, Rng *shuffle) {
  Buf b = alloc(room(m) + slack);
  std::vector<std::pair<FLDID32, size_t>> order;
  for (auto &x : m.f)
    for (size_t i = 0; i < x.second.size(); i++) order.push_back({x.first, i});
  if (shuffle) {
    // random order across fields; occurrences of one field stay in order
    std::vector<FLDID32> ids;
    for (auto &o : order) ids.push_back(o.first);
    for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[shuffle->u(i)]);
    std::map<FLDID32, size_t> next;
    order.clear();
    for (auto id : ids) order.push_back({id, next[id]++});
  }
  for (auto &o : order) {
    auto &v = m.f.at(o.first)[o.second];
    int rc = with_val(v, [&](char *p, FLDLEN32 n) { return Fadd32(b.get(), o.first, p, n); });
    if (rc == -1)
      viol("build-fadd-failed", fmt("Fadd32(%s) into a buffer sized by Fneeded32 failed with %d (unused %ld)",
                                    idstr(o.first).c_str(), Ferror32, Funused32(b.get())));
  }
  return b;
}

std::string content_diff(FBFR32 *b, const Model &m, const std::string &at);

inline std::string val_diff(int type, const char *p, FLDLEN32 len, const Val &v, const std::string &at) {
  if (type == FLD_FML32) {
    FBFR32 *nb = (FBFR32 *)p;
    if ((uintptr_t)p & 7) return at + ": nested buffer is not aligned";
    if ((long)len != Fused32(nb)) return at + fmt(": nested length %u, used %ld", len, Fused32(nb));
    return content_diff(nb, *v.nested, at + "/");
  }
  if (len != v.b.size()) return at + fmt(": length %u, expected %zu", len, v.b.size());
  if (memcmp(p, v.b.data(), len) != 0)
    return at + ": value " + vh::esc(std::string(p, len)) + " expected " + vh::esc(v.b);
  return "";
}

// Complete comparison through traversal.
inline std::string content_diff(FBFR32 *b, const Model &m, const std::string &at) {
  FLDID32 id = FIRSTFLDID;
  FLDOCC32 oc = 0;
  auto it = m.f.begin();
  size_t i = 0;
  auto skip = [&] {
    while (it != m.f.end() && i >= it->second.size()) {
      ++it;
      i = 0;
    }
  };
  skip();
  size_t steps = 0, cap = m.total() + 5;
  while (true) {
    int rc = Fnext32(b, &id, &oc, nullptr, nullptr);
    if (rc == -1) return at + fmt(": Fnext32 failed: %d", Ferror32);
    if (rc == 0) {
      if (it != m.f.end()) return at + ": traversal ended before " + idstr(it->first) + fmt("[%zu]", i);
      return "";
    }
    if (it == m.f.end()) return at + ": traversal yields extra " + idstr(id) + fmt("[%d]", oc);
    if (id != it->first || oc != (FLDOCC32)i)
      return at + ": traversal yields " + idstr(id) + fmt("[%d]", oc) + " expected " + idstr(it->first) + fmt("[%zu]", i);
    FLDLEN32 len = 0;
    char *p = Ffind32(b, id, oc, &len);
    if (!p) return at + ": Ffind32 misses traversed " + idstr(id) + fmt("[%d]", oc);
    auto d = val_diff(type_of(id), p, len, it->second[i], at + idstr(id) + fmt("[%d]", oc));
    if (!d.empty()) return d;
    i++;
    skip();
    if (++steps > cap) return at + ": traversal does not end";
  }
}

inline std::string val_key(const Val &v) { return v.nested ? fmt("m%zu", v.nested->total()) : v.b; }
bool same(const Model &a, const Model &b);
inline bool same_val(const Val &a, const Val &b) {
  if (!!a.nested != !!b.nested) return false;
  if (a.nested) return same(*a.nested, *b.nested);
  return a.b == b.b;
}
inline bool same(const Model &a, const Model &b) {
  auto na = a.f, nb = b.f;
  for (auto i = na.begin(); i != na.end();) i = i->second.empty() ? na.erase(i) : std::next(i);
  for (auto i = nb.begin(); i != nb.end();) i = i->second.empty() ? nb.erase(i) : std::next(i);
  if (na.size() != nb.size()) return false;
  for (auto i = na.begin(), j = nb.begin(); i != na.end(); ++i, ++j) {
    if (i->first != j->first || i->second.size() != j->second.size()) return false;
    for (size_t k = 0; k < i->second.size(); k++)
      if (!same_val(i->second[k], j->second[k])) return false;
  }
  return true;
}

inline std::vector<FLDID32> make_ids(Rng &r) {
  // few ids, so that occurrences pile up; numbers around byte boundaries
  static const FLDID32 nums[] = {1, 2, 3, 255, 256, 65535, 65536, 0xfffffe, 0xffffff};
  std::vector<FLDID32> ids;
  std::vector<int> tt = types();
  int nt = 2 + r.u(7);
  for (int i = 0; i < nt; i++) {
    int t = r.p(85) ? tt[i % tt.size()] : r.pick(tt);
    int k = 1 + r.u(3);
    for (int j = 0; j < k; j++) ids.push_back(((FLDID32)t << 24) | nums[r.u(9)]);
  }
  for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.u(i)]);
  size_t keep = 2 + r.u(ids.size());
  if (ids.size() > keep) ids.resize(keep);
  return ids;
}
}  // namespace fm
