// C06: boolean expressions.  An independent recursive descent recognizer and
// evaluator written from the grammar decides what each text means; the
// library's compiler, evaluators and printer are observed against it.
#include <fml32.h>
#include <errno.h>
#include <math.h>
#include <regex.h>
#include <limits.h>
#include <memory>
#include <new>
#include "vh.h"
using namespace vh;

struct Node;
using NP = std::shared_ptr<Node>;
struct Node {
  enum K { LONG, DBL, STR, FLD, ANY, UN, BIN } k;
  long l = 0;
  double d = 0;
  std::string s;  // text or operator
  FLDID32 id = 0;
  FLDOCC32 oc = 0;
  NP a, b;
};
static NP mk(Node::K k) { auto n = std::make_shared<Node>(); n->k = k; return n; }

// ---------------------------------------------------------------- reference
struct Reject { int err; };
struct Unclear {};  // the grammar leaves the meaning open: not compared

static int prec_of(const std::string &o) {
  static const std::map<std::string, int> m = {
      {"*", 70}, {"/", 70}, {"%", 70}, {"+", 60}, {"-", 60}, {"<", 50}, {">", 50}, {"<=", 50}, {">=", 50},
      {"==", 50}, {"!=", 50}, {"%%", 40}, {"!%", 40}, {"^", 30}, {"&&", 20}, {"||", 10}};
  auto i = m.find(o);
  return i == m.end() ? -1 : i->second;
}

struct Ref {
  const std::string &t;
  size_t i = 0;
  int depth = 0;
  explicit Ref(const std::string &t) : t(t) {}
  int cur() { return i < t.size() ? (unsigned char)t[i] : -1; }
  static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool in(const char *set, int c) { return c > 0 && strchr(set, c); }
  void space() { while (sp(cur())) i++; }
  [[noreturn]] void bad(int e = FSYNTAX) { throw Reject{e}; }
  std::string peek_op() {
    if (!in("+-!~*/%<>=^&|", cur())) return "";
    std::string o(1, t[i]);
    if (i + 1 < t.size() && in("=%&|", (unsigned char)t[i + 1])) o += t[i + 1];
    return o;
  }
  NP parse() {
    auto n = expr(0);
    space();
    if (i != t.size()) bad();
    return n;
  }
  // left associative precedence climbing
  NP expr(int min) {
    auto lhs = primary();
    for (;;) {
      space();
      auto o = peek_op();
      if (o.empty()) return lhs;
      int p = prec_of(o);
      if (p < 0) bad();
      if (p < min) return lhs;
      i += o.size();
      auto rhs = expr(p + 1);
      if (o == "%%" || o == "!%") {
        if (lhs->k != Node::STR && lhs->k != Node::FLD && lhs->k != Node::ANY) bad();
        if (rhs->k != Node::STR) bad();
      }
      auto n = mk(Node::BIN);
      n->s = o; n->a = lhs; n->b = rhs;
      lhs = n;
    }
  }
  int hexv(int c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  NP primary() {
    struct D { int &d; D(int &d) : d(d) { d++; } ~D() { d--; } } dd(depth);
    if (depth > 400) throw Unclear();
    space();
    int c = cur();
    if (in("+-!~", c)) {
      i++;
      auto n = primary();
      if (c == '+') return n;
      auto u = mk(Node::UN);
      u->s = std::string(1, (char)c); u->a = n;
      return u;
    }
    if (alpha(c)) {
      std::string name;
      while (alpha(cur()) || dig(cur()) || cur() == '_') name += t[i++];
      auto n = mk(Node::FLD);
      if (cur() == '[') {
        i++;
        std::string o;
        while (dig(cur())) o += t[i++];
        if (!o.empty() && cur() == '.') throw Unclear();
        bool any = false;
        if (o.empty() && cur() == '?') { i++; any = true; }
        if (cur() != ']') bad();
        i++;
        if (any) n->k = Node::ANY;
        else if (o.empty()) bad();
        else if (o.size() > 9) throw Unclear();
        else n->oc = atoi(o.c_str());
      }
      n->id = Fldid32((char *)name.c_str());
      if (n->id == BADFLDID) bad(FBADNAME);
      if (Fldtype32(n->id) == FLD_FML32) bad(FEBADOP);
      return n;
    }
    if (dig(c)) {
      std::string o;
      while (dig(cur())) o += t[i++];
      bool dbl = false;
      if (cur() == '.') { dbl = true; o += t[i++]; while (dig(cur())) o += t[i++]; }
      errno = 0;
      if (dbl) {
        auto n = mk(Node::DBL);
        n->d = strtod(o.c_str(), nullptr);
        if (errno == ERANGE) throw Unclear();
        return n;
      }
      auto n = mk(Node::LONG);
      n->l = strtol(o.c_str(), nullptr, 10);
      if (errno == ERANGE) bad();
      return n;
    }
    if (c == '\'') {
      i++;
      auto n = mk(Node::STR);
      for (;;) {
        if (cur() == '\\') {
          i++;
          int h = hexv(cur());
          if (h < 0) {
            if (cur() == '\\' || cur() == '\'') continue;
            throw Unclear();  // backslash before anything else is not documented
          }
          i++;
          int l = hexv(cur());
          if (l < 0) bad();
          i++;
          n->s += (char)(h * 16 + l);
        } else if (cur() == '\'' || cur() == -1) {
          break;
        } else {
          n->s += t[i++];
        }
      }
      if (cur() != '\'') bad();
      i++;
      if (n->s.find('\0') != std::string::npos) throw Unclear();
      return n;
    }
    if (c == '(') {
      i++;
      auto n = expr(0);
      space();
      if (cur() != ')') bad();
      i++;
      return n;
    }
    bad();
  }
};

struct EvalFail {};      // documented failure: -1
struct OutOfRange {};    // arithmetic that C leaves undefined: not compared
struct V {
  enum T { L, D, S } t;
  long l = 0; double d = 0; std::string s; bool c = false;
};
static V vl(long l) { V v; v.t = V::L; v.l = l; return v; }
static V vd(double d) { V v; v.t = V::D; v.d = d; return v; }
static V vs(std::string s, bool c) { V v; v.t = V::S; v.s = s; v.c = c; return v; }
static long d2l(double d) {
  if (!(d > -9.2e18 && d < 9.2e18)) throw OutOfRange();
  return (long)d;
}
static long tol(const V &v) { return v.t == V::L ? v.l : v.t == V::D ? d2l(v.d) : strtol(v.s.c_str(), nullptr, 10); }
static double tod(const V &v) { return v.t == V::L ? (double)v.l : v.t == V::D ? v.d : strtod(v.s.c_str(), nullptr); }
static bool truth(const V &v) { return v.t == V::D ? v.d != 0 : tol(v) != 0; }
static std::string tos(const V &v) {
  if (v.t == V::S) return v.s;
  char b[512];
  if (v.t == V::L) snprintf(b, sizeof b, "%ld", v.l);
  else snprintf(b, sizeof b, "%f", v.d);
  return b;
}
static long addl(long a, long b) { long r; if (__builtin_add_overflow(a, b, &r)) throw OutOfRange(); return r; }
static long subl(long a, long b) { long r; if (__builtin_sub_overflow(a, b, &r)) throw OutOfRange(); return r; }
static long mull(long a, long b) { long r; if (__builtin_mul_overflow(a, b, &r)) throw OutOfRange(); return r; }

using Model = std::map<FLDID32, std::vector<std::string>>;  // raw bytes as stored

static V fieldv(const Model &m, FLDID32 id, FLDOCC32 oc) {
  auto it = m.find(id);
  bool here = it != m.end() && oc >= 0 && (size_t)oc < it->second.size();
  const std::string e;
  const std::string &r = here ? it->second[oc] : e;
  switch (Fldtype32(id)) {
    case FLD_SHORT: return vl(here ? *(short *)r.data() : 0);
    case FLD_LONG: return vl(here ? *(long *)r.data() : 0);
    case FLD_FLOAT: return vd(here ? *(float *)r.data() : 0);
    case FLD_DOUBLE: return vd(here ? *(double *)r.data() : 0);
    default: return vs(std::string(r.c_str()), false);
  }
}
static V cmpv(const std::string &o, V l, V r) {
  if (o == "%%" || o == "!%") {
    regex_t re;
    if (regcomp(&re, r.s.c_str(), 0) != 0) throw EvalFail();
    regmatch_t m[1];
    int x = regexec(&re, tos(l).c_str(), 1, m, 0);
    regfree(&re);
    bool hit = x == 0 && m[0].rm_so == 0;
    return vl(o == "%%" ? hit : !hit);
  }
  if ((l.t == V::S && l.c) || (r.t == V::S && r.c) || (l.t == V::S && r.t == V::S)) {
    int x = strcmp(tos(l).c_str(), tos(r).c_str());
    l = vl(x < 0 ? -1 : x > 0);
    r = vl(0);
  }
#define CMP(OP) (l.t == V::D || r.t == V::D ? vl(tod(l) OP tod(r)) : vl(tol(l) OP tol(r)))
  if (o == "<") return CMP(<);
  if (o == ">") return CMP(>);
  if (o == "<=") return CMP(<=);
  if (o == ">=") return CMP(>=);
  if (o == "==") return CMP(==);
  return CMP(!=);
}
static V eval(const Model &m, const NP &n) {
  switch (n->k) {
    case Node::LONG: return vl(n->l);
    case Node::DBL: return vd(n->d);
    case Node::STR: return vs(n->s, true);
    case Node::FLD: return fieldv(m, n->id, n->oc);
    case Node::ANY: throw EvalFail();
    case Node::UN: {
      auto v = eval(m, n->a);
      if (n->s == "-") {
        if (v.t == V::D) return vd(-v.d);
        return vl(subl(0, tol(v)));
      }
      if (n->s == "!") return vl(!truth(v));
      return vl(~tol(v));
    }
    case Node::BIN: break;
  }
  const std::string &o = n->s;
  int p = prec_of(o);
  if (p == 50 || p == 40) {
    if (n->a->k == Node::ANY) {
      auto r = eval(m, n->b);
      auto it = m.find(n->a->id);
      size_t c = it == m.end() ? 0 : it->second.size();
      bool any = false;
      for (size_t i = 0; i < c && !any; i++) any = tol(cmpv(o, fieldv(m, n->a->id, i), r)) != 0;
      return vl(any);
    }
    auto l = eval(m, n->a), r = eval(m, n->b);
    return cmpv(o, l, r);
  }
  auto l = eval(m, n->a), r = eval(m, n->b);
  bool d = l.t == V::D || r.t == V::D;
  if (o == "*") return d ? vd(tod(l) * tod(r)) : vl(mull(tol(l), tol(r)));
  if (o == "+") return d ? vd(tod(l) + tod(r)) : vl(addl(tol(l), tol(r)));
  if (o == "-") return d ? vd(tod(l) - tod(r)) : vl(subl(tol(l), tol(r)));
  if (o == "/") {
    if (d) return vd(tod(l) / tod(r));
    if (tol(r) == 0 || (tol(r) == -1 && tol(l) == LONG_MIN)) throw EvalFail();
    return vl(tol(l) / tol(r));
  }
  if (o == "%") {
    if (tol(r) == 0 || (tol(r) == -1 && tol(l) == LONG_MIN)) throw EvalFail();
    return vl(tol(l) % tol(r));
  }
  if (o == "^") return vl(tol(l) ^ tol(r));
  bool lt = d ? tod(l) != 0 : tol(l) != 0, rt = d ? tod(r) != 0 : tol(r) != 0;
  return vl(o == "&&" ? (lt && rt) : (lt || rt));
}

// ---------------------------------------------------------------- generator
static const char *names[] = {"VS1", "VS2", "VL1", "VL2", "VC1", "VF1", "VD1", "VD2", "VT1", "VT2", "VA1", "VT1", "VT2"};
static std::string ws(Rng &r) { return r.p(70) ? "" : r.p(70) ? " " : r.p(50) ? "\t " : "\n"; }
static std::string word(Rng &r) {
  static const std::vector<std::string> w{"", "a", "b", "ab", "abc", "b.", "10", "7", "007", "1.5", "-3", "0", "x y", "12abc", "1.500000", "zz", "A", "\xe9t\xe9"};
  if (r.p(85)) return r.pick(w);
  std::string s;
  for (int n = r.in(1, r.p(10) ? 3000 : 12); n > 0; n--) s += (char)r.in(1, 255);
  return s;
}
static std::string quote(Rng &r, const std::string &s) {
  std::string o = "'";
  for (unsigned char c : s)
    if (c == '\'' || c == '\\' || r.p(10)) o += fmt(r.p(50) ? "\\%02x" : "\\%02X", c);
    else o += (char)c;
  return o + "'";
}
static std::string gen_num(Rng &r) {
  if (r.p(65)) return r.p(90) ? fmt("%ld", r.in(0, 12)) : r.p(50) ? fmt("%ld", r.in(0, 100000)) : fmt("%lu", r.next() >> (1 + r.u(60)));
  if (r.p(70)) return fmt("%ld.%ld", r.in(0, 4), r.in(0, 9) * (r.p(50) ? 5 : 1));
  if (r.p(20)) return fmt("%ld.", r.in(0, 9));
  return fmt("%.*f", (int)r.in(1, 18), r.d() * pow(10, r.in(-5, r.p(10) ? 300 : 12)));
}
static std::string gen_field(Rng &r, bool any_ok) {
  std::string f = names[r.u(sizeof names / sizeof *names)];
  if (any_ok && r.p(25)) return f + "[?]";
  if (r.p(35)) f += fmt("[%ld]", r.in(0, 4));
  return f;
}
static std::string gen_regex(Rng &r) {
  static const std::vector<std::string> w{".", ".*", "a", "a.*", "[0-9]*", "[0-9][0-9]*", "^a", "b$", "^$", "[ab]b", "\\(a\\)b", "[", "a*b", "1\\.5", "x y", "...", "\\([0-9]\\)\\1", ".*c", ""};
  return r.pick(w);
}
static std::string gen(Rng &r, int depth) {
  std::string s = ws(r);
  if (depth <= 0 || r.p(15)) {
    int k = r.u(100);
    if (k < 40) s += gen_num(r);
    else if (k < 80) s += gen_field(r, r.p(4));
    else s += quote(r, word(r));
    return s + ws(r);
  }
  int k = r.u(100);
  if (k < 14) {
    static const std::vector<std::string> un{"-", "!", "~", "+"};
    return s + r.pick(un) + gen(r, depth - 1);
  }
  if (k < 38) return s + "(" + gen(r, depth - 1) + ")" + ws(r);
  if (k < 48) {
    s += r.p(80) ? gen_field(r, true) : quote(r, word(r));
    s += ws(r);
    s += r.p(60) ? "%%" : "!%";
    return s + ws(r) + quote(r, gen_regex(r)) + ws(r);
  }
  static const std::vector<std::string> ops{"*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "^", "&&", "||", "==", "!=", "<", ">"};
  auto o = r.pick(ops);
  if (prec_of(o) == 50 && r.p(20)) return s + gen_field(r, true) + ws(r) + o + gen(r, depth - 1);
  return s + gen(r, depth - 1) + o + gen(r, depth - 1);
}
static std::string damage(Rng &r, std::string s) {
  int n = r.in(1, 3);
  static const char cs[] = "+-!~*/%<>=^&|()[]'?\\ .0123456789VSLTabc_\n";
  while (n-- > 0) {
    size_t p = r.u(s.size() + 1);
    switch (r.u(4)) {
      case 0: if (p < s.size()) s.erase(p, r.in(1, 3)); break;
      case 1: s.insert(p, 1, cs[r.u(sizeof cs - 1)]); break;
      case 2: if (p < s.size()) s[p] = r.p(80) ? cs[r.u(sizeof cs - 1)] : (char)r.in(1, 255); break;
      case 3: s.resize(p); break;
    }
  }
  return s;
}

using Tree = std::unique_ptr<char, decltype(&free)>;
static size_t tree_len(const char *t) { return ((unsigned char)t[0]) | ((unsigned char)t[1] << 8); }

static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

static std::string print(char *t) {
  char *p = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  Fboolpr32(t, f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return s;
}

struct Data {
  std::shared_ptr<FBFR32> b;
  Model m;
  std::string image;
};
static Data gen_data(Rng &r, bool small) {
  Data x;
  long size = 65536;
  x.b = std::shared_ptr<FBFR32>((FBFR32 *)aligned_alloc(16, size), free);
  memset((void *)x.b.get(), 0, size);
  Finit32(x.b.get(), size);
  std::set<std::string> ns(names, names + sizeof names / sizeof *names);
  for (auto &n : ns) {
    FLDID32 id = Fldid32((char *)n.c_str());
    if (id == BADFLDID) viol("setup", "field table not loaded: " + n);
    int c = r.u(4);
    for (int i = 0; i < c; i++) {
      std::string raw;
      auto put = [&](auto v) { raw = std::string((char *)&v, sizeof v); };
      switch (Fldtype32(id)) {
        case FLD_SHORT: put((short)(r.p(60) ? r.in(-3, 12) : r.in(-32768, 32767))); break;
        case FLD_LONG: put((long)(small || r.p(70) ? r.in(-3, 1000) : r.p(20) ? (r.p(50) ? LONG_MIN : LONG_MAX) : (long)r.next())); break;
        case FLD_CHAR: put((char)(r.p(50) ? '0' + r.u(10) : r.p(90) ? 'a' + r.u(3) : r.in(0, 255))); break;
        case FLD_FLOAT: put((float)(r.p(60) ? r.in(-6, 6) / 2.0 : r.d() * 1e5)); break;
        case FLD_DOUBLE: put((double)(small || r.p(60) ? r.in(-6, 6) / 2.0 : r.d() * pow(10, r.in(-9, 300)))); break;
        case FLD_STRING: raw = word(r); raw += '\0'; break;
        default: raw = word(r); if (r.p(10)) raw += std::string("\0q", 2); break;
      }
      if (small && raw.size() > 100) raw = std::string("9", 2);
      if (Fadd32(x.b.get(), id, (char *)raw.data(), raw.size()) == -1) viol("setup", "Fadd32 failed");
      raw.resize(std::max<size_t>(raw.size(), 8), '\0');
      std::string keep = raw;
      if (Fldtype32(id) == FLD_CARRAY) keep = raw + std::string(1, '\0');
      x.m[id].push_back(keep);
    }
  }
  x.image.assign((char *)x.b.get(), Fsizeof32(x.b.get()));
  return x;
}

static void check_text(Rng &r, const std::string &text, const std::vector<Data> &data, bool constructed) {
  log("expr: " + esc(text, 300));
  NP ast;
  int rej = 0;
  bool unclear = false;
  try {
    Ref p(text);
    ast = p.parse();
  } catch (Reject &e) {
    rej = e.err;
  } catch (Unclear &) {
    unclear = true;
  }
  // the text ends at a red zone
  std::unique_ptr<char[]> box(new char[text.size() + 1]);
  memcpy(box.get(), text.c_str(), text.size() + 1);
  cur_op() = "Fboolco32";
  Ferror32 = 0;
  Tree t(Fboolco32(box.get()), free);
  int err = Ferror32;
  if (memcmp(box.get(), text.c_str(), text.size() + 1) != 0) viol("text-changed", esc(text));
  count(ast ? "texts_valid" : unclear ? "texts_unclear" : "texts_invalid");
  if (!unclear) {
    if (rej && t) viol("accepted-invalid", "'" + esc(text) + "' printed as " + esc(print(t.get())));
    if (ast && !t) viol("rejected-valid", fmt("error %d for '", err) + esc(text) + "'");
    if (rej && err != FSYNTAX && err != FBADNAME && err != FEBADOP) viol("reject-code", fmt("%d for ", err) + esc(text));
    if (rej && constructed && err != rej) viol("reject-code", fmt("%d, expected %d for ", err, rej) + esc(text));
  }
  if (!t) {
    count("rejected");
    return;
  }
  // the tree is self contained within its stated length
  std::unique_ptr<char[]> copy;
  size_t n = tree_len(t.get());
  if (text.size() < 20000) {
    copy.reset(new char[n]);
    memcpy(copy.get(), t.get(), n);
  }
  char *tree = copy ? copy.get() : t.get();
  cur_op() = "Fboolpr32";
  auto pr = print(tree);
  cur_op() = "Fboolco32(printed)";
  bool deep = false;
  { int d = 0; for (char c : pr) { d += c == '(' ? 1 : c == ')' ? -1 : 0; if (d > 400) deep = true; } }
  Tree t2(nullptr, free);
  if (!deep) {
    t2.reset(Fboolco32((char *)pr.c_str()));
    if (!t2) viol("print-not-compilable", fmt("error %d: ", Ferror32) + esc(text) + " printed as " + esc(pr));
    auto pr2 = print(t2.get());
    if (pr2 != pr) viol("print-not-stable", esc(pr) + " then " + esc(pr2));
  }
  if (!ast) return;
  for (auto &dt : data) {
    FBFR32 *b = dt.b.get();
    V ev;
    bool fails = false;
    try {
      ev = eval(dt.m, ast);
      if (ev.t == V::D && std::isnan(ev.d)) throw OutOfRange();
    } catch (EvalFail &) {
      fails = true;
    } catch (OutOfRange &) {
      count("evals_undefined");
      continue;
    }
    cur_op() = "Fboolev32";
    int got = Fboolev32(b, tree);
    int want = fails ? -1 : truth(ev);
    if (got != want) viol("boolev", fmt("Fboolev32 of '%s' gives %d, expected %d", esc(text).c_str(), got, want));
    cur_op() = "Ffloatev32";
    double fg = Ffloatev32(b, tree), fw = fails ? -1.0 : tod(ev);
    if (!same(fg, fw)) viol("floatev", fmt("Ffloatev32 of '%s' gives %.17g, expected %.17g", esc(text).c_str(), fg, fw));
    if (t2) {
      cur_op() = "Fboolev32(printed)";
      if (Fboolev32(b, t2.get()) != want || !same(Ffloatev32(b, t2.get()), fw))
        viol("print-not-equivalent", esc(text) + " printed as " + esc(pr));
    }
    if (memcmp((void *)b, dt.image.data(), Fsizeof32(b)) != 0) viol("buffer-changed", esc(text));
    count(fails ? "evals_failing" : "evals");
    count("distinct_nontrivial", 0);
    if (!fails) distinct("results", fmt("%.6g", fw));
  }
  std::set<std::string> kinds;
  std::function<void(const NP &)> walk = [&](const NP &x) {
    if (!x) return;
    if (x->k == Node::BIN)
      distinct("operator_operands", x->s + fmt(":%d:%d", x->a->k == Node::FLD || x->a->k == Node::ANY ? 100 + Fldtype32(x->a->id) : (int)x->a->k,
                                        x->b->k == Node::FLD || x->b->k == Node::ANY ? 100 + Fldtype32(x->b->id) : (int)x->b->k));
    walk(x->a);
    walk(x->b);
  };
  walk(ast);
}

static void mode_expr(Rng &r) {
  std::vector<Data> data;
  data.push_back(gen_data(r, false));
  if (r.p(40)) data.push_back(gen_data(r, false));
  for (int round = 0; round < 25; round++) {
    oplog().clear();
    std::string t;
    int k = r.u(100);
    if (k < 90) t = gen(r, r.in(0, 6));
    else if (k < 96) {  // long chains
      int n = r.in(20, 250);
      static const std::vector<std::string> ops{"+", "-", "||", "&&", "==", "^"};
      t = gen(r, 1);
      while (n-- > 0) t += r.pick(ops) + gen(r, 0);
    } else {  // nesting
      int n = r.in(10, 150);
      t = gen(r, 2);
      for (int i = 0; i < n; i++) t = (r.p(70) ? "(" : r.p(50) ? "-(" : "!(") + t + ")";
    }
    check_text(r, t, data, true);
    if (cur_case() % 97 == 5 && round < 3) sample(esc(t, 120));
  }
  // damaged text; values small enough that nothing overflows
  std::vector<Data> sm;
  sm.push_back(gen_data(r, true));
  for (int round = 0; round < 25; round++) {
    oplog().clear();
    check_text(r, damage(r, gen(r, r.in(0, 4))), sm, false);
  }
  // single faults with their documented codes
  struct F { const char *t; int e; };
  static const F faults[] = {{"NOFIELD", FBADNAME}, {"1+NOFIELD[?]", FBADNAME}, {"VN1", FEBADOP}, {"VN1[0] == 1", FEBADOP},
                             {"", FSYNTAX}, {"1+", FSYNTAX}, {"(1", FSYNTAX}, {"1)", FSYNTAX}, {"1 2", FSYNTAX},
                             {"VL1 %% VT1", FSYNTAX}, {"'abc", FSYNTAX}, {"VL1[", FSYNTAX}, {"VL1[]", FSYNTAX}, {"1 = 2", FSYNTAX},
                             {"99999999999999999999", FSYNTAX}, {"&&", FSYNTAX}, {"1 &&", FSYNTAX}, {"#", FSYNTAX}};
  auto &f = faults[r.u(sizeof faults / sizeof *faults)];
  Ferror32 = 0;
  Tree t(Fboolco32((char *)f.t), free);
  if (t || Ferror32 != f.e) viol("fault-code", fmt("'%s': error %d, expected %d", f.t, Ferror32, f.e));
  count("faults");
  if (r.p(2)) {
    // hostile nesting: any answer, no crash
    std::string h;
    int n = r.in(20000, 60000);
    switch (r.u(3)) {
      case 0: h = std::string(n, '(') + "1" + std::string(n, ')'); break;
      case 1: h = std::string(n, '!') + "1"; break;
      case 2: for (int i = 0; i < n; i++) h += "1+("; break;
    }
    cur_op() = "Fboolco32(deep)";
    log("deep nesting");
    Tree d(Fboolco32((char *)h.c_str()), free);
    count("deep");
  }
  if (r.p(5)) {
    char *one = Fboolco32((char *)"1");
    Tree o(one, free);
    if (Fboolco32(nullptr) || Fboolev32(nullptr, one) != -1 || Fboolev32(sm[0].b.get(), nullptr) != -1 || Ffloatev32(nullptr, one) != -1)
      viol("null-arguments", "NULL argument accepted");
  }
}

VH_MAIN({{"expr", mode_expr}})
