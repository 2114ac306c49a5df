// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;

enum Kind : uint8_t {
  K_Const, K_Var, K_Concat, K_Extract, K_ZExt, K_SExt, K_Ite, K_Not,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle
};

struct VarSet { std::vector<u32> v; };   // sorted, interned

struct Expr {
  Kind k;
  uint16_t w;       // width in bits
  u32 id;
  u32 aux;          // extract offset / var id
  u128 c;           // constant
  const Expr *a, *b, *d;
  const VarSet* vars;
  size_t h;
  mutable uint64_t* tt; // truth table (256 bits) for 1-bit single 8-bit-var expr
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; E e; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct ExprCtx {
  struct H { size_t operator()(E e) const { return e->h; } };
  struct Q { bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
  std::unordered_set<E, H, Q> tab;
  std::vector<E> all;
  std::vector<VarInfo> vars;
  VarSet emptySet;
  std::unordered_map<u64, std::vector<VarSet*>> setTab;

  const VarSet* internSet(std::vector<u32>&& v) {
    if (v.empty()) return &emptySet;
    u64 h = 1469598103934665603ULL;
    for (u32 x : v) h = (h ^ x) * 1099511628211ULL;
    auto& b = setTab[h];
    for (auto* s : b) if (s->v == v) return s;
    auto* s = new VarSet{std::move(v)};
    b.push_back(s);
    return s;
  }
  const VarSet* unite(const VarSet* x, const VarSet* y) {
    if (x == y || y->v.empty()) return x;
    if (x->v.empty()) return y;
    std::vector<u32> r; r.reserve(x->v.size() + y->v.size());
    size_t i = 0, j = 0;
    while (i < x->v.size() || j < y->v.size()) {
      if (j == y->v.size() || (i < x->v.size() && x->v[i] < y->v[j])) r.push_back(x->v[i++]);
      else if (i == x->v.size() || y->v[j] < x->v[i]) r.push_back(y->v[j++]);
      else { r.push_back(x->v[i]); i++; j++; }
    }
    if (r.size() == x->v.size()) return x;
    if (r.size() == y->v.size()) return y;
    return internSet(std::move(r));
  }
  E mk(Kind k, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, u32 aux = 0, u128 c = 0) {
    Expr t; t.k = k; t.w = w; t.aux = aux; t.c = c; t.a = a; t.b = b; t.d = d; t.tt = nullptr;
    size_t h = k * 0x9E3779B97F4A7C15ULL + w;
    auto mix = [&](u64 x) { h = (h ^ x) * 0xff51afd7ed558ccdULL; h ^= h >> 29; };
    mix(aux); mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    t.h = h;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    Expr* n = (Expr*)aligned_alloc(16, (sizeof(Expr) + 15) / 16 * 16);
    memcpy((void*)n, (void*)&t, sizeof(Expr));
    n->id = all.size();
    if (k == K_Var) n->vars = internSet({aux});
    else if (k == K_Const) n->vars = &emptySet;
    else {
      const VarSet* s = a->vars;
      if (b) s = unite(s, b->vars);
      if (d) s = unite(s, d->vars);
      n->vars = s;
    }
    all.push_back(n); tab.insert(n);
    return n;
  }
  E C(u128 v, unsigned w) { return mk(K_Const, w, 0, 0, 0, 0, v & maskw(w)); }
  E T() { return C(1, 1); }
  E F() { return C(0, 1); }
  E var(const std::string& name, unsigned w) {
    u32 id = vars.size();
    vars.push_back({name, (uint16_t)w, nullptr});
    E e = mk(K_Var, w, 0, 0, 0, id);
    vars[id].e = e;
    return e;
  }
  static bool isC(E e) { return e->k == K_Const; }
  static bool isC(E e, u128 v) { return e->k == K_Const && e->c == (v & maskw(e->w)); }
  static bool ones(E e) { return e->k == K_Const && e->c == maskw(e->w); }


  // ---- rewriting log: what a constructor returned instead of the node it was asked for; certified by the solver at the end
  struct Rw { Kind k; uint16_t w; u32 aux; E a, b, d, r; };
  std::vector<Rw> log; std::unordered_set<u64> logged; unsigned depth = 0; size_t logCap = 60000, logDropped = 0;
  E rec(Kind k, unsigned w, E a, E b, E d, u32 aux, E r) {
    if (a->k == K_Const && (!b || b->k == K_Const) && (!d || d->k == K_Const)) return r;
    if (r->k == k && r->w == w && r->aux == aux && r->d == d && ((r->a == a && r->b == b) || (r->a == b && r->b == a && (k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq)))) return r;
    u64 h = ((u64)k * 0x9E3779B97F4A7C15ULL) ^ w;
    for (u64 x : {(u64)a->id, (u64)(b ? b->id + 1 : 0), (u64)(d ? d->id + 1 : 0), (u64)aux, (u64)r->id}) { h = (h ^ x) * 0xff51afd7ed558ccdULL; h ^= h >> 31; }
    if (!logged.insert(h).second) return r;
    if (log.size() >= logCap) logDropped++; else log.push_back({k, (uint16_t)w, aux, a, b, d, r});
    return r;
  }
  struct Deep { unsigned& d; Deep(unsigned& x) : d(x) { ++d; } ~Deep() { --d; } };
#define LOGGED(call, k, w, a, b, d, aux) { E r_; { Deep g_(depth); r_ = call; } return depth ? r_ : rec(k, w, a, b, d, aux, r_); }
  E Not(E a) LOGGED(Not_(a), K_Not, a->w, a, nullptr, nullptr, 0)
  E Concat(E a, E b) LOGGED(Concat_(a, b), K_Concat, a->w + b->w, a, b, nullptr, 0)
  E Extract(E a, unsigned off, unsigned w) LOGGED(Extract_(a, off, w), K_Extract, w, a, nullptr, nullptr, off)
  E ZExt(E a, unsigned w) LOGGED(ZExt_(a, w), K_ZExt, w, a, nullptr, nullptr, 0)
  E SExt(E a, unsigned w) LOGGED(SExt_(a, w), K_SExt, w, a, nullptr, nullptr, 0)
  E Ite(E c, E a, E b) LOGGED(Ite_(c, a, b), K_Ite, a->w, c, a, b, 0)
  E Bin(Kind k, E a, E b) LOGGED(Bin_(k, a, b), k, (k >= K_Eq ? 1 : a->w), a, b, nullptr, 0)

  static u128 foldBin(Kind k, u128 x, u128 y, unsigned w, bool& ok) {
    ok = true; u128 m = maskw(w);
    switch (k) {
      case K_Add: return (x + y) & m;
      case K_Sub: return (x - y) & m;
      case K_Mul: return (x * y) & m;
      case K_UDiv: if (!y) { ok = true; return m; } return x / y;
      case K_URem: if (!y) { return x; } return x % y;
      case K_SDiv: { s128 a = sextw(x, w), b = sextw(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u128)(a / b) & m; }
      case K_SRem: { s128 a = sextw(x, w), b = sextw(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
      case K_And: return x & y;
      case K_Or: return x | y;
      case K_Xor: return x ^ y;
      case K_Shl: return y >= w ? 0 : (x << (unsigned)y) & m;
      case K_LShr: return y >= w ? 0 : x >> (unsigned)y;
      case K_AShr: { s128 a = sextw(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
      case K_Eq: return x == y;
      case K_Ult: return x < y;
      case K_Ule: return x <= y;
      case K_Slt: return sextw(x, w) < sextw(y, w);
      case K_Sle: return sextw(x, w) <= sextw(y, w);
      default: ok = false; return 0;
    }
  }
  E Not_(E a) {   // bitwise
    if (isC(a)) return C(~a->c, a->w);
    if (a->k == K_Not) return a->a;
    if (a->w == 1) {
      if (a->k == K_Ult) return Ule(a->b, a->a);
      if (a->k == K_Ule) return Ult(a->b, a->a);
      if (a->k == K_Slt) return Sle(a->b, a->a);
      if (a->k == K_Sle) return Slt(a->b, a->a);
    }
    return mk(K_Not, a->w, a);
  }
  E Concat_(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return C((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return ZExt(lo, w);
    // extract merge
    if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
      return Extract(hi->a, lo->aux, w);
    if (hi->k == K_Extract && hi->a == lo && hi->aux == lo->w) return Extract(lo, 0, w); // impossible but harmless
    // hi = extract of zext/... handled in Extract. Concat(extract, concat(extract, y))
    if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
      return Concat(Extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->k == K_Concat && hi->b->k == K_Extract && lo->k == K_Extract && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w)
      return Concat(hi->a, Extract(lo->a, lo->aux, hi->b->w + lo->w));
    // byte-wise reload of a stored value: lo is the matching piece of hi's source in simplified form
    if (hi->k == K_Extract && hi->aux >= lo->w && Extract(hi->a, hi->aux - lo->w, lo->w) == lo)
      return Extract(hi->a, hi->aux - lo->w, w);
    if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a && hi->w + lo->w <= 128)
      return Ite(hi->a, Concat(hi->b, lo->b), Concat(hi->d, lo->d));
    // right-assoc to left canonical: Concat(a, Concat(b,c)) kept as is
    if (hi->k == K_ZExt) { // zext(x)·lo = zext(x·lo)
      return ZExt(Concat(hi->a, lo), w);
    }
    return mk(K_Concat, w, hi, lo);
  }
  E Extract_(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->k) {
      case K_Const: return C(a->c >> off, w);
      case K_Extract: return Extract(a->a, a->aux + off, w);
      case K_Concat:
        if (off + w <= a->b->w) return Extract(a->b, off, w);
        if (off >= a->b->w) return Extract(a->a, off - a->b->w, w);
        return Concat(Extract(a->a, 0, off + w - a->b->w), Extract(a->b, off, a->b->w - off));
      case K_ZExt:
        if (off >= a->a->w) return C(0, w);
        if (off + w <= a->a->w) return Extract(a->a, off, w);
        return ZExt(Extract(a->a, off, a->a->w - off), w);
      case K_SExt:
        if (off + w <= a->a->w) return Extract(a->a, off, w);
        if (off == 0) return SExt(a->a, w);
        break;
      case K_Ite: {
        if ((isC(a->b) || isC(a->d)) || (a->b->k == K_ZExt || a->d->k == K_ZExt) || a->b->k == K_Concat || a->d->k == K_Concat || (a->b->k == K_Var && a->d->k == K_Var))
          return Ite(a->a, Extract(a->b, off, w), Extract(a->d, off, w));
        break;
      }
      case K_And: case K_Or: case K_Xor:
        if (!isC(a->b)) break;
        return Bin(a->k, Extract(a->a, off, w), Extract(a->b, off, w));
      case K_Shl:
        if (isC(a->b)) { unsigned s = (unsigned)a->b->c; if (s < a->w) { if (off >= s) return Extract(a->a, off - s, w); if (off + w <= s) return C(0, w); } }
        break;
      case K_LShr:
        if (isC(a->b)) { u128 s = a->b->c; if (s < a->w && off + s + w <= a->w) return Extract(a->a, off + (unsigned)s, w); }
        break;
      default: break;
    }
    return mk(K_Extract, w, a, 0, 0, off);
  }
  E ZExt_(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return C(a->c, w);
    if (a->k == K_ZExt) return mk(K_ZExt, w, a->a);
    return mk(K_ZExt, w, a);
  }
  E SExt_(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return C((u128)sextw(a->c, a->w), w);
    if (a->k == K_ZExt) return ZExt(a->a, w);
    if (a->k == K_SExt) return mk(K_SExt, w, a->a);
    return mk(K_SExt, w, a);
  }
  E Ite_(E c, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch in ite\n"); abort(); }
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_Not) return Ite(c->a, b, a);
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c;
      if (isC(a, 0) && isC(b, 1)) return Not(c);
      if (isC(a, 1)) return Bin(K_Or, c, b);
      if (isC(a, 0)) return Bin(K_And, Not(c), b);
      if (isC(b, 0)) return Bin(K_And, c, a);
      if (isC(b, 1)) return Bin(K_Or, Not(c), a);
    }
    if (b->k == K_Ite && b->a == c) b = b->d;
    if (a->k == K_Ite && a->a == c) a = a->b;
    if (a == b) return a;
    return mk(K_Ite, a->w, c, a, b);
  }
  E Ult(E a, E b) { return Bin(K_Ult, a, b); }
  E Ule(E a, E b) { return Bin(K_Ule, a, b); }
  E Slt(E a, E b) { return Bin(K_Slt, a, b); }
  E Sle(E a, E b) { return Bin(K_Sle, a, b); }
  E Eq(E a, E b) { return Bin(K_Eq, a, b); }
  E And(E a, E b) { return Bin(K_And, a, b); }
  E Or(E a, E b) { return Bin(K_Or, a, b); }
  E Add(E a, E b) { return Bin(K_Add, a, b); }
  E Sub(E a, E b) { return Bin(K_Sub, a, b); }

  E Bin_(Kind k, E a, E b) {
    unsigned w = a->w;
    if (b->w != w) { fprintf(stderr, "width mismatch in operator %d\n", (int)k); abort(); }
    bool cmp = k >= K_Eq;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(k, a->c, b->c, w, ok); return C(r, rw); }
    bool comm = k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq;
    if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
    switch (k) {
      case K_Add:
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K_Add && isC(a->b)) return Bin(K_Add, a->a, C(a->b->c + b->c, w));
        if (isC(b) && a->k == K_Ite && isC(a->b) && isC(a->d)) return Ite(a->a, Bin(k, a->b, b), Bin(k, a->d, b));
        break;
      case K_Sub:
        if (isC(b)) return Bin(K_Add, a, C(0 - b->c, w));
        if (a == b) return C(0, w);
        if (a->k == K_Add && a->a == b) return a->b;
        if (a->k == K_Add && a->b == b) return a->a;
        break;
      case K_Mul:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
      case K_UDiv: if (isC(b, 1)) return a; break;
      case K_SDiv: if (isC(b, 1)) return a; break;
      case K_And:
        if (isC(b, 0)) return b;
        if (ones(b)) return a;
        if (a == b) return a;
        if (w == 1 && (a->k == K_Not ? a->a == b : (b->k == K_Not && b->a == a))) return C(0, 1);
        if (isC(b)) {
          // low mask -> zext(extract)
          u128 m = b->c; 
          if ((m & (m + 1)) == 0) { unsigned n = 0; while (n < w && ((m >> n) & 1)) n++; return ZExt(Extract(a, 0, n), w); }
          if (a->k == K_And && isC(a->b)) return Bin(K_And, a->a, C(a->b->c & b->c, w));
          if (a->k == K_ZExt && (b->c >> a->a->w) == 0) return ZExt(Bin(K_And, a->a, C(b->c, a->a->w)), w);
          if (a->k == K_ZExt) return ZExt(Bin(K_And, a->a, C(b->c, a->a->w)), w);
          if (a->k == K_Concat) return Concat(Bin(K_And, a->a, C(b->c >> a->b->w, a->a->w)), Bin(K_And, a->b, C(b->c, a->b->w)));
        }
        break;
      case K_Or:
        if (isC(b, 0)) return a;
        if (ones(b)) return b;
        if (a == b) return a;
        if (w == 1 && (a->k == K_Not ? a->a == b : (b->k == K_Not && b->a == a))) return C(1, 1);
        if (isC(b) && a->k == K_Concat) return Concat(Bin(K_Or, a->a, C(b->c >> a->b->w, a->a->w)), Bin(K_Or, a->b, C(b->c, a->b->w)));
        if (isC(b) && a->k == K_ZExt && (b->c >> a->a->w) == 0) return ZExt(Bin(K_Or, a->a, C(b->c, a->a->w)), w);
        // or of disjoint concat parts: (zext lo) | (x << n)
        if (a->k == K_ZExt && b->k == K_Shl && isC(b->b) && b->b->c >= a->a->w && b->b->c < w) {
          unsigned s = (unsigned)b->b->c; return Concat(Extract(b->a, 0, w - s), ZExt(a->a, s)); }
        if (b->k == K_ZExt && a->k == K_Shl && isC(a->b) && a->b->c >= b->a->w && a->b->c < w) {
          unsigned s = (unsigned)a->b->c; return Concat(Extract(a->a, 0, w - s), ZExt(b->a, s)); }
        break;
      case K_Xor:
        if (isC(b, 0)) return a;
        if (a == b) return C(0, w);
        if (ones(b)) return Not(a);
        break;
      case K_Shl:
        if (isC(b)) { if (b->c >= w) return C(0, w); if (b->c == 0) return a; unsigned s = (unsigned)b->c; return Concat(Extract(a, 0, w - s), C(0, s)); }
        break;
      case K_LShr:
        if (isC(b)) { if (b->c >= w) return C(0, w); if (b->c == 0) return a; unsigned s = (unsigned)b->c; return ZExt(Extract(a, s, w - s), w); }
        break;
      case K_AShr:
        if (isC(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return SExt(Extract(a, s, w - s), w); }
        break;
      case K_Eq:
        if (a == b) return T();
        if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return Not(a); }
        if (isC(b)) {
          switch (a->k) {
            case K_ZExt: if (b->c >> a->a->w) return F(); return Eq(a->a, C(b->c, a->a->w));
            case K_SExt: { E t = C(b->c, a->a->w); if (((u128)sextw(t->c, t->w) & maskw(w)) != b->c) return F(); return Eq(a->a, t); }
            case K_Concat: return And(Eq(a->a, C(b->c >> a->b->w, a->a->w)), Eq(a->b, C(b->c, a->b->w)));
            case K_Add: if (isC(a->b)) return Eq(a->a, C(b->c - a->b->c, w)); break;
            case K_Xor: if (isC(a->b)) return Eq(a->a, C(b->c ^ a->b->c, w)); if (b->c == 0) return Eq(a->a, a->b); break;
            case K_Sub: if (b->c == 0) return Eq(a->a, a->b); break;
            case K_Not: return Eq(a->a, C(~b->c, w));
            case K_Ite:
              if (isC(a->b) || isC(a->d)) return Ite(a->a, Eq(a->b, b), Eq(a->d, b));
              break;
            case K_Or: if (b->c == 0) return And(Eq(a->a, b), Eq(a->b, b)); break;
            default: break;
          }
        } else {
          if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return Eq(a->a, b->a);
          if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return Eq(a->a, b->a);
          if (a->k == K_Add && b->k == K_Add && a->b == b->b) return Eq(a->a, b->a);
          if (a->k == K_Concat && b->k == K_Concat && a->a->w == b->a->w) return And(Eq(a->a, b->a), Eq(a->b, b->b));
        }
        break;
      case K_Ult:
        if (a == b) return F();
        if (isC(b, 0)) return F();
        if (isC(b, 1)) return Eq(a, C(0, w));
        if (isC(a, 0)) return Not(Eq(b, a));
        if (isC(a) && ones(a)) return F();
        if (a->k == K_ZExt && isC(b)) { if (b->c > maskw(a->a->w)) return T(); return Ult(a->a, C(b->c, a->a->w)); }
        if (b->k == K_ZExt && isC(a)) { if (a->c >= maskw(b->a->w)) return F(); return Ult(C(a->c, b->a->w), b->a); }
        if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return Ult(a->a, b->a);
        if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->d))) return Ite(a->a, Bin(k, a->b, b), Bin(k, a->d, b));
        break;
      case K_Ule:
        if (a == b) return T();
        if (isC(a, 0)) return T();
        if (isC(b, 0)) return Eq(a, b);
        if (ones(b)) return T();
        if (a->k == K_ZExt && isC(b)) { if (b->c >= maskw(a->a->w)) return T(); return Ule(a->a, C(b->c, a->a->w)); }
        if (b->k == K_ZExt && isC(a)) { if (a->c > maskw(b->a->w)) return F(); return Ule(C(a->c, b->a->w), b->a); }
        if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return Ule(a->a, b->a);
        if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->d))) return Ite(a->a, Bin(k, a->b, b), Bin(k, a->d, b));
        break;
      case K_Slt: case K_Sle:
        if (a == b) return C(k == K_Sle, 1);
        // zext operands are non-negative
        if (a->k == K_ZExt && a->a->w < w && isC(b)) { if (sextw(b->c, w) < 0) return F(); return Bin(k == K_Slt ? K_Ult : K_Ule, a, b); }
        if (b->k == K_ZExt && b->a->w < w && isC(a)) { if (sextw(a->c, w) < 0) return T(); return Bin(k == K_Slt ? K_Ult : K_Ule, a, b); }
        if (a->k == K_ZExt && b->k == K_ZExt) return Bin(k == K_Slt ? K_Ult : K_Ule, a, b);
        if (a->k == K_SExt && isC(b)) {
          s128 v = sextw(b->c, w); s128 lo = -((s128)1 << (a->a->w - 1)), hi = ((s128)1 << (a->a->w - 1)) - 1;
          if (v > hi) return T();
          if (v < lo) return F();
          return Bin(k, a->a, C((u128)v, a->a->w));
        }
        if (b->k == K_SExt && isC(a)) {
          s128 v = sextw(a->c, w); s128 lo = -((s128)1 << (b->a->w - 1)), hi = ((s128)1 << (b->a->w - 1)) - 1;
          if (v > hi) return F();
          if (v < lo) return T();
          return Bin(k, C((u128)v, b->a->w), b->a);
        }
        if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return Bin(k, a->a, b->a);
        if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->d))) return Ite(a->a, Bin(k, a->b, b), Bin(k, a->d, b));
        break;
      default: break;
    }
    return mk(k, rw, a, b);
  }

  // ---- evaluation under an assignment -----------------------------------
  std::vector<u128> memo; std::vector<u64> memoGen; u64 gen = 0;
  template <class F> u128 evalRec(E e, F& get) {
    if (e->k == K_Const) return e->c;
    if (e->id < memoGen.size() && memoGen[e->id] == gen) return memo[e->id];
    u128 r = 0;
    switch (e->k) {
      case K_Var: r = get(e->aux) & maskw(e->w); break;
      case K_Concat: r = (evalRec(e->a, get) << e->b->w) | evalRec(e->b, get); break;
      case K_Extract: r = (evalRec(e->a, get) >> e->aux) & maskw(e->w); break;
      case K_ZExt: r = evalRec(e->a, get); break;
      case K_SExt: r = (u128)sextw(evalRec(e->a, get), e->a->w) & maskw(e->w); break;
      case K_Ite: r = evalRec(e->a, get) ? evalRec(e->b, get) : evalRec(e->d, get); break;
      case K_Not: r = ~evalRec(e->a, get) & maskw(e->w); break;
      default: { bool ok; u128 x = evalRec(e->a, get), y = evalRec(e->b, get); r = foldBin(e->k, x, y, e->a->w, ok); }
    }
    if (memoGen.size() <= e->id) { memoGen.resize(all.size() + 1024, 0); memo.resize(all.size() + 1024); }
    memoGen[e->id] = gen; memo[e->id] = r;
    return r;
  }
};
