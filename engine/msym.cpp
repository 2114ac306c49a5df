// msym: a path-forking symbolic executor for LLVM IR, deciding with Z3.
//   msym [options] main.bc [name=module.bc ...]
// Every module given as name=file is linked with its own symbol namespace
// (its lisp_module_* entry points stay reachable through msym_dlsym).
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include <sstream>

using namespace llvm;
typedef std::string Str;
static ExprCtx X;
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static struct {
  Str entry = "harness", out, sym;
  std::vector<s64> args;
  double maxTime = 800; u64 maxPaths = 100000000, maxInst = 60000000, maxViol = 6;
  unsigned qTimeout = 60000; bool verbose = false; bool firstOnly = false;
  Str replay;            // concrete replay: values file
  size_t maxMemMB = 6000;
} O;

// ---------------------------------------------------------------- values
struct Val { u64 v; E e; };
static inline Val VC(u64 v) { return {v, nullptr}; }
static E toE(const Val& x, unsigned w) { return x.e ? x.e : X.C(x.v, w); }
static Val fromE(E e) { if (e->k == K_Const && e->w <= 64) return {(u64)e->c, nullptr}; return {0, e}; }

// ---------------------------------------------------------------- memory
enum { PSH = 9, PSZ = 512, LSH = 8, LN = 256 };
struct Page { u32 rc; uint8_t d[PSZ]; u64 live[PSZ / 64]; E* sym; };
struct Leaf { u32 rc; Page* p[LN]; };
static void pageUnref(Page* p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
static void leafUnref(Leaf* l) { if (l && --l->rc == 0) { for (auto* p : l->p) pageUnref(p); free(l); } }
static Page* pageNew(uint8_t fill) { Page* p = (Page*)malloc(sizeof(Page)); p->rc = 1; memset(p->d, fill, PSZ); memset(p->live, 0, sizeof p->live); p->sym = nullptr; return p; }
static Page* pageCopy(Page* o) {
  Page* p = (Page*)malloc(sizeof(Page)); memcpy((void*)p, (void*)o, sizeof(Page)); p->rc = 1;
  if (o->sym) { p->sym = (E*)malloc(PSZ * sizeof(E)); memcpy(p->sym, o->sym, PSZ * sizeof(E)); }
  return p;
}
enum { R_GLOB, R_HEAP, R_STACK, R_MMAP, R_N };
static const u64 RBASE[R_N] = {0x10000000ULL, 0x20000000ULL, 0x40000000ULL, 0x80000000ULL};
static const u64 RSIZE[R_N] = {0x10000000ULL, 0x20000000ULL, 0x40000000ULL, 0x80000000ULL};
static const u64 FBASE = 0x1000000ULL; // function addresses
struct Obj { u64 base, size, acc; uint8_t live, kind, watched; };
struct Region {
  std::vector<Leaf*> lv;
  Region() {}
  Region(const Region& o) : lv(o.lv) { for (auto* l : lv) if (l) l->rc++; }
  Region& operator=(const Region&) = delete;
  ~Region() { for (auto* l : lv) leafUnref(l); }
  Page* get(u64 pn) const { u64 i = pn >> LSH; if (i >= lv.size() || !lv[i]) return nullptr; return lv[i]->p[pn & (LN - 1)]; }
  Page* getW(u64 pn) {
    u64 i = pn >> LSH;
    if (i >= lv.size()) lv.resize(i + 1, nullptr);
    Leaf*& l = lv[i];
    if (!l) { l = (Leaf*)calloc(1, sizeof(Leaf)); l->rc = 1; }
    else if (l->rc > 1) {
      Leaf* n = (Leaf*)malloc(sizeof(Leaf)); memcpy((void*)n, (void*)l, sizeof(Leaf)); n->rc = 1;
      for (auto* p : n->p) if (p) p->rc++;
      l->rc--; l = n;
    }
    Page*& p = l->p[pn & (LN - 1)];
    if (!p) p = pageNew(0);
    else if (p->rc > 1) { Page* n = pageCopy(p); p->rc--; p = n; }
    return p;
  }
};

// ---------------------------------------------------------------- code
struct KFunc;
struct KInst {
  unsigned op; int dst; unsigned w;      // result width
  unsigned ow;                           // operand width
  std::vector<int> ops;                  // >=0 reg, <0 const ~i
  std::vector<std::pair<int, s64>> gep; s64 off = 0;
  int t0 = 0, t1 = 0;                    // branch targets (block idx)
  std::vector<std::pair<u64, int>> cases;
  KFunc* callee = nullptr; int pred = 0; u64 sz = 0; unsigned al = 1; bool dynAlloca = false;
  std::vector<unsigned> aw;              // arg widths
  const Instruction* I = nullptr;
  unsigned intr = 0;
};
struct KBlock { std::vector<KInst> in; std::map<int, std::vector<std::pair<int, int>>> phi; std::vector<unsigned> phiw; };
struct State;
struct Engine;
typedef bool (*Builtin)(State&, const KInst&); // false: path ended or must retry
struct KFunc {
  Function* F; Str name; std::vector<KBlock> b; unsigned nregs = 0; bool compiled = false; Builtin bi = nullptr;
  u64 addr = 0; u64 calls = 0; std::vector<uint8_t> cov; bool repo = false; Str file; unsigned nargs = 0;
};
static std::vector<Val> consts;
static std::map<Function*, KFunc*> kf;
static std::vector<KFunc*> fnByIdx;
static Module* M; static const DataLayout* DL;
static std::map<const GlobalVariable*, u64> gaddr;
static std::vector<Obj> globObjs;
static Region* initGlob;
static u64 globNext = RBASE[R_GLOB];
static std::map<Str, Builtin> builtins;

struct Frame { KFunc* f; int blk; u32 pc; u32 base; u32 stackObjs; u64 sp; int retReg; unsigned retW; };
typedef std::shared_ptr<std::vector<u128>> ModelP;
struct Input { u32 var; Str name; unsigned bytes; };
struct DigitRec { E v; bool sgn, neg; std::vector<E> ds; };
struct State {
  std::vector<DigitRec> digits;
  std::vector<Frame> fr; std::vector<Val> regs;
  Region reg[R_N];
  std::vector<Obj> heap, stack, mm;
  std::vector<E> pc; ModelP model; std::vector<Input> inputs;
  u64 heapNext = RBASE[R_HEAP], sp = RBASE[R_STACK], mmNext = RBASE[R_MMAP];
  u64 insts = 0, depth = 0; int slabDepth = 0; u64 nHeapLive = 0;
  std::map<Str, u32> nameCnt; bool done = false; 
  std::vector<Str> tags;
};
static std::vector<State*> work;

struct Viol { Str kind, msg, where; std::vector<Str> stack; std::vector<std::pair<Str, Str>> inputs; Str key; };
static struct {
  u64 paths = 0, killed = 0, forks = 0, insts = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0, presolved = 0, modelhit = 0, asserts = 0, assertsConst = 0, assertQ = 0, assumes = 0;
  double solver = 0, maxq = 0; bool incomplete = false; Str why; u64 maxPc = 0, pathInstMax = 0;
  std::map<Str, u64> reach, unmodelled, assertMsgs; std::vector<Str> samples; std::map<Str, u64> violCount;
} S;
static std::vector<Viol> viols; static std::set<Str> violKeys;
static bool stopAll = false;

static void incomplete(const Str& why) { if (!S.incomplete) { S.incomplete = true; S.why = why; } }

// ---------------------------------------------------------------- solver
struct Solver {
  z3::context c; std::vector<Z3_ast> bvc, boc; // caches by id (inc_ref'd)
  std::unique_ptr<z3::solver> inc; std::unordered_map<u32, Z3_ast> lits; unsigned nInc = 0;
  struct Res { int r; std::vector<std::pair<u32, u128>> m; };
  std::unordered_map<Str, Res> cache;
  z3::expr bconst(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr keep(std::vector<Z3_ast>& cc, u32 id, const z3::expr& e) {
    if (cc.size() <= id) cc.resize(X.all.size() + 256, nullptr);
    Z3_inc_ref(c, e); cc[id] = e; return e;
  }
  z3::expr bo(E e) {
    if (e->id < boc.size() && boc[e->id]) return z3::expr(c, boc[e->id]);
    z3::expr r(c);
    switch (e->k) {
      case K_Const: r = c.bool_val(e->c != 0); break;
      case K_Not: r = !bo(e->a); break;
      case K_And: r = bo(e->a) && bo(e->b); break;
      case K_Or: r = bo(e->a) || bo(e->b); break;
      case K_Xor: r = bo(e->a) != bo(e->b); break;
      case K_Ite: r = z3::ite(bo(e->a), bo(e->b), bo(e->d)); break;
      case K_Eq: if (e->a->w == 1) r = bo(e->a) == bo(e->b); else r = bv(e->a) == bv(e->b); break;
      case K_Ult: r = z3::ult(bv(e->a), bv(e->b)); break;
      case K_Ule: r = z3::ule(bv(e->a), bv(e->b)); break;
      case K_Slt: r = bv(e->a) < bv(e->b); break;
      case K_Sle: r = bv(e->a) <= bv(e->b); break;
      default: r = bv(e) == c.bv_val(1, 1); break;
    }
    return keep(boc, e->id, r);
  }
  z3::expr bv(E e) {
    if (e->id < bvc.size() && bvc[e->id]) return z3::expr(c, bvc[e->id]);
    z3::expr r(c);
    if (e->w == 1 && (e->k == K_Not || e->k == K_And || e->k == K_Or || e->k == K_Xor || e->k >= K_Eq || e->k == K_Ite))
      return keep(bvc, e->id, z3::ite(bo(e), c.bv_val(1, 1), c.bv_val(0, 1)));
    switch (e->k) {
      case K_Const: r = bconst(e->c, e->w); break;
      case K_Var: r = c.bv_const(("v" + std::to_string(e->aux)).c_str(), e->w); break;
      case K_Concat: r = z3::concat(bv(e->a), bv(e->b)); break;
      case K_Extract: r = bv(e->a).extract(e->aux + e->w - 1, e->aux); break;
      case K_ZExt: r = z3::zext(bv(e->a), e->w - e->a->w); break;
      case K_SExt: r = z3::sext(bv(e->a), e->w - e->a->w); break;
      case K_Ite: r = z3::ite(bo(e->a), bv(e->b), bv(e->d)); break;
      case K_Not: r = ~bv(e->a); break;
      case K_Add: r = bv(e->a) + bv(e->b); break;
      case K_Sub: r = bv(e->a) - bv(e->b); break;
      case K_Mul: r = bv(e->a) * bv(e->b); break;
      case K_UDiv: r = z3::udiv(bv(e->a), bv(e->b)); break;
      case K_SDiv: r = bv(e->a) / bv(e->b); break;
      case K_URem: r = z3::urem(bv(e->a), bv(e->b)); break;
      case K_SRem: r = z3::srem(bv(e->a), bv(e->b)); break;
      case K_And: r = bv(e->a) & bv(e->b); break;
      case K_Or: r = bv(e->a) | bv(e->b); break;
      case K_Xor: r = bv(e->a) ^ bv(e->b); break;
      case K_Shl: r = z3::shl(bv(e->a), bv(e->b)); break;
      case K_LShr: r = z3::lshr(bv(e->a), bv(e->b)); break;
      case K_AShr: r = z3::ashr(bv(e->a), bv(e->b)); break;
      default: abort();
    }
    return keep(bvc, e->id, r);
  }
  static bool heavy(E e, std::set<u32>& seen) {
    if (!seen.insert(e->id).second) return false;
    if ((e->k == K_Mul || e->k == K_UDiv || e->k == K_SDiv || e->k == K_URem || e->k == K_SRem)) return true;
    return (e->a && heavy(e->a, seen)) || (e->b && heavy(e->b, seen)) || (e->d && heavy(e->d, seen));
  }
  Res solve(const std::vector<E>& cs, const std::set<u32>& vars) {
    double t0 = now();
    Res R{0, {}};
    S.queries++;
    std::set<u32> seen; bool hv = false;
    for (E e : cs) if (heavy(e, seen)) { hv = true; break; }
    auto extract = [&](z3::model m) {
      for (u32 v : vars) {
        z3::expr x = m.eval(bv(X.vars[v].e), true);
        u128 val = 0; unsigned w = X.vars[v].w;
        if (w <= 64) val = x.get_numeral_uint64();
        else { z3::expr hi = m.eval(bv(X.Extract(X.vars[v].e, 64, w - 64)), true), lo = m.eval(bv(X.Extract(X.vars[v].e, 0, 64)), true);
          val = ((u128)hi.get_numeral_uint64() << 64) | lo.get_numeral_uint64(); }
        R.m.push_back({v, val});
      }
    };
    try {
      z3::check_result r;
      if (!hv) {
        if (!inc || nInc > 4000) { inc.reset(new z3::solver(c)); lits.clear(); nInc = 0; z3::params p(c); p.set("timeout", O.qTimeout); inc->set(p); }
        nInc++;
        z3::expr_vector as(c);
        for (E e : cs) {
          auto it = lits.find(e->id);
          if (it == lits.end()) {
            z3::expr l = c.bool_const(("l" + std::to_string(e->id)).c_str());
            inc->add(z3::implies(l, bo(e)));
            Z3_inc_ref(c, l); it = lits.emplace(e->id, (Z3_ast)l).first;
          }
          as.push_back(z3::expr(c, it->second));
        }
        r = inc->check(as);
        if (r == z3::sat) extract(inc->get_model());
      } else r = z3::unknown;
      if (r == z3::unknown) {
        z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
        z3::solver s = t.mk_solver(); z3::params p(c); p.set("timeout", O.qTimeout); s.set(p);
        for (E e : cs) s.add(bo(e));
        r = s.check();
        if (r == z3::sat) extract(s.get_model());
      }
      R.r = r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
    } catch (z3::exception& ex) { R.r = 2; fprintf(stderr, "z3: %s\n", ex.msg()); }
    double dt = now() - t0; S.solver += dt; if (dt > S.maxq) S.maxq = dt;
    if (R.r == 1) S.sat++; else if (R.r == 0) S.unsat++; else { S.unknown++; incomplete("solver returned unknown"); }
    return R;
  }
};
static Solver* Z;

static ModelP lastModel; // held, so that its address is not reused while memoised values refer to it
static u128 evalM(const ModelP& m, E e) {
  if (m != lastModel) { X.gen++; lastModel = m; }
  auto g = [&](u32 v) -> u128 { return v < m->size() ? (*m)[v] : 0; };
  return X.evalRec(e, g);
}
static std::vector<E> tables;
static const u64* truth(E e, u32 var) { // 256-bit truth table for single-8bit-var boolean expr
  if (e->tt) return e->tt;
  u64* t = (u64*)calloc(4, 8);
  lastModel = nullptr;
  for (unsigned i = 0; i < 256; i++) {
    X.gen++;
    auto g = [&](u32) -> u128 { return i; };
    if (X.evalRec(e, g)) t[i >> 6] |= 1ULL << (i & 63);
  }
  (void)var; e->tt = t; tables.push_back(e); return t;
}

// Every simplification of a symbolic term, and every truth table used to decide a branch on one byte, is confirmed by the solver
struct Cert { u64 rewrites = 0, tables = 0, queries = 0, left = 0; double s = 0; Str bad; } CT;
static void certify(double budget) {
  double t0 = now();
  auto node = [&](const ExprCtx::Rw& w) -> z3::expr { // the requested operator, as a bit-vector
    Solver& z = *Z; z3::expr a = z.bv(w.a); z3::expr one = z.c.bv_val(1, 1), zero = z.c.bv_val(0, 1);
    switch (w.k) {
      case K_Not: return ~a;
      case K_Extract: return a.extract(w.aux + w.w - 1, w.aux);
      case K_ZExt: return z3::zext(a, w.w - w.a->w);
      case K_SExt: return z3::sext(a, w.w - w.a->w);
      default: break;
    }
    z3::expr b = z.bv(w.b);
    switch (w.k) {
      case K_Concat: return z3::concat(a, b);
      case K_Ite: return z3::ite(a == one, b, z.bv(w.d));
      case K_Add: return a + b; case K_Sub: return a - b; case K_Mul: return a * b;
      case K_UDiv: return z3::udiv(a, b); case K_SDiv: return a / b; case K_URem: return z3::urem(a, b); case K_SRem: return z3::srem(a, b);
      case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
      case K_Shl: return z3::shl(a, b); case K_LShr: return z3::lshr(a, b); case K_AShr: return z3::ashr(a, b);
      case K_Eq: return z3::ite(a == b, one, zero); case K_Ult: return z3::ite(z3::ult(a, b), one, zero); case K_Ule: return z3::ite(z3::ule(a, b), one, zero);
      case K_Slt: return z3::ite(a < b, one, zero); case K_Sle: return z3::ite(a <= b, one, zero);
      default: abort();
    }
  };
  auto run = [&](z3::expr_vector& v, u64& n) {
    if (v.empty()) return;
    z3::tactic t = z3::tactic(Z->c, "simplify") & z3::tactic(Z->c, "bit-blast") & z3::tactic(Z->c, "sat");
    z3::solver s = t.mk_solver(); z3::params p(Z->c); p.set("timeout", 5000u); s.set(p);
    s.add(z3::mk_or(v));
    z3::check_result r = s.check(); CT.queries++;
    if (r == z3::unsat) n += v.size(); else if (r == z3::sat) CT.bad = "a simplification is not an identity"; else CT.left += v.size();
    v = z3::expr_vector(Z->c);
  };
  try {
    z3::expr_vector v(Z->c);
    size_t i = 0;
    for (; i < X.log.size() && CT.bad.empty() && now() - t0 < budget; i++) {
      const auto& w = X.log[i];
      if (w.k == K_Eq && w.r->k == K_Const && w.a == w.b) v.push_back(!(Z->bv(w.a) == Z->bv(w.b)));
      else v.push_back(node(w) != Z->bv(w.r));
      if (v.size() >= 128) run(v, CT.rewrites);
    }
    run(v, CT.rewrites);
    CT.left += X.log.size() - i + X.logDropped;
    size_t j = 0;
    for (; j < tables.size() && CT.bad.empty() && now() - t0 < budget; j++) {
      E e = tables[j]; const u64* t = e->tt; z3::expr x = Z->bv(X.vars[e->vars->v[0]].e);
      auto in = [&](int q) { return q < 256 && ((t[q >> 6] >> (q & 63)) & 1); };
      z3::expr m = Z->c.bool_val(false);
      for (int lo = 0; lo < 256; lo++) if (in(lo)) { int hi = lo; while (in(hi + 1)) hi++; m = m || (z3::uge(x, Z->c.bv_val(lo, 8)) && z3::ule(x, Z->c.bv_val(hi, 8))); lo = hi; }
      v.push_back(Z->bo(e) != m);
      if (v.size() >= 64) run(v, CT.tables);
    }
    run(v, CT.tables);
    CT.left += tables.size() - j;
  } catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); CT.left++; }
  CT.s = now() - t0;
}
// returns 0 unsat 1 sat 2 unknown; newModel set when sat
static int check(State& s, E q, ModelP* newModel, bool forceZ3 = false) {
  if (q->k == K_Const) { if (newModel) *newModel = s.model; return q->c ? 1 : 0; }
  // slice
  std::vector<E> rel; std::set<u32> vs(q->vars->v.begin(), q->vars->v.end());
  std::vector<uint8_t> used(s.pc.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      bool hit = false;
      for (u32 v : s.pc[i]->vars->v) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; rel.push_back(s.pc[i]); for (u32 v : s.pc[i]->vars->v) if (vs.insert(v).second) ch = true; }
    }
  }
  auto mk = [&](const std::vector<std::pair<u32, u128>>& m) {
    auto n = std::make_shared<std::vector<u128>>(*s.model);
    for (auto& p : m) { if (n->size() <= p.first) n->resize(X.vars.size(), 0); (*n)[p.first] = p.second; }
    return n;
  };
  if (q->vars->v.size() == 1 && X.vars[q->vars->v[0]].w == 8 && !forceZ3) {
    u32 v = q->vars->v[0]; u64 t[4]; memcpy(t, truth(q, v), 32); bool pure = true;
    for (E e : rel) { if (e->vars->v.size() == 1 && e->vars->v[0] == v) { const u64* x = truth(e, v); for (int i = 0; i < 4; i++) t[i] &= x[i]; } else pure = false; }
    bool empty = !(t[0] | t[1] | t[2] | t[3]);
    if (empty) { S.presolved++; return 0; }
    if (pure) { S.presolved++; if (newModel) { unsigned i = 0; while (!((t[i >> 6] >> (i & 63)) & 1)) i++; *newModel = mk({{v, i}}); } return 1; }
  }
  rel.push_back(q);
  std::sort(rel.begin(), rel.end(), [](E a, E b) { return a->id < b->id; });
  rel.erase(std::unique(rel.begin(), rel.end()), rel.end());
  Str key; key.reserve(rel.size() * 4);
  for (E e : rel) key.append((const char*)&e->id, 4);
  auto it = Z->cache.find(key);
  if (it == Z->cache.end()) {
    it = Z->cache.emplace(key, Z->solve(rel, vs)).first;
  } else S.cache++;
  if (it->second.r == 1 && newModel) *newModel = mk(it->second.m);
  return it->second.r;
}
static void addPc(State& s, E c) {
  if (c->k == K_Const) return;
  if (c->k == K_And && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
  for (E e : s.pc) if (e == c) return;
  s.pc.push_back(c);
  if (s.pc.size() > S.maxPc) S.maxPc = s.pc.size();
}
static bool decide(State& s, E c) {
  if (c->k == K_Const) return c->c != 0;
  E n = X.Not(c);
  for (E e : s.pc) { if (e == c) return true; if (e == n) return false; }
  bool mv = evalM(s.model, c) != 0;
  E other = mv ? n : c, mine = mv ? c : n;
  ModelP nm; int r = check(s, other, &nm);
  if (r == 1) {
    State* t = new State(s); S.forks++;
    addPc(*t, other); t->model = nm; t->depth++;
    work.push_back(t);
    addPc(s, mine); s.depth++;
  }
  return mv;
}
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.v;
  u64 x = (u64)evalM(s.model, v.e);
  while (true) {
    E eq = X.Eq(v.e, X.C(x, w));
    if (eq->k == K_Const && !eq->c) abort();
    decide(s, eq); // model satisfies eq, so 'mine' is eq; the sibling gets e != x
    return x;
  }
}

// ---------------------------------------------------------------- violations
static Str loc(const Instruction* I) {
  if (!I) return "?";
  const DebugLoc& d = I->getDebugLoc();
  if (!d) return "?";
  return (d->getFilename() + ":" + Twine(d->getLine())).str();
}
static const KInst& cur(const State& s) { const Frame& f = s.fr.back(); return f.f->b[f.blk].in[f.pc]; }
static Str hexv(u128 v, unsigned w) {
  Str r; unsigned n = (w + 3) / 4; if (!n) n = 1;
  for (int i = n - 1; i >= 0; i--) r += "0123456789abcdef"[(unsigned)(v >> (4 * i)) & 15];
  return r;
}
static std::vector<std::pair<Str, Str>> inputsOf(State& s, ModelP m) {
  std::vector<std::pair<Str, Str>> r;
  for (auto& i : s.inputs) r.push_back({i.name, hexv(evalM(m, X.vars[i.var].e), X.vars[i.var].w)});
  return r;
}
static void violate(State& s, const Str& kind, const Str& msg, ModelP m = nullptr) {
  if (!m) m = s.model;
  Viol v; v.kind = kind; v.msg = msg;
  Str top;
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
    const Frame& f = s.fr[i]; const KInst& k = f.f->b[f.blk].in[f.pc];
    v.stack.push_back(f.f->name + " " + loc(k.I));
    if (v.stack.size() > 24) break;
  }
  // locate the innermost repo function
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) if (s.fr[i].f->repo) { top = s.fr[i].f->name; break; }
  v.where = top;
  v.key = kind + "|" + msg + (kind == "assert" ? "" : "|" + top);
  S.violCount[v.key]++;
  if (!violKeys.insert(v.key).second) return;
  v.inputs = inputsOf(s, m);
  viols.push_back(v);
  if (O.verbose) { fprintf(stderr, "VIOL %s\n", v.key.c_str()); for (auto& x : v.stack) fprintf(stderr, "   at %s\n", x.c_str()); for (auto& x : v.inputs) fprintf(stderr, "   %s=%s\n", x.first.c_str(), x.second.c_str()); }
  if (O.firstOnly || viols.size() >= O.maxViol) { stopAll = true; }
}

// ---------------------------------------------------------------- memory access
static int regionOf(u64 a) { for (int i = 0; i < R_N; i++) if (a >= RBASE[i] && a < RBASE[i] + RSIZE[i]) return i; return -1; }
static Obj* findObj(State& s, u64 a) {
  int r = regionOf(a); if (r < 0) return nullptr;
  std::vector<Obj>& v = r == R_GLOB ? globObjs : r == R_HEAP ? s.heap : r == R_STACK ? s.stack : s.mm;
  auto it = std::upper_bound(v.begin(), v.end(), a, [](u64 x, const Obj& o) { return x < o.base; });
  if (it == v.begin()) return nullptr;
  --it;
  return &*it;
}
// returns null and reports when the access is invalid
static bool accessOk(State& s, u64 a, u64 n, bool wr) {
  if (n == 0) return true;
  Obj* o = findObj(s, a);
  if (!o || a + n > o->base + o->size || a + n < a) {
    char b[160];
    if (a < 4096) snprintf(b, sizeof b, "null pointer %s", wr ? "write" : "read");
    else if (!o) snprintf(b, sizeof b, "wild pointer %s", wr ? "write" : "read");
    else snprintf(b, sizeof b, "out-of-bounds %s", wr ? "write" : "read");
    violate(s, "memory", b); return false;
  }
  if (!o->live) { violate(s, "memory", wr ? "use-after-free write" : "use-after-free read"); return false; }
  if (a + n > o->base + o->acc) { violate(s, "memory", "access to protected memory"); return false; }
  if (o->kind == 2 && wr) { violate(s, "memory", "write to constant memory"); return false; }
  if (o->watched && s.slabDepth == 0) {
    int r = regionOf(a);
    for (u64 i = 0; i < n; i++) {
      u64 x = a + i - RBASE[r]; Page* p = s.reg[r].get(x >> PSH); unsigned k = x & (PSZ - 1);
      if (!p || !((p->live[k >> 6] >> (k & 63)) & 1)) { violate(s, "memory", wr ? "write to a released cell" : "read of a released cell"); return false; }
    }
  }
  return true;
}
static E byteAt(State& s, u64 a, uint8_t& c) {
  int r = regionOf(a); u64 x = a - RBASE[r]; Page* p = s.reg[r].get(x >> PSH); unsigned k = x & (PSZ - 1);
  if (!p) { c = 0; return nullptr; }
  c = p->d[k]; return p->sym ? p->sym[k] : nullptr;
}
static Val loadRaw(State& s, u64 a, unsigned n) {
  int r = regionOf(a); u64 x = a - RBASE[r]; unsigned k = x & (PSZ - 1);
  if (k + n <= PSZ) {
    Page* p = s.reg[r].get(x >> PSH);
    bool sym = false;
    if (p && p->sym) for (unsigned i = 0; i < n; i++) if (p->sym[k + i]) { sym = true; break; }
    if (!sym && n <= 8) { u64 v = 0; if (p) memcpy(&v, p->d + k, n); return VC(v); }
    if (!sym && n <= 16) { u128 v = 0; if (p) memcpy(&v, p->d + k, n); return {0, X.C(v, n * 8)}; }
  }
  E e = nullptr;
  for (int i = (int)n - 1; i >= 0; i--) {
    uint8_t c; E b = byteAt(s, a + i, c); if (!b) b = X.C(c, 8);
    e = e ? X.Concat(e, b) : b;
  }
  if (n > 8 && e->k == K_Const) return {0, e};
  return fromE(e);
}
static void storeByte(State& s, u64 a, uint8_t c, E e) {
  int r = regionOf(a); u64 x = a - RBASE[r]; Page* p = s.reg[r].getW(x >> PSH); unsigned k = x & (PSZ - 1);
  if (e && e->k == K_Const) { c = (uint8_t)e->c; e = nullptr; }
  if (e) { if (!p->sym) p->sym = (E*)calloc(PSZ, sizeof(E)); p->sym[k] = e; }
  else { p->d[k] = c; if (p->sym) p->sym[k] = nullptr; }
}
static void storeRaw(State& s, u64 a, const Val& v, unsigned n) {
  if (!v.e) {
    int r = regionOf(a); u64 x = a - RBASE[r]; unsigned k = x & (PSZ - 1);
    if (k + n <= PSZ && n <= 8) { Page* p = s.reg[r].getW(x >> PSH); memcpy(p->d + k, &v.v, n); if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[k + i] = nullptr; return; }
    for (unsigned i = 0; i < n; i++) storeByte(s, a + i, i < 8 ? (uint8_t)(v.v >> (8 * i)) : 0, nullptr);
    return;
  }
  for (unsigned i = 0; i < n; i++) storeByte(s, a + i, 0, X.Extract(v.e, 8 * i, 8));
}
static void copyBytes(State& s, u64 d, u64 c, u64 n) {
  std::vector<std::pair<uint8_t, E>> t(n);
  for (u64 i = 0; i < n; i++) { uint8_t b; E e = byteAt(s, c + i, b); t[i] = {b, e}; }
  for (u64 i = 0; i < n; i++) storeByte(s, d + i, t[i].first, t[i].second);
}
static void fillMem(State& s, u64 d, uint8_t c, u64 n) {
  u64 i = 0;
  while (i < n) {
    int r = regionOf(d + i); u64 x = d + i - RBASE[r]; unsigned k = x & (PSZ - 1); u64 m = std::min<u64>(PSZ - k, n - i);
    if (c == 0 && !s.reg[r].get(x >> PSH)) { i += m; continue; }
    Page* p = s.reg[r].getW(x >> PSH); memset(p->d + k, c, m); if (p->sym) memset(p->sym + k, 0, m * sizeof(E)); i += m;
  }
}
// Resolve a symbolic address. Returns false when the path ended.
static bool resolveAddr(State& s, const Val& p, u64 n, bool wr, u64& out) { (void)n; (void)wr; out = concretize(s, p, 64); return true; }

static u64 heapAlloc(State& s, u64 n, uint8_t fill, bool zero) {
  u64 a = s.heapNext; s.heapNext = (a + n + 32 + 15) & ~15ULL;
  s.heap.push_back({a, n, n, 1, 0, 0});
  (void)zero; fillMem(s, a, fill, n);
  s.nHeapLive++;
  return a;
}
static u64 stackAlloc(State& s, u64 n, u64 al) {
  if (al < 16) al = 16;
  u64 a = (s.sp + al - 1) & ~(al - 1); s.sp = a + n + 16;
  s.stack.push_back({a, n, n, 1, 3, 0});
  fillMem(s, a, 0xA5, n);
  return a;
}

// ---------------------------------------------------------------- compile IR
static unsigned tw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isVectorTy()) return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
  if (t->isVoidTy()) return 0;
  if (t->isStructTy() || t->isArrayTy()) return (unsigned)DL->getTypeAllocSizeInBits(t).getFixedValue();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static KFunc* getK(Function* F);
static u128 evalConst(const Constant* c);
static u64 constAddr(const Constant* c) {
  if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); } return it->second; }
  if (auto* f = dyn_cast<Function>(c)) return getK(const_cast<Function*>(f))->addr;
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
  return (u64)evalConst(c);
}
static u128 evalConst(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { APInt a = i->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (isa<GlobalValue>(c)) return constAddr(c);
  if (auto* dv = dyn_cast<ConstantDataVector>(c)) {
    u128 r = 0; unsigned ew = dv->getElementByteSize() * 8;
    for (unsigned i = 0; i < dv->getNumElements(); i++) r |= (u128)dv->getElementAsInteger(i) << (i * ew);
    return r;
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    u128 r = 0; unsigned ew = tw(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); i++) r |= evalConst(cast<Constant>(cv->getOperand(i))) << (i * ew);
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; exit(3); }
        return (u64)evalConst(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return evalConst(ce->getOperand(0));
      case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(tw(ce->getType()));
      case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & maskw(tw(ce->getType()));
      case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & maskw(tw(ce->getType()));
      default: break;
    }
  }
  errs() << "unsupported constant " << *c << "\n"; return 0;
}
static std::map<std::pair<u64, std::pair<u64, unsigned>>, int> constIdx;
static int mkConst(u128 v, unsigned w) {
  auto key = std::make_pair((u64)v, std::make_pair((u64)(v >> 64), w));
  auto it = constIdx.find(key); if (it != constIdx.end()) return it->second;
  consts.push_back(w <= 64 ? VC((u64)(v & maskw(w))) : Val{0, X.C(v, w)});
  return constIdx[key] = ~(int)(consts.size() - 1);
}
static KFunc* getK(Function* F) {
  auto it = kf.find(F); if (it != kf.end()) return it->second;
  KFunc* k = new KFunc; k->F = F; k->name = F->getName().str(); k->addr = FBASE + fnByIdx.size() * 16; fnByIdx.push_back(k); kf[F] = k;
  k->nargs = F->arg_size();
  auto b = builtins.find(k->name); if (b != builtins.end() && (F->isDeclaration() || F->getLinkage() == GlobalValue::AvailableExternallyLinkage)) k->bi = b->second;
  if (auto* sp = F->getSubprogram()) { k->file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) k->file = sp->getFilename().str(); }
  k->repo = k->file.find("/verif/") == Str::npos && k->file.find("harness/") == Str::npos && !F->isDeclaration();
  return k;
}
static void compile(KFunc* k) {
  k->compiled = true; Function* F = k->F;
  std::map<const Value*, int> r; std::map<const BasicBlock*, int> bi; int n = 0;
  for (auto& a : F->args()) r[&a] = n++;
  for (auto& B : *F) { bi[&B] = (int)bi.size(); for (auto& I : B) if (!I.getType()->isVoidTy()) r[&I] = n++; }
  k->nregs = n;
  k->b.resize(bi.size());
  auto opnd = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { if (isa<GlobalValue>(c)) return mkConst(constAddr(c), 64); return mkConst(evalConst(c), std::max(1u, tw(c->getType()))); }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return mkConst(0, 64);
    return r.at(v);
  };
  for (auto& B : *F) {
    KBlock& kb = k->b[bi[&B]];
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
          kb.phi[bi[P->getIncomingBlock(i)]].push_back({r[&I], opnd(P->getIncomingValue(i))});
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::donothing || id == Intrinsic::assume) continue; }
      kb.in.emplace_back(); KInst& q = kb.in.back();
      q.op = I.getOpcode(); q.I = &I; q.dst = I.getType()->isVoidTy() ? -1 : r[&I]; q.w = tw(I.getType());
      q.ow = I.getNumOperands() ? tw(I.getOperand(0)->getType()) : 0;
      switch (I.getOpcode()) {
        case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) { q.ops.push_back(opnd(b->getCondition())); q.t0 = bi[b->getSuccessor(0)]; q.t1 = bi[b->getSuccessor(1)]; } else q.t0 = bi[b->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto* w = cast<SwitchInst>(&I); q.ops.push_back(opnd(w->getCondition())); q.ow = tw(w->getCondition()->getType()); q.t0 = bi[w->getDefaultDest()]; for (auto& c : w->cases()) q.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); break; }
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); q.sz = DL->getTypeAllocSize(a->getAllocatedType()); q.al = a->getAlign().value(); q.ops.push_back(opnd(a->getArraySize())); break; }
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I); q.ops.push_back(opnd(g->getPointerOperand()));
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* o = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) q.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(o)->getZExtValue());
            else { s64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* c = dyn_cast<ConstantInt>(o)) q.off += c->getSExtValue() * sc; else { q.gep.push_back({opnd(o), sc}); q.aw.push_back(tw(o->getType())); } }
          }
          break;
        }
        case Instruction::Call: {
          auto* c = cast<CallInst>(&I);
          for (auto& a : c->args()) { q.ops.push_back(opnd(a)); q.aw.push_back(tw(a->getType())); }
          Value* cv = c->getCalledOperand()->stripPointerCasts();
          if (auto* f = dyn_cast<Function>(cv)) { q.callee = getK(f); q.intr = f->getIntrinsicID(); }
          else q.ops.push_back(opnd(c->getCalledOperand()));
          break;
        }
        case Instruction::ICmp: q.pred = cast<ICmpInst>(&I)->getPredicate(); for (auto& o : I.operands()) q.ops.push_back(opnd(o)); break;
        case Instruction::Store: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); q.ow = tw(I.getOperand(0)->getType()); q.sz = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
        case Instruction::Load: q.ops.push_back(opnd(I.getOperand(0))); q.sz = DL->getTypeStoreSize(I.getType()); break;
        case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(&I); q.ops.push_back(opnd(I.getOperand(0)));
          s64 off = 0; Type* t = I.getOperand(0)->getType(); for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { off += DL->getStructLayout(st)->getElementOffset(ix); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * DL->getTypeAllocSize(t); } } q.off = off; break; }
        case Instruction::InsertValue: { auto* ev = cast<InsertValueInst>(&I); q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); q.aw.push_back(tw(I.getOperand(1)->getType()));
          s64 off = 0; Type* t = I.getOperand(0)->getType(); for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { off += DL->getStructLayout(st)->getElementOffset(ix); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * DL->getTypeAllocSize(t); } } q.off = off; break; }
        case Instruction::ExtractElement: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); break;
        case Instruction::InsertElement: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); q.ops.push_back(opnd(I.getOperand(2))); q.aw.push_back(tw(I.getOperand(1)->getType())); break;
        case Instruction::ShuffleVector: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); break;
        default: for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) q.ops.push_back(opnd(o)); break;
      }
    }
  }
  k->cov.assign(k->b.size(), 0);
}
static void initMem(Region& g, u64 addr, const Constant* c) {
  auto putBytes = [&](u64 a, u128 v, unsigned n) { for (unsigned i = 0; i < n; i++) { u64 x = a + i - RBASE[R_GLOB]; g.getW(x >> PSH)->d[x & (PSZ - 1)] = (uint8_t)(v >> (8 * i)); } };
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { unsigned es = ds->getElementByteSize(); for (unsigned i = 0; i < ds->getNumElements(); i++) putBytes(addr + i * es, ds->getElementAsInteger(i), es); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(g, addr + i * es, a->getOperand(i)); return; }
  if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initMem(g, addr + sl->getElementOffset(i), st->getOperand(i)); return; }
  putBytes(addr, evalConst(c), DL->getTypeStoreSize(c->getType()));
}

static Str jesc(const Str& s);
// ---------------------------------------------------------------- exec helpers
static inline Val& REG(State& s, int i) { return i >= 0 ? s.regs[s.fr.back().base + i] : consts[~i]; }
static inline void SET(State& s, int d, const Val& v) { if (d >= 0) s.regs[s.fr.back().base + d] = v; }
static void endPath(State& s, bool complete) {
  s.done = true;
  if (s.insts > S.pathInstMax) S.pathInstMax = s.insts;
  if (complete) {
    S.paths++;
    if (S.samples.size() < 12 || (S.paths & (S.paths - 1)) == 0) if (S.samples.size() < 40) {
      Str r = "{\"tags\":["; bool g = true; auto in = inputsOf(s, s.model);
      for (auto& t : s.tags) { if (!g) r += ","; g = false; r += "\"" + jesc(t) + "\""; }
      r += "],\"inputs\":["; g = true;
      for (auto& x : in) { if (!g) r += ","; g = false; r += "[\"" + jesc(x.first) + "\",\"" + x.second + "\"]"; }
      r += "]}";
      S.samples.push_back(r);
    }
  } else S.killed++;
}
static bool enter(State& s, KFunc* f, const std::vector<Val>& args, int retReg, unsigned retW) {
  if (!f->compiled) compile(f);
  f->calls++; f->cov[0] = 1;
  if (s.fr.size() > 6000) { violate(s, "stack", "call depth exceeds 6000 frames"); endPath(s, false); return false; }
  Frame n; n.f = f; n.blk = 0; n.pc = 0; n.base = s.regs.size(); n.stackObjs = s.stack.size(); n.sp = s.sp; n.retReg = retReg; n.retW = retW;
  s.regs.resize(n.base + f->nregs, VC(0));
  for (size_t i = 0; i < f->nargs; i++) s.regs[n.base + i] = i < args.size() ? args[i] : VC(0xA5A5A5A5A5A5A5A5ULL);
  s.fr.push_back(n);
  return true;
}
static void jump(State& s, int to) {
  Frame& f = s.fr.back(); KBlock& b = f.f->b[to]; f.f->cov[to] = 1;
  auto it = b.phi.find(f.blk);
  if (it != b.phi.end()) {
    if (it->second.size() == 1) { Val v = REG(s, it->second[0].second); s.regs[f.base + it->second[0].first] = v; }
    else { Val tmp[64]; size_t n = it->second.size(); std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = REG(s, it->second[i].second);
      for (size_t i = 0; i < n; i++) s.regs[f.base + it->second[i].first] = t[i]; }
  }
  f.blk = to; f.pc = 0;
}
static Str cstr(State& s, u64 a) { // concrete C string (symbolic bytes shown as '?')
  Str r; if (!a) return "(null)";
  for (int i = 0; i < 4096; i++) { Obj* o = findObj(s, a + i); if (!o || a + i >= o->base + o->size) break; uint8_t c; E e = byteAt(s, a + i, c); if (e) { r += '?'; continue; } if (!c) break; r += (char)c; }
  return r;
}
static u64 A(State& s, const KInst& q, unsigned i) { return concretize(s, REG(s, q.ops[i]), q.aw[i]); }
static E newVar(State& s, const Str& name, unsigned w, bool input) {
  u32& n = s.nameCnt[name]; n++;
  static std::map<Str, u32> byKey; Str key = name + "#" + std::to_string(n) + ":" + std::to_string(w);
  auto it = byKey.find(key); u32 id;
  if (it == byKey.end()) { E e = X.var(n > 1 ? name + "#" + std::to_string(n) : name, w); id = e->aux; byKey[key] = id; } else id = it->second;
  if (input) s.inputs.push_back({id, X.vars[id].name, w / 8});
  return X.vars[id].e;
}
static std::vector<std::pair<Str, Str>> replayVals; 
static bool popReplay(State& s, unsigned w, u128& v) {
  if (O.replay.empty()) return false;
  size_t i = s.inputs.size(); v = 0;
  if (i < replayVals.size()) { for (char c : replayVals[i].second) v = (v << 4) | (u128)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); v &= maskw(w); }
  return true;
}
static E newInput(State& s, const Str& name, unsigned w) {
  u128 rv; bool rp = popReplay(s, w, rv);
  E e = newVar(s, name, w, true);
  if (rp) { addPc(s, X.Eq(e, X.C(rv, w))); auto m = std::make_shared<std::vector<u128>>(*s.model); if (m->size() <= e->aux) m->resize(X.vars.size(), 0); (*m)[e->aux] = rv; s.model = m; return X.C(rv, w); }
  return e;
}
// ---------------------------------------------------------------- builtins
#define BI(name) static bool name(State& s, const KInst& q)
BI(b_malloc) { u64 n = A(s, q, 0); SET(s, q.dst, VC(heapAlloc(s, n, 0xA5, false))); return true; }
BI(b_calloc) { u64 n = A(s, q, 0) * A(s, q, 1); SET(s, q.dst, VC(heapAlloc(s, n, 0, true))); return true; }
static bool doFree(State& s, u64 p) {
  if (!p) return true;
  Obj* o = regionOf(p) == R_HEAP ? findObj(s, p) : nullptr;
  if (!o || o->base != p) { violate(s, "memory", "free of a pointer that was not allocated"); endPath(s, false); return false; }
  if (!o->live) { violate(s, "memory", "double free"); endPath(s, false); return false; }
  o->live = 0; s.nHeapLive--; return true;
}
BI(b_free) { return doFree(s, A(s, q, 0)); }
BI(b_realloc) {
  u64 p = A(s, q, 0), n = A(s, q, 1);
  u64 a = heapAlloc(s, n, 0xA5, false);
  if (p) { Obj* o = findObj(s, p); if (!o || o->base != p || !o->live) { violate(s, "memory", "realloc of an invalid pointer"); endPath(s, false); return false; } copyBytes(s, a, p, std::min(n, o->size)); if (!doFree(s, p)) return false; }
  SET(s, q.dst, VC(a)); return true;
}
static bool memXfer(State& s, const KInst& q) {
  u64 n = A(s, q, 2), d = A(s, q, 0), c = A(s, q, 1);
  if (n && (!accessOk(s, c, n, false) || !accessOk(s, d, n, true))) { endPath(s, false); return false; }
  copyBytes(s, d, c, n); SET(s, q.dst, VC(d)); return true;
}
BI(b_memcpy) {
  u64 n = A(s, q, 2), d = A(s, q, 0), c = A(s, q, 1);
  if (n && d != c && ((d < c && d + n > c) || (c < d && c + n > d))) { violate(s, "memory", "memcpy with overlapping regions"); endPath(s, false); return false; }
  return memXfer(s, q);
}
BI(b_memset) {
  u64 n = A(s, q, 2), d = A(s, q, 0); Val v = REG(s, q.ops[1]);
  if (n && !accessOk(s, d, n, true)) { endPath(s, false); return false; }
  if (v.e) { E b = X.Extract(v.e, 0, 8); for (u64 i = 0; i < n; i++) storeByte(s, d + i, 0, b); }
  else fillMem(s, d, (uint8_t)v.v, n);
  SET(s, q.dst, VC(d)); return true;
}
BI(b_memcmp) {
  u64 n = A(s, q, 2), a = A(s, q, 0), b = A(s, q, 1);
  if (n && (!accessOk(s, a, n, false) || !accessOk(s, b, n, false))) { endPath(s, false); return false; }
  E r = X.C(0, 32);
  u64 i = n;
  while (i > 0) { // chunks of up to 16 bytes, big-endian comparison
    u64 k = i % 16 ? i % 16 : 16; i -= k;
    E x = nullptr, y = nullptr;
    for (u64 j = 0; j < k; j++) { uint8_t c; E e = byteAt(s, a + i + j, c); if (!e) e = X.C(c, 8); x = x ? X.Concat(x, e) : e; e = byteAt(s, b + i + j, c); if (!e) e = X.C(c, 8); y = y ? X.Concat(y, e) : e; }
    r = X.Ite(X.Eq(x, y), r, X.Ite(X.Ult(x, y), X.C((u64)-1, 32), X.C(1, 32)));
  }
  SET(s, q.dst, fromE(r)); return true;
}
BI(b_abort) { violate(s, "abort", "abort() called"); endPath(s, false); return false; }
BI(b_assertfail) { violate(s, "abort", "assertion failed: " + cstr(s, A(s, q, 0))); endPath(s, false); return false; }
BI(b_exit) { s.tags.push_back("exit"); endPath(s, true); return false; }
BI(b_mmap) {
  u64 n = A(s, q, 1), prot = A(s, q, 2); u64 a = s.mmNext; s.mmNext = (a + n + 0x20000 + 0x1FFFF) & ~0x1FFFFULL;
  s.mm.push_back({a, n, (prot & 3) == 3 ? n : 0, 1, 0, 0}); SET(s, q.dst, VC(a)); return true;
}
BI(b_mprotect) {
  u64 a = A(s, q, 0), n = A(s, q, 1), prot = A(s, q, 2); Obj* o = regionOf(a) == R_MMAP ? findObj(s, a) : nullptr;
  if (!o || !o->live || a + n > o->base + o->size) { SET(s, q.dst, VC(0xFFFFFFFF)); return true; }
  if ((prot & 3) == 3) { if (a <= o->base + o->acc) o->acc = std::max(o->acc, a + n - o->base); } else if (a < o->base + o->acc) o->acc = a - o->base;
  SET(s, q.dst, VC(0)); return true;
}
BI(b_munmap) {
  u64 a = A(s, q, 0); Obj* o = regionOf(a) == R_MMAP ? findObj(s, a) : nullptr;
  if (!o || o->base != a || !o->live) { violate(s, "memory", "munmap of an invalid region"); endPath(s, false); return false; }
  o->live = 0; SET(s, q.dst, VC(0)); return true;
}
// intrinsics of the harness
BI(m_make) {
  u64 p = A(s, q, 0), n = A(s, q, 1); Str name = cstr(s, A(s, q, 2));
  if (!accessOk(s, p, n, true)) { endPath(s, false); return false; }
  if (n == 1 || n == 2 || n == 4 || n == 8) { E e = newInput(s, name, n * 8); storeRaw(s, p, {0, e}, n); }
  else for (u64 i = 0; i < n; i++) { E e = newInput(s, name + "[" + std::to_string(i) + "]", 8); storeByte(s, p + i, 0, e); }
  return true;
}
static E condOf(State& s, const KInst& q, unsigned i) { return X.Not(X.Eq(toE(REG(s, q.ops[i]), q.aw[i]), X.C(0, q.aw[i]))); }
BI(m_assume) {
  E c = condOf(s, q, 0); S.assumes++;
  if (c->k == K_Const) { if (!c->c) { endPath(s, false); return false; } return true; }
  if (evalM(s.model, c)) { addPc(s, c); return true; }
  ModelP nm; int r = check(s, c, &nm);
  if (r != 1) { endPath(s, false); return false; }
  addPc(s, c); s.model = nm; return true;
}
BI(m_assert) {
  E c = condOf(s, q, 0); Str msg = cstr(s, A(s, q, 1)); S.asserts++; S.assertMsgs[msg]++;
  if (c->k == K_Const) { if (c->c) { S.assertsConst++; return true; } violate(s, "assert", msg); endPath(s, false); return false; }
  S.assertQ++;
  ModelP nm; int r = check(s, X.Not(c), &nm, true);
  if (r == 1) {
    violate(s, "assert", msg, nm);
    ModelP ok; int r2 = check(s, c, &ok);
    if (r2 != 1) { endPath(s, false); return false; }
    addPc(s, c); s.model = ok;
  } else addPc(s, c);
  return true;
}
BI(m_fail) { violate(s, "assert", cstr(s, A(s, q, 0))); endPath(s, false); return false; }
BI(m_reach) { Str t = cstr(s, A(s, q, 0)); S.reach[t]++; s.tags.push_back(t); return true; }
BI(m_choice) {
  u64 n = A(s, q, 0); Str name = cstr(s, A(s, q, 1));
  // re-entrant: the choice variable is created once and decided value by value
  u128 rv; if (popReplay(s, 32, rv)) { newInput(s, name, 32); SET(s, q.dst, VC((u64)rv)); return true; }
  E e = newVar(s, name, 32, true);
  ModelP base = s.model;
  for (u64 i = n; i-- > 1;) {
    State* t = new State(s); S.forks++;
    E c = X.Eq(e, X.C(i, 32)); t->pc.push_back(c);
    auto m = std::make_shared<std::vector<u128>>(*base); if (m->size() <= e->aux) m->resize(X.vars.size(), 0); (*m)[e->aux] = i; t->model = m;
    SET(*t, q.dst, VC(i)); t->fr.back().pc++; t->depth++;
    work.push_back(t);
  }
  E c = X.Eq(e, X.C(0, 32)); s.pc.push_back(c);
  auto m = std::make_shared<std::vector<u128>>(*base); if (m->size() <= e->aux) m->resize(X.vars.size(), 0); (*m)[e->aux] = 0; s.model = m;
  SET(s, q.dst, VC(0)); return true;
}
BI(m_ite) { E c = condOf(s, q, 0); SET(s, q.dst, fromE(X.Ite(c, toE(REG(s, q.ops[1]), 64), toE(REG(s, q.ops[2]), 64)))); return true; }
BI(m_arg) { u64 i = A(s, q, 0); SET(s, q.dst, VC(i < O.args.size() ? (u64)O.args[i] & (q.w >= 64 ? ~0ULL : ((1ULL << q.w) - 1)) : 0)); return true; }
BI(m_conc) { u64 v = A(s, q, 0); SET(s, q.dst, VC(v)); return true; }
BI(m_issym) { SET(s, q.dst, VC(REG(s, q.ops[0]).e ? 1 : 0)); return true; }
// decide(c): returns concrete 0/1, forking if both possible
BI(m_decide) { bool b = decide(s, condOf(s, q, 0)); SET(s, q.dst, VC(b)); return true; }
// must(c): 1 when c holds for every value on this path (no fork)
BI(m_must) { E c = condOf(s, q, 0); int r = check(s, X.Not(c), nullptr); SET(s, q.dst, VC(r == 0)); return true; }
BI(m_may) { E c = condOf(s, q, 0); int r = check(s, c, nullptr); SET(s, q.dst, VC(r == 1)); return true; }
BI(m_and) { SET(s, q.dst, fromE(X.ZExt(X.And(condOf(s, q, 0), condOf(s, q, 1)), 32))); return true; }
BI(m_or) { SET(s, q.dst, fromE(X.ZExt(X.Or(condOf(s, q, 0), condOf(s, q, 1)), 32))); return true; }
BI(m_slabmark) {
  u64 p = A(s, q, 0), n = A(s, q, 1); bool live = A(s, q, 2); Obj* o = findObj(s, p);
  if (!o || p + n > o->base + o->size) { violate(s, "memory", "cell outside of any memory object"); endPath(s, false); return false; }
  o->watched = 1; int r = regionOf(p);
  for (u64 i = 0; i < n; i++) { u64 x = p + i - RBASE[r]; Page* g = s.reg[r].getW(x >> PSH); unsigned k = x & (PSZ - 1); if (live) g->live[k >> 6] |= 1ULL << (k & 63); else g->live[k >> 6] &= ~(1ULL << (k & 63)); }
  return true;
}
// number of live (marked) bytes in [p, p+n)
BI(m_slablive) {
  u64 p = A(s, q, 0), n = A(s, q, 1), c = 0; int r = regionOf(p);
  if (r >= 0) for (u64 i = 0; i < n; i++) { u64 x = p + i - RBASE[r]; Page* g = s.reg[r].get(x >> PSH); unsigned k = x & (PSZ - 1); if (g && ((g->live[k >> 6] >> (k & 63)) & 1)) c++; }
  SET(s, q.dst, VC(c)); return true;
}
BI(m_slabenter) { s.slabDepth++; return true; }
BI(m_slableave) { s.slabDepth--; return true; }
BI(m_end) { endPath(s, true); return false; }
BI(m_discard) { endPath(s, false); return false; }
BI(m_heaplive) { SET(s, q.dst, VC(s.nHeapLive)); return true; }
BI(m_valid) { // n bytes accessible at p? (no violation)
  u64 p = A(s, q, 0), n = A(s, q, 1); Obj* o = findObj(s, p); bool ok = o && o->live && p + n <= o->base + o->acc && p + n >= p; SET(s, q.dst, VC(ok)); return true; }
BI(m_print) { u64 p = A(s, q, 0); Val v = REG(s, q.ops[1]); if (O.verbose) { if (v.e) fprintf(stderr, "[p] %s <sym, eg %llx>\n", cstr(s, p).c_str(), (unsigned long long)evalM(s.model, v.e)); else fprintf(stderr, "[p] %s %llx '%s'\n", cstr(s, p).c_str(), (unsigned long long)v.v, findObj(s, v.v) ? cstr(s, v.v).c_str() : ""); } return true; }
BI(m_hostread) {
  Str path = cstr(s, A(s, q, 0)); u64 lp = A(s, q, 1);
  std::ifstream f(path, std::ios::binary); if (!f) { SET(s, q.dst, VC(0)); return true; }
  std::stringstream ss; ss << f.rdbuf(); Str d = ss.str();
  u64 a = heapAlloc(s, d.size() + 1, 0, true); s.nHeapLive--;
  for (size_t i = 0; i < d.size(); i++) storeByte(s, a + i, (uint8_t)d[i], nullptr);
  storeRaw(s, lp, VC(d.size()), 8); SET(s, q.dst, VC(a)); return true;
}
BI(m_dlsym) {
  Str mod = cstr(s, A(s, q, 0)), nm = cstr(s, A(s, q, 1));
  Function* F = M->getFunction(mod.empty() ? nm : nm + "$" + mod);
  SET(s, q.dst, VC(F && !F->isDeclaration() ? getK(F)->addr : 0)); return true;
}
// --- formatted output -----------------------------------------------------
// Renders into bytes; symbolic integers get one fresh variable per digit, tied
// to the value by a positional-sum constraint (decided length and sign).
static bool digitsOf(State& s, E v, bool sgn, std::vector<std::pair<uint8_t, E>>& out) {
  unsigned w = v->w; if (w < 64) v = sgn ? X.SExt(v, 64) : X.ZExt(v, 64);
  for (auto& r : s.digits) if (r.v == v && r.sgn == sgn) { // already rendered on this path
    if (r.neg) out.push_back({'-', nullptr});
    for (E d : r.ds) out.push_back({0, X.Add(d, X.C('0', 8))});
    return true;
  }
  E v0 = v, mag = v; bool neg = false;
  if (sgn && decide(s, X.Slt(v, X.C(0, 64)))) { out.push_back({'-', nullptr}); neg = true; mag = X.Sub(X.C(0, 64), v); }
  unsigned nd = 20; u64 p = 10;
  for (unsigned i = 1; i < 20; i++, p *= 10) if (decide(s, X.Ult(mag, X.C(p, 64)))) { nd = i; break; }
  E sum = nullptr; std::vector<E> ds;
  auto m = std::make_shared<std::vector<u128>>(*s.model);
  u64 mv = (u64)evalM(s.model, mag); Str txt = std::to_string(mv);
  while (txt.size() < nd) txt = "0" + txt;
  for (unsigned i = 0; i < nd; i++) {
    E d = newVar(s, "digit", 8, false); ds.push_back(d);
    E t = X.ZExt(d, 64); sum = sum ? X.Add(X.Bin(K_Mul, sum, X.C(10, 64)), t) : t;
    if (m->size() <= d->aux) m->resize(X.vars.size(), 0);
    (*m)[d->aux] = txt[i] - '0';
  }
  for (E d : ds) addPc(s, X.Ule(d, X.C(9, 8)));
  if (nd > 1) addPc(s, X.Not(X.Eq(ds[0], X.C(0, 8))));
  addPc(s, X.Eq(mag, sum)); s.model = m;
  s.digits.push_back({v0, sgn, neg, ds});
  for (E d : ds) out.push_back({0, X.Add(d, X.C('0', 8))});
  return true;
}
static bool render(State& s, const KInst& q, unsigned fi, std::vector<std::pair<uint8_t, E>>& out) {
  Str f = cstr(s, A(s, q, fi)); unsigned ai = fi + 1;
  auto put = [&](const Str& x) { for (char c : x) out.push_back({(uint8_t)c, nullptr}); };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back({(uint8_t)f[i], nullptr}); continue; }
    Str spec = "%"; i++; int prec = -1, width = -1; 
    while (i < f.size() && strchr("-+ #0123456789.", f[i])) {
      if (f[i] == '.') { prec = atoi(f.c_str() + i + 1); } else if (width < 0 && isdigit(f[i]) && prec < 0) width = atoi(f.c_str() + i);
      spec += f[i++]; }
    int lng = 0; while (i < f.size() && strchr("lhzjt", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng++; if (f[i] == 'h') lng--; i++; }
    char c = f[i];
    if (c == '%') { out.push_back({'%', nullptr}); continue; }
    Val v = REG(s, q.ops[ai]); unsigned w = q.aw[ai]; ai++;
    if (c == 's') {
      u64 p = concretize(s, v, 64); unsigned n = 0;
      if (!p) { put("(null)"); continue; }
      while (prec < 0 || (int)n < prec) { if (!accessOk(s, p + n, 1, false)) { endPath(s, false); return false; } uint8_t b; E e = byteAt(s, p + n, b); if (e ? decide(s, X.Eq(e, X.C(0, 8))) : !b) break; out.push_back({b, e}); n++; }
      for (; width > 0 && (int)n < width; n++) out.push_back({' ', nullptr});
    } else if (c == 'c') { if (v.e) out.push_back({0, X.Extract(v.e, 0, 8)}); else out.push_back({(uint8_t)v.v, nullptr}); }
    else if (c == 'd' || c == 'i' || c == 'u') {
      unsigned vw = lng > 0 ? 64 : 32; if (vw > w) vw = w;
      if (v.e && width < 0 && prec < 0) { if (!digitsOf(s, X.Extract(v.e, 0, vw), c != 'u', out)) return false; }
      else { u64 x = v.e ? concretize(s, v, w) : v.v; char b[64]; if (c == 'u') snprintf(b, sizeof b, (spec + "llu").c_str(), (unsigned long long)(vw == 32 ? (u32)x : x)); else snprintf(b, sizeof b, (spec + "lld").c_str(), (long long)(vw == 32 ? (s64)(int)x : (s64)x)); put(b); }
    } else if (c == 'x' || c == 'X' || c == 'p') { u64 x = concretize(s, v, w); char b[64]; snprintf(b, sizeof b, "%llx", (unsigned long long)x); if (c == 'p') put("0x"); put(b); }
    else { S.unmodelled["printf conversion %" + Str(1, c)]++; incomplete("unmodelled printf conversion"); }
  }
  return true;
}
static bool outBytes(State& s, const KInst& q, u64 d, u64 cap, std::vector<std::pair<uint8_t, E>>& o) {
  u64 n = cap ? std::min<u64>(o.size(), cap - 1) : 0;
  if (cap) { if (!accessOk(s, d, n + 1, true)) { endPath(s, false); return false; } for (u64 i = 0; i < n; i++) storeByte(s, d + i, o[i].first, o[i].second); storeByte(s, d + n, 0, nullptr); }
  SET(s, q.dst, VC(o.size())); return true;
}
BI(b_sprintf) { std::vector<std::pair<uint8_t, E>> o; if (!render(s, q, 1, o)) return false; return outBytes(s, q, A(s, q, 0), ~0ULL >> 1, o); }
BI(b_snprintf) { std::vector<std::pair<uint8_t, E>> o; if (!render(s, q, 2, o)) return false; return outBytes(s, q, A(s, q, 0), A(s, q, 1), o); }
// msym_format(buf, cap, fmt, ...) is the hook the C models use for f/printf
BI(b_stpcopyless) { SET(s, q.dst, VC(0)); return true; }
// fprintf/printf: render, then hand to the C model msym_emit(FILE*, bytes, n)
static bool emitTo(State& s, const KInst& q, Val file, std::vector<std::pair<uint8_t, E>>& o) {
  Function* F = M->getFunction("msym_emit"); if (!F || F->isDeclaration()) { SET(s, q.dst, VC(o.size())); return true; }
  u64 a = heapAlloc(s, o.size() + 1, 0, true); s.nHeapLive--;
  for (size_t i = 0; i < o.size(); i++) storeByte(s, a + i, o[i].first, o[i].second);
  s.fr.back().pc++; // return lands after the call
  std::vector<Val> args = {file, VC(a), VC(o.size())};
  enter(s, getK(F), args, q.dst, q.w);
  return false;
}
BI(b_fprintf) { std::vector<std::pair<uint8_t, E>> o; if (!render(s, q, 1, o)) return false; return emitTo(s, q, REG(s, q.ops[0]), o); }
BI(b_printf) {
  std::vector<std::pair<uint8_t, E>> o; if (!render(s, q, 0, o)) return false;
  auto* g = M->getGlobalVariable("stdout"); Val f = VC(0); if (g && gaddr.count(g)) f = loadRaw(s, gaddr[g], 8);
  return emitTo(s, q, f, o);
}
// strtoll and its relatives over decided-length digit strings, any base, saturating
template <class Q> static bool strToInt(State& s, Q& q, u64 p, u64 endp, u64 base, bool uns) {
  u64 i = 0;
  auto rd = [&](u64 k, E& e) -> bool { if (!accessOk(s, p + k, 1, false)) { endPath(s, false); return false; } uint8_t c; e = byteAt(s, p + k, c); if (!e) e = X.C(c, 8); return true; };
  E e; 
  auto isSpace = [&](E x) { return X.Or(X.Eq(x, X.C(32, 8)), X.Ule(X.Sub(x, X.C(9, 8)), X.C(4, 8))); };
  while (true) { if (!rd(i, e)) return false; if (!decide(s, isSpace(e))) break; i++; }
  bool neg = false;
  if (decide(s, X.Eq(e, X.C('-', 8)))) { neg = true; i++; } else if (decide(s, X.Eq(e, X.C('+', 8)))) i++;
  E sum = nullptr; unsigned nd = 0; u64 st = i; std::vector<E> ds;
  if (!rd(i, e)) return false;
  auto between = [&](E x, unsigned lo, unsigned n) { return X.Ult(X.Sub(x, X.C(lo, 8)), X.C(n, 8)); };
  auto letter = [&](E x) { return X.Bin(K_Or, x, X.C(32, 8)); };
  if (base == 0 || base == 16) { // 0x prefix, 0 prefix
    bool hex = false;
    if (decide(s, X.Eq(e, X.C('0', 8)))) {
      E e1; if (!rd(i + 1, e1)) return false;
      if (decide(s, X.Eq(letter(e1), X.C('x', 8)))) { E e2; if (!rd(i + 2, e2)) return false; hex = decide(s, X.Or(between(e2, '0', 10), between(letter(e2), 'a', 6))); }
      if (hex) i += 2;
      if (base == 0) base = hex ? 16 : 8;
    } else if (base == 0) base = 10;
  }
  while (true) {
    if (!rd(i, e)) return false;
    E d = X.Sub(e, X.C('0', 8));
    if (!decide(s, X.Ult(d, X.C(base < 10 ? base : 10, 8)))) {
      if (base <= 10 || !decide(s, between(letter(e), 'a', (unsigned)base - 10))) break;
      d = X.Sub(letter(e), X.C('a' - 10, 8));
    }
    ds.push_back(d); i++; nd++;
  }
  // 128-bit value for exact saturation, 64-bit for the result
  E lim = X.C(uns ? ((u128)1 << 64) - 1 : neg ? ((u128)1 << 63) : ((u128)1 << 63) - 1, 128); E ovf = X.F();
  size_t z = 0; while (z + 1 < ds.size() && X.isC(ds[z], 0)) z++;
  for (size_t k = z; k < ds.size(); k++) { E t = X.ZExt(ds[k], 64); sum = sum ? X.Add(X.Bin(K_Mul, sum, X.C(base, 64)), t) : t; }
  E known = nullptr; // the digits of a value rendered on this path read back as that value
  if (base == 10 && !uns) for (auto& x : s.digits) if (x.sgn && x.neg == neg && x.ds == ds) known = x.v;
  if (!known && ds.size() - z >= (base <= 10 ? 19 : 13)) {
    E big = nullptr; for (size_t k = z; k < ds.size(); k++) { E t = X.ZExt(ds[k], 128); big = big ? X.Add(X.Bin(K_Mul, big, X.C(base, 128)), t) : t; if (k - z > (base <= 10 ? 36 : 23)) break; }
    ovf = ds.size() - z > (base <= 10 ? 36 : 23) ? X.T() : X.Ult(lim, big);
    if (ovf->k != K_Const) ovf = decide(s, ovf) ? X.T() : X.F();
  }
  E r = sum ? sum : X.C(0, 64);
  if (neg) r = X.Sub(X.C(0, 64), r);
  if (known) r = known;
  if (X.isC(ovf, 1)) r = uns ? X.C(((u128)1 << 64) - 1, 64) : neg ? X.C((u128)1 << 63, 64) : X.C(((u128)1 << 63) - 1, 64);
  if (endp) { if (!accessOk(s, endp, 8, true)) { endPath(s, false); return false; } storeRaw(s, endp, VC(p + (i == st && !nd ? 0 : i)), 8); }
  SET(s, q.dst, fromE(r)); return true;
}
BI(b_strtoll) { return strToInt(s, q, A(s, q, 0), A(s, q, 1), A(s, q, 2), false); }
BI(b_strtoull) { return strToInt(s, q, A(s, q, 0), A(s, q, 1), A(s, q, 2), true); }
BI(b_atoll) { return strToInt(s, q, A(s, q, 0), 0, 10, false); }
BI(b_nop) { SET(s, q.dst, VC(0)); return true; }

static void setupBuiltins() {
  auto& b = builtins;
  b["malloc"] = b_malloc; b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["free"] = b_free;
  b["memcpy"] = b_memcpy; b["memmove"] = memXfer; b["memset"] = b_memset; b["memcmp"] = b_memcmp; b["bcmp"] = b_memcmp;
  b["abort"] = b_abort; b["__assert_fail"] = b_assertfail; b["exit"] = b_exit; b["_exit"] = b_exit;
  b["mmap"] = b_mmap; b["mprotect"] = b_mprotect; b["munmap"] = b_munmap;
  b["sprintf"] = b_sprintf; b["snprintf"] = b_snprintf; b["fprintf"] = b_fprintf; b["printf"] = b_printf;
  b["strtoll"] = b_strtoll; b["__isoc23_strtoll"] = b_strtoll; b["strtol"] = b_strtoll; b["__isoc23_strtol"] = b_strtoll;
  b["strtoull"] = b_strtoull; b["__isoc23_strtoull"] = b_strtoull; b["strtoul"] = b_strtoull; b["__isoc23_strtoul"] = b_strtoull; b["atoll"] = b_atoll; b["atol"] = b_atoll;
  b["strtoimax"] = b_strtoll; b["__isoc23_strtoimax"] = b_strtoll;
  b["msym_make"] = m_make; b["msym_assume"] = m_assume; b["msym_assert"] = m_assert; b["msym_fail"] = m_fail; b["msym_reach"] = m_reach;
  b["msym_choice"] = m_choice; b["msym_ite"] = m_ite; b["msym_arg"] = m_arg; b["msym_concretize"] = m_conc; b["msym_is_symbolic"] = m_issym;
  b["msym_decide"] = m_decide; b["msym_must"] = m_must; b["msym_may"] = m_may; b["msym_and"] = m_and; b["msym_or"] = m_or;
  b["msym_slab_mark"] = m_slabmark; b["msym_slab_live"] = m_slablive; b["msym_slab_enter"] = m_slabenter; b["msym_slab_leave"] = m_slableave;
  b["msym_end"] = m_end; b["msym_discard"] = m_discard; b["msym_heap_live"] = m_heaplive; b["msym_valid"] = m_valid; b["msym_print"] = m_print;
  b["msym_host_read"] = m_hostread; b["msym_dlsym"] = m_dlsym;
}

// ---------------------------------------------------------------- step
static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul;
    case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem;
    case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
    case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; case Instruction::AShr: return K_AShr;
  }
  return K_Const;
}
static bool step(State& s) {
  Frame& fr = s.fr.back();
  const KInst& q = fr.f->b[fr.blk].in[fr.pc];
  s.insts++; S.insts++;
  switch (q.op) {
    case Instruction::Br:
      if (q.ops.empty()) { jump(s, q.t0); return true; }
      else { Val c = REG(s, q.ops[0]); bool t = c.e ? decide(s, c.e) : c.v & 1; jump(s, t ? q.t0 : q.t1); return true; }
    case Instruction::Switch: {
      Val c = REG(s, q.ops[0]);
      if (!c.e) { for (auto& k : q.cases) if (k.first == c.v) { jump(s, k.second); return true; } jump(s, q.t0); return true; }
      for (auto& k : q.cases) if (decide(s, X.Eq(c.e, X.C(k.first, q.ow)))) { jump(s, k.second); return true; }
      jump(s, q.t0); return true;
    }
    case Instruction::Ret: {
      Val v = q.ops.empty() ? VC(0) : REG(s, q.ops[0]);
      Frame f = fr; s.regs.resize(f.base); s.stack.resize(f.stackObjs); s.sp = f.sp; s.fr.pop_back();
      if (s.fr.empty()) { endPath(s, true); return false; }
      if (f.retReg >= 0) s.regs[s.fr.back().base + f.retReg] = v;
      return true;
    }
    case Instruction::Unreachable: violate(s, "unreachable", "unreachable code executed"); endPath(s, false); return false;
    case Instruction::Alloca: {
      u64 n = concretize(s, REG(s, q.ops[0]), 64) * q.sz;
      if (n > (8u << 20)) { violate(s, "memory", "stack allocation too large"); endPath(s, false); return false; }
      SET(s, q.dst, VC(stackAlloc(s, n, q.al))); break;
    }
    case Instruction::Load: {
      u64 a; if (!resolveAddr(s, REG(s, q.ops[0]), q.sz, false, a)) return false;
      if (!accessOk(s, a, q.sz, false)) { endPath(s, false); return false; }
      Val v = loadRaw(s, a, q.sz);
      if (q.w < q.sz * 8) { if (v.e) v = fromE(X.Extract(v.e, 0, q.w)); else v.v &= (u64)maskw(q.w); }
      SET(s, q.dst, v); break;
    }
    case Instruction::Store: {
      u64 a; if (!resolveAddr(s, REG(s, q.ops[1]), q.sz, true, a)) return false;
      if (!accessOk(s, a, q.sz, true)) { endPath(s, false); return false; }
      Val v = REG(s, q.ops[0]); if (v.e && q.ow < q.sz * 8) v = fromE(X.ZExt(v.e, q.sz * 8));
      storeRaw(s, a, v, q.sz); break;
    }
    case Instruction::GetElementPtr: {
      Val p = REG(s, q.ops[0]); bool sym = p.e; for (auto& g : q.gep) if (REG(s, g.first).e) sym = true;
      if (!sym) { u64 a = p.v + q.off; unsigned i = 0; for (auto& g : q.gep) { u64 x = REG(s, g.first).v; if (q.aw[i] < 64) x = (u64)sextw(x, q.aw[i]); a += x * g.second; i++; } SET(s, q.dst, VC(a)); }
      else { E a = X.Add(toE(p, 64), X.C((u64)q.off, 64)); unsigned i = 0; for (auto& g : q.gep) { E x = toE(REG(s, g.first), q.aw[i]); if (x->w < 64) x = X.SExt(x, 64); a = X.Add(a, X.Bin(K_Mul, x, X.C((u64)g.second, 64))); i++; } SET(s, q.dst, fromE(a)); }
      break;
    }
    case Instruction::ICmp: {
      Val a = REG(s, q.ops[0]), b = REG(s, q.ops[1]); unsigned w = q.ow;
      if (!a.e && !b.e) {
        u64 x = a.v, y = b.v; s64 sx = (s64)sextw(x, w), sy = (s64)sextw(y, w); bool r = false;
        switch (q.pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; }
        SET(s, q.dst, VC(r));
      } else {
        E x = toE(a, w), y = toE(b, w), r = nullptr;
        if (q.I->getOperand(0)->getType()->isVectorTy()) { S.unmodelled["vector icmp"]++; incomplete("vector icmp"); endPath(s, false); return false; }
        switch (q.pred) { case CmpInst::ICMP_EQ: r = X.Eq(x, y); break; case CmpInst::ICMP_NE: r = X.Not(X.Eq(x, y)); break; case CmpInst::ICMP_UGT: r = X.Ult(y, x); break; case CmpInst::ICMP_UGE: r = X.Ule(y, x); break; case CmpInst::ICMP_ULT: r = X.Ult(x, y); break; case CmpInst::ICMP_ULE: r = X.Ule(x, y); break; case CmpInst::ICMP_SGT: r = X.Slt(y, x); break; case CmpInst::ICMP_SGE: r = X.Sle(y, x); break; case CmpInst::ICMP_SLT: r = X.Slt(x, y); break; case CmpInst::ICMP_SLE: r = X.Sle(x, y); break; }
        SET(s, q.dst, fromE(r));
      }
      break;
    }
    case Instruction::Select: {
      Val c = REG(s, q.ops[0]), a = REG(s, q.ops[1]), b = REG(s, q.ops[2]);
      if (!c.e) SET(s, q.dst, c.v & 1 ? a : b); else SET(s, q.dst, fromE(X.Ite(c.e, toE(a, q.w), toE(b, q.w)))); break;
    }
    case Instruction::Trunc: { Val a = REG(s, q.ops[0]); if (a.e) SET(s, q.dst, fromE(X.Extract(a.e, 0, q.w))); else SET(s, q.dst, VC(a.v & (u64)maskw(q.w))); break; }
    case Instruction::ZExt: { Val a = REG(s, q.ops[0]); if (a.e) SET(s, q.dst, fromE(X.ZExt(a.e, q.w))); else if (q.w > 64) SET(s, q.dst, {0, X.C(a.v, q.w)}); else SET(s, q.dst, a); break; }
    case Instruction::SExt: { Val a = REG(s, q.ops[0]); if (a.e) SET(s, q.dst, fromE(X.SExt(a.e, q.w))); else if (q.w > 64) SET(s, q.dst, {0, X.C((u128)sextw(a.v, q.ow), q.w)}); else SET(s, q.dst, VC((u64)sextw(a.v, q.ow) & (u64)maskw(q.w))); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = REG(s, q.ops[0]); if (q.w < q.ow) { if (a.e) a = fromE(X.Extract(a.e, 0, q.w)); else a.v &= (u64)maskw(q.w); } else if (q.w > q.ow && a.e) a = fromE(X.ZExt(a.e, q.w)); SET(s, q.dst, a); break; }
    case Instruction::BitCast: case Instruction::Freeze: SET(s, q.dst, REG(s, q.ops[0])); break;
    case Instruction::ExtractValue: { Val a = REG(s, q.ops[0]); E e = toE(a, q.ow); SET(s, q.dst, fromE(X.Extract(e, q.off * 8, q.w))); break; }
    case Instruction::InsertValue: {
      E a = toE(REG(s, q.ops[0]), q.ow), v = toE(REG(s, q.ops[1]), q.aw[0]); unsigned lo = q.off * 8, hi = lo + v->w; E r = v;
      if (lo) r = X.Concat(r, X.Extract(a, 0, lo));
      if (hi < q.ow) r = X.Concat(X.Extract(a, hi, q.ow - hi), r);
      SET(s, q.dst, fromE(r)); break; }
    case Instruction::ExtractElement: { E a = toE(REG(s, q.ops[0]), q.ow); u64 i = concretize(s, REG(s, q.ops[1]), 64); SET(s, q.dst, fromE(X.Extract(a, i * q.w, q.w))); break; }
    case Instruction::InsertElement: {
      E a = toE(REG(s, q.ops[0]), q.ow), v = toE(REG(s, q.ops[1]), q.aw[0]); u64 i = concretize(s, REG(s, q.ops[2]), 64); unsigned lo = i * v->w, hi = lo + v->w; E r = v;
      if (lo) r = X.Concat(r, X.Extract(a, 0, lo));
      if (hi < q.ow) r = X.Concat(X.Extract(a, hi, q.ow - hi), r);
      Val o = fromE(r); if (q.w > 64 && !o.e) o.e = X.C(o.v, q.w); SET(s, q.dst, o); break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Val a = REG(s, q.ops[0]), b = REG(s, q.ops[1]); Kind k = binKind(q.op);
      if (k >= K_UDiv && k <= K_SRem) {
        E y = toE(b, q.w), x = toE(a, q.w);
        E z = X.Eq(y, X.C(0, q.w));
        if (decide(s, z)) { violate(s, "arith", "division by zero"); endPath(s, false); return false; }
        if (k == K_SDiv || k == K_SRem) { E ov = X.And(X.Eq(x, X.C((u128)1 << (q.w - 1), q.w)), X.Eq(y, X.C(maskw(q.w), q.w))); if (decide(s, ov)) { violate(s, "arith", "signed division overflow"); endPath(s, false); return false; } }
      }
      if (!a.e && !b.e) { bool ok; SET(s, q.dst, VC((u64)X.foldBin(k, a.v, b.v, q.w, ok))); }
      else { if (q.I->getType()->isVectorTy() && !(k == K_And || k == K_Or || k == K_Xor)) { S.unmodelled["vector op"]++; incomplete("vector op"); endPath(s, false); return false; }
        E r = X.Bin(k, toE(a, q.w), toE(b, q.w)); Val o = fromE(r); if (q.w > 64 && !o.e) o.e = r; SET(s, q.dst, o); }
      break;
    }
    case Instruction::Call: {
      KFunc* f = q.callee;
      if (!f) {
        u64 a = concretize(s, REG(s, q.ops.back()), 64);
        if (a < FBASE || a >= FBASE + fnByIdx.size() * 16 || (a & 15)) { violate(s, "memory", "call through an invalid function pointer"); endPath(s, false); return false; }
        f = fnByIdx[(a - FBASE) / 16];
      }
      if (q.intr || f->F->isIntrinsic()) {
        unsigned id = f->F->getIntrinsicID();
        switch (id) {
          case Intrinsic::memcpy: case Intrinsic::memmove: if (!memXfer(s, q)) return false; break;
          case Intrinsic::memset: if (!b_memset(s, q)) return false; break;
          case Intrinsic::expect: case Intrinsic::expect_with_probability: SET(s, q.dst, REG(s, q.ops[0])); break;
          case Intrinsic::stacksave: SET(s, q.dst, VC(s.sp)); break;
          case Intrinsic::stackrestore: { u64 sp = REG(s, q.ops[0]).v; s.sp = sp; while (s.stack.size() > fr.stackObjs && s.stack.back().base >= sp) s.stack.pop_back(); break; }
          case Intrinsic::x86_sse41_ptestz: { E a = toE(REG(s, q.ops[0]), 128), b = toE(REG(s, q.ops[1]), 128); SET(s, q.dst, fromE(X.ZExt(X.Eq(X.And(a, b), X.C(0, 128)), 32))); break; }
          case Intrinsic::x86_sse41_ptestc: { E a = toE(REG(s, q.ops[0]), 128), b = toE(REG(s, q.ops[1]), 128); SET(s, q.dst, fromE(X.ZExt(X.Eq(X.And(X.Not(a), b), X.C(0, 128)), 32))); break; }
          case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { E a = toE(REG(s, q.ops[0]), q.w), b = toE(REG(s, q.ops[1]), q.w); E c = id == Intrinsic::umax ? X.Ult(b, a) : id == Intrinsic::umin ? X.Ult(a, b) : id == Intrinsic::smax ? X.Slt(b, a) : X.Slt(a, b); SET(s, q.dst, fromE(X.Ite(c, a, b))); break; }
          case Intrinsic::abs: { E a = toE(REG(s, q.ops[0]), q.w); SET(s, q.dst, fromE(X.Ite(X.Slt(a, X.C(0, q.w)), X.Sub(X.C(0, q.w), a), a))); break; }
          case Intrinsic::bswap: { E a = toE(REG(s, q.ops[0]), q.w); E r = nullptr; for (unsigned i = 0; i < q.w / 8; i++) { E b = X.Extract(a, i * 8, 8); r = r ? X.Concat(r, b) : b; } SET(s, q.dst, fromE(r)); break; }
          case Intrinsic::trap: violate(s, "abort", "trap"); endPath(s, false); return false;
          default: S.unmodelled[f->name]++; incomplete("unmodelled intrinsic " + f->name); endPath(s, false); return false;
        }
        s.fr.back().pc++; return true;
      }
      if (f->bi) { if (!f->bi(s, q)) return !s.done; s.fr.back().pc++; return true; }
      if (f->F->isDeclaration()) { S.unmodelled[f->name]++; incomplete("unmodelled external function " + f->name); endPath(s, false); return false; }
      std::vector<Val> args; args.reserve(q.aw.size()); for (size_t i = 0; i < q.aw.size(); i++) args.push_back(REG(s, q.ops[i]));
      fr.pc++;
      return enter(s, f, args, q.dst, q.w);
    }
    default:
      S.unmodelled[q.I->getOpcodeName()]++; incomplete(Str("unmodelled instruction ") + q.I->getOpcodeName()); endPath(s, false); return false;
  }
  s.fr.back().pc++;
  return true;
}

// ---------------------------------------------------------------- output
static Str jesc(const Str& s) { Str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static size_t rssMB() { std::ifstream f("/proc/self/statm"); size_t a = 0, b = 0; f >> a >> b; return b * 4096 / (1 << 20); }
static void report(double t0) {
  std::ostringstream o;
  auto mp = [&](const std::map<Str, u64>& m) { o << "{"; bool f = true; for (auto& p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}"; };
  o << "{\"paths\":" << S.paths << ",\"killed\":" << S.killed << ",\"forks\":" << S.forks << ",\"instructions\":" << S.insts << ",\"max_path_instructions\":" << S.pathInstMax
    << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat << ",\"unknown\":" << S.unknown << ",\"cache_hits\":" << S.cache << ",\"presolved\":" << S.presolved
    << ",\"cert_rewrites\":" << CT.rewrites << ",\"cert_tables\":" << CT.tables << ",\"cert_queries\":" << CT.queries << ",\"cert_left\":" << CT.left << ",\"cert_s\":" << CT.s
    << ",\"solver_s\":" << S.solver << ",\"max_query_s\":" << S.maxq << ",\"asserts\":" << S.asserts << ",\"asserts_folded\":" << S.assertsConst << ",\"assert_queries\":" << S.assertQ
    << ",\"max_path_condition\":" << S.maxPc << ",\"complete\":" << (S.incomplete ? "false" : "true") << ",\"why\":\"" << jesc(S.why) << "\",\"wall_s\":" << (now() - t0) << ",\"rss_mb\":" << rssMB();
  o << ",\"reach\":"; mp(S.reach); o << ",\"assert_sites\":"; mp(S.assertMsgs); o << ",\"unmodelled\":"; mp(S.unmodelled);
  o << ",\"functions\":{"; bool f = true;
  for (auto* k : fnByIdx) if (k->repo && k->calls) { unsigned c = 0; for (auto x : k->cov) c += x; if (!f) o << ","; f = false; o << "\"" << jesc(k->name) << "\":[" << k->calls << "," << c << "," << k->b.size() << "]"; }
  o << "},\"samples\":["; f = true; for (auto& x : S.samples) { if (!f) o << ","; f = false; o << x; }
  o << "],\"violations\":["; f = true;
  for (auto& v : viols) {
    if (!f) o << ","; f = false;
    o << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"key\":\"" << jesc(v.key) << "\",\"count\":" << S.violCount[v.key] << ",\"stack\":[";
    bool g = true; for (auto& x : v.stack) { if (!g) o << ","; g = false; o << "\"" << jesc(x) << "\""; }
    o << "],\"inputs\":["; g = true; for (auto& x : v.inputs) { if (!g) o << ","; g = false; o << "[\"" << jesc(x.first) << "\",\"" << x.second << "\"]"; }
    o << "]}";
  }
  o << "]}";
  if (O.out.empty()) puts(o.str().c_str()); else { std::ofstream w(O.out); w << o.str() << "\n"; }
}

int main(int argc, char** argv) {
  double t0 = now(); std::vector<Str> files;
  for (int i = 1; i < argc; i++) {
    Str a = argv[i];
    auto nx = [&]() { return Str(argv[++i]); };
    if (a == "-e") O.entry = nx(); else if (a == "-o") O.out = nx(); else if (a == "-a") O.args.push_back(atoll(nx().c_str()));
    else if (a == "-t") O.maxTime = atof(nx().c_str()); else if (a == "-i") O.maxInst = atoll(nx().c_str()); else if (a == "-V") O.maxViol = atoll(nx().c_str());
    else if (a == "-v") O.verbose = true; else if (a == "-1") O.firstOnly = true; else if (a == "-r") O.replay = nx(); else if (a == "-q") O.qTimeout = atoi(nx().c_str());
    else if (a == "-m") O.maxMemMB = atoi(nx().c_str());
    else files.push_back(a);
  }
  if (!O.replay.empty()) { std::ifstream f(O.replay); Str l; while (std::getline(f, l)) { size_t p = l.rfind(' '); if (p != Str::npos && l[0] != '#') replayVals.push_back({l.substr(0, p), l.substr(p + 1)}); } }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod;
  setupBuiltins();
  for (auto& f : files) {
    size_t eq = f.find('='); Str path = eq == Str::npos ? f : f.substr(eq + 1), ns = eq == Str::npos ? "" : f.substr(0, eq);
    auto m = parseIRFile(path, err, ctx); if (!m) { err.print("msym", errs()); return 3; }
    if (!ns.empty()) {
      std::vector<GlobalValue*> gv; for (auto& F : *m) if (!F.isDeclaration()) gv.push_back(&F); for (auto& g : m->globals()) if (!g.isDeclaration()) gv.push_back(&g);
      for (auto* g : gv) { if (g->hasLocalLinkage() || g->hasAvailableExternallyLinkage()) continue; g->setName(g->getName() + "$" + ns); g->setLinkage(GlobalValue::ExternalLinkage); if (auto* go = dyn_cast<GlobalObject>(g)) go->setComdat(nullptr); }
    }
    if (auto* u = m->getGlobalVariable("llvm.used")) u->eraseFromParent();
    if (auto* u = m->getGlobalVariable("llvm.compiler.used")) u->eraseFromParent();
    if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) { errs() << "link failed: " << path << "\n"; return 3; }
  }
  M = mod.get(); DL = &M->getDataLayout();
  { // --wrap
    std::vector<Function*> ws; for (auto& F : *M) if (F.getName().starts_with("__wrap_") && !F.isDeclaration()) ws.push_back(&F);
    for (auto* W : ws) { Str n = W->getName().drop_front(7).str(); if (Function* F = M->getFunction(n)) F->replaceAllUsesWith(W); if (Function* R = M->getFunction("__real_" + n)) { Function* F = M->getFunction(n); if (!F) { R->setName(n); } else R->replaceAllUsesWith(F); } }
  }
  Z = new Solver;
  initGlob = new Region;
  for (auto& F : *M) getK(&F);
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 sz = DL->getTypeAllocSize(g.getValueType()); u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
    u64 a = (globNext + al - 1) & ~(al - 1); globNext = a + sz + 16; gaddr[&g] = a;
    if (g.isDeclaration()) { if (O.verbose) errs() << "undefined global " << g.getName() << "\n"; }
    globObjs.push_back({a, sz, sz, 1, (uint8_t)(g.isConstant() ? 2 : 1), 0});
  }
  for (auto& g : M->globals()) if (g.hasInitializer() && gaddr.count(&g)) initMem(*initGlob, gaddr[&g], g.getInitializer());
  Function* H = M->getFunction(O.entry); if (!H || H->isDeclaration()) { errs() << "no entry " << O.entry << "\n"; return 3; }
  State* s0 = new State; s0->model = std::make_shared<std::vector<u128>>();
  for (auto* l : initGlob->lv) { if (l) l->rc++; s0->reg[R_GLOB].lv.push_back(l); }
  enter(*s0, getK(H), {}, -1, 0);
  work.push_back(s0);
  double deadline = t0 + O.maxTime; u64 tick = 0;
  while (!work.empty() && !stopAll) {
    State* s = work.back(); work.pop_back();
    if (now() > deadline) { incomplete("time budget exhausted"); break; }
    while (!s->done && !stopAll) {
      if (!step(*s) && s->done) break;
      if (s->insts > O.maxInst) { violate(*s, "hang", "no termination within the instruction bound"); endPath(*s, false); break; }
      if ((++tick & 0xFFFF) == 0) { if (now() > deadline) { incomplete("time budget exhausted"); stopAll = true; } if ((tick & 0xFFFFF) == 0 && rssMB() > O.maxMemMB) { incomplete("memory budget exhausted"); stopAll = true; } }
    }
    delete s;
  }
  if (stopAll && !S.incomplete && !viols.empty()) { S.incomplete = true; S.why = "stopped at violations"; }
  if (O.replay.empty()) certify(std::max(10.0, O.maxTime * 0.15));
  if (!CT.bad.empty()) { errs() << "engine: " << CT.bad << "\n"; return 3; }
  report(t0);
  fflush(stdout);
  _exit(viols.empty() ? (S.incomplete ? 2 : 0) : 1);
}
