/* A reference interpreter for the core language, written from the manual: environments are chains of
 * mutable cells, functions are opaque values, there is no tail-call shortcut, cache or sharing trick.
 * Programs are built as V, evaluated here by r_eval and, converted by to_atom, by the real evaluator. */
#pragma once
#include "lib.h"
enum { NIL_, TRU_, WLD_, NUM_, CHR_, SYM_, PAIR_, PRIM_, LAM_ };
typedef struct v* V;
struct chain;
typedef struct chain* C;
struct v { int k, prim; int64_t n; const char* s; V a, b; C env; };
static struct v v_nil = { .k = NIL_ }, v_true = { .k = TRU_ }, v_wild = { .k = WLD_ };
#define NIL0 (&v_nil)
#define TRUE0 (&v_true)
static V vmk(int k) { V v = malloc(sizeof *v); memset(v, 0, sizeof *v); v->k = k; return v; }
static V vnum(int64_t n) { V v = vmk(NUM_); v->n = n; return v; }
static V vchr(int64_t n) { V v = vmk(CHR_); v->n = n; return v; }
static V vsym(const char* s) { V v = vmk(SYM_); v->s = s; return v; }
static V vcons(V a, V b) { V v = vmk(PAIR_); v->a = a; v->b = b; return v; }
static V vanynum(const char* name) { int64_t n; msym_make(&n, 8, name); return vnum(n); }
static V vlist_(int n, V* e) { V r = NIL0; for (int i = n; i > 0; i--) r = vcons(e[i - 1], r); return r; }
#define VN_(...) (sizeof((V[]){ __VA_ARGS__ }) / sizeof(V))
#define L(...) vlist_(VN_(__VA_ARGS__), (V[]){ __VA_ARGS__ })
#define S(x) vsym(x)
static V vcar(V v) { return v->k == PAIR_ ? v->a : NIL0; }
static V vcdr(V v) { return v->k == PAIR_ ? v->b : NIL0; }
static V vlast(V v) { while (v->k == PAIR_ && v->b->k == PAIR_) v = v->b; return v; }
static int isfun(V v) { return v->k == PRIM_ || v->k == LAM_; }
static int r_steps, r_limit = 4000;

enum { P_quote, P_list, P_cons, P_car, P_cdr, P_add, P_sub, P_mul, P_equ, P_lt, P_if, P_when, P_unless, P_cond, P_match, P_prog,
       P_stream, P_let, P_setq, P_set, P_def, P_lambda, P_and, P_or, P_not, P_eval, P_while, P_len, P_nilp, P_nump, P_lstp, P_END };
static const struct { const char* name; int fixed, rest; } prims[P_END] = {
  { "quote", 0, 1 }, { "list", 0, 1 }, { "cons", 2, 0 }, { "car", 1, 0 }, { "cdr", 1, 0 }, { "+", 2, 0 }, { "-", 2, 0 }, { "*", 2, 0 },
  { "=", 2, 0 }, { "<", 2, 0 }, { "if", 1, 1 }, { "when", 1, 1 }, { "unless", 1, 1 }, { "cond", 0, 1 }, { "match", 0, 1 }, { "prog", 0, 1 },
  { "|>", 0, 1 }, { "let", 0, 1 }, { "setq", 0, 1 }, { "<-", 0, 1 }, { "def", 0, 1 }, { "\\", 0, 1 }, { "and", 2, 0 }, { "or", 0, 1 },
  { "not", 1, 0 }, { "eval", 1, 0 }, { "while", 0, 1 }, { "len", 1, 0 }, { "nil?", 1, 0 }, { "num?", 1, 0 }, { "lst?", 1, 0 } };

/* bindings: a chain whose entries point to shared value cells */
struct chain { const char* s; V* c; struct chain* up; };
static C cbind_cell(C up, const char* s, V* c) { C x = malloc(sizeof *x); x->s = s; x->c = c; x->up = up; return x; }
static C cbind(C up, const char* s, V v) { V* c = malloc(sizeof *c); *c = v; return cbind_cell(up, s, c); }
static C cover(C top, C below) { return top ? cbind_cell(cover(top->up, below), top->s, top->c) : below; }
static V* cfind(C e, const char* s) { for (; e; e = e->up) if (strcmp(e->s, s) == 0) return e->c; return 0; }
static C glob;
static C pattern(C up, V p, V v) {
  if (p->k == PAIR_) return pattern(pattern(up, p->a, vcar(v)), p->b, vcdr(v));
  if (p->k == SYM_) return cbind(up, p->s, v);
  return up;
}
static int vequ(V a, V b) {
  if (a->k != b->k) return 0;
  switch (a->k) {
    case NUM_: case CHR_: return msym_decide(a->n == b->n);
    case SYM_: return strcmp(a->s, b->s) == 0;
    case PAIR_: return vequ(a->a, b->a) && vequ(a->b, b->b);
    default: return 1;
  }
}
static int vmatch(V p, V v) {
  if (p->k == WLD_) return 1;
  if (p->k != v->k) return 0;
  if (p->k == PAIR_) return vmatch(p->a, v->a) && vmatch(p->b, v->b);
  return vequ(p, v);
}
static V r_eval(C env, V e);
static V r_prog(C env, V body) { V r = NIL0; for (; body->k == PAIR_; body = body->b) r = r_eval(env, body->a); return r; }
static V vbool(int c) { return c ? TRUE0 : NIL0; }
static V vfun(int k, V params, V body, C env) { V f = vmk(k); f->a = params; f->b = body; f->env = env; return f; }
/* args: values of a primitive's fixed parameters, in order; rest: its unevaluated remainder */
static V r_prim(int p, V* x, V rest, C env) {
  switch (p) {
    case P_quote: return rest;
    case P_list: { V r[16]; int n = 0; for (; rest->k == PAIR_; rest = rest->b) r[n++] = r_eval(env, rest->a); return vlist_(n, r); }
    case P_cons: return vcons(x[0], x[1]);
    case P_car: return vcar(x[0]);
    case P_cdr: return vcdr(x[0]);
    case P_add: return vnum((int64_t)((uint64_t)x[0]->n + (uint64_t)x[1]->n));
    case P_sub: return vnum((int64_t)((uint64_t)x[0]->n - (uint64_t)x[1]->n));
    case P_mul: return vnum((int64_t)((uint64_t)x[0]->n * (uint64_t)x[1]->n));
    case P_equ: return vbool(vequ(x[0], x[1]));
    case P_lt: return vbool(msym_decide(x[0]->n < x[1]->n));
    case P_if: return r_eval(env, x[0]->k != NIL_ ? vcar(rest) : vcar(vcdr(rest)));
    case P_when: return x[0]->k != NIL_ ? r_prog(env, rest) : NIL0;
    case P_unless: return x[0]->k == NIL_ ? r_prog(env, rest) : NIL0;
    case P_cond: {
      V v = r_eval(env, vcar(rest));
      for (rest = vcdr(rest); rest->k == PAIR_ && rest->a->k == PAIR_; rest = rest->b) {
        V p = rest->a->a;
        if (p->k == WLD_ || r_eval(env, L(p, vcons(S("quote"), v)))->k == TRU_) return r_eval(env, rest->a->b);
      }
      return NIL0;
    }
    case P_match: {
      V v = r_eval(env, vcar(rest));
      for (rest = vcdr(rest); rest->k == PAIR_ && rest->a->k == PAIR_; rest = rest->b)
        if (vmatch(rest->a->a, v)) return r_eval(env, rest->a->b);
      return NIL0;
    }
    case P_prog: return r_prog(env, rest);
    case P_stream: {
      V v = r_eval(env, vcar(rest));
      for (rest = vcdr(rest); rest->k == PAIR_; rest = rest->b) v = r_eval(env, L(rest->a, vcons(S("quote"), v)));
      return v;
    }
    case P_let: {
      C e = env;
      for (V b = vcar(rest); b->k == PAIR_ && b->a->k == PAIR_; b = b->b) e = pattern(e, b->a->a, r_eval(e, b->a->b));
      return r_prog(e, vcdr(rest));
    }
    case P_setq: {
      V v = r_eval(env, vcar(vcdr(rest)));
      if (v->k == NIL_ || vcar(rest)->k != SYM_) return v;
      V* c = cfind(glob, rest->a->s);
      if (c) *c = v; else glob = cbind(glob, rest->a->s, v);
      return v;
    }
    case P_set: {
      V y = r_eval(env, vcar(rest)), v = r_eval(env, vcar(vcdr(rest)));
      if (y->k != SYM_) return NIL0;
      V* c = cfind(env, y->s);
      if (!c) c = cfind(glob, y->s);
      if (!c) return NIL0;
      V old = *c; *c = v; return old;
    }
    case P_def: {
      V b = vcdr(vcdr(rest));
      if (vcar(b)->k == PAIR_ && vcar(vcar(b))->k == CHR_) b = vcdr(b);
      V f = vfun(LAM_, vcar(vcdr(rest)), b, 0), *c = cfind(glob, vcar(rest)->s);
      if (c) *c = f; else glob = cbind(glob, vcar(rest)->s, f);
      return vcar(rest);
    }
    case P_lambda: return vfun(LAM_, vcar(rest), vcdr(rest), env);
    case P_and: return vbool(x[0]->k != NIL_ && x[1]->k != NIL_);
    case P_or: return vbool(r_eval(env, vcar(rest))->k != NIL_ || r_eval(env, vcar(vcdr(rest)))->k != NIL_); /* the second only when needed */
    case P_not: return vbool(x[0]->k == NIL_);
    case P_eval: return r_eval(env, x[0]);
    case P_while: { V r = NIL0; while (r_eval(env, vcar(rest))->k != NIL_) r = r_prog(env, vcdr(rest)); return r; }
    case P_len: { int64_t n = 0; if (x[0]->k != PAIR_ && x[0]->k != NIL_) return NIL0; for (V p = x[0]; p->k == PAIR_; p = p->b) n++; return vnum(n); }
    case P_nilp: return vbool(x[0]->k == NIL_);
    case P_nump: return vbool(x[0]->k == NUM_);
    case P_lstp: return vbool(x[0]->k == NIL_ || x[0]->k == PAIR_);
    default: return NIL0;
  }
}
/* parameters are matched with values from the left, each value evaluated where the call is written */
static V r_apply(V f, V vals, C env) {
  V params = f->a, p = params, q = vals;
  for (; p->k == PAIR_ && q->k == PAIR_; p = p->b, q = q->b) ;
  if (q->k != NIL_ && p->k != SYM_) return NIL0; /* more values than parameters */
  C got = 0; /* this call's bindings */
  V x[4]; int n = 0;
  if (f->k == PRIM_) for (V a = f->b; a->k == PAIR_; a = a->b) x[n++] = a->a;
  while (params->k == PAIR_ && vals->k == PAIR_) {
    V v = r_eval(env, vals->a);
    if (f->k == PRIM_) x[n++] = v; else got = pattern(got, params->a, v);
    params = params->b; vals = vals->b;
  }
  V rest = NIL0;
  if (params->k == SYM_) { rest = vals; if (f->k == LAM_) got = cbind(got, params->s, vals); params = NIL0; }
  if (params->k != NIL_) { /* not saturated: wait for the others */
    if (f->k == PRIM_) { V r = vfun(PRIM_, params, vlist_(n, x), 0); r->prim = f->prim; return r; }
    return vfun(LAM_, params, f->b, cover(got, f->env));
  }
  if (f->k == PRIM_) return r_prim(f->prim, x, rest, env);
  return r_prog(cover(got, cover(f->env, env)), f->b);
}
static V r_eval(C env, V e) {
  if (++r_steps > r_limit) { msym_fail("reference: too many steps"); msym_discard(); }
  if (e->k == SYM_) { V* c = cfind(env, e->s); if (!c) c = cfind(glob, e->s); return c ? *c : NIL0; }
  if (e->k != PAIR_) return e;
  V f = r_eval(env, e->a);
  if (isfun(f)) return r_apply(f, e->b, env);
  if (f->k == PAIR_ || f->k == SYM_) { if (!vequ(e->a, f)) return r_eval(env, vcons(f, e->b)); }
  return vcons(f, e->b);
}
static void r_boot(void) {
  glob = 0;
  for (int i = 0; i < P_END; i++) {
    V p = prims[i].rest ? S("rest") : NIL0;
    for (int k = 0; k < prims[i].fixed; k++) p = vcons(S("p"), p);
    V f = vfun(PRIM_, p, NIL0, 0); f->prim = i;
    glob = cbind(glob, prims[i].name, f);
  }
}
static atom_t to_atom(lisp_t l, V v) {
  switch (v->k) {
    case TRU_: return mk_t(l);
    case WLD_: return lisp_make_wildcard(l);
    case NUM_: return mk_num(l, v->n);
    case CHR_: return lisp_make_char(l, (char)v->n);
    case SYM_: return mk_sym(l, v->s);
    case PAIR_: { atom_t a = to_atom(l, v->a), b = to_atom(l, v->b); return lisp_cons(l, a, b); }
    default: return mk_nil(l);
  }
}
static V from_atom(atom_t a) {
  switch (a->type) {
    case T_TRUE: return TRUE0;
    case T_WILDCARD: return &v_wild;
    case T_NUMBER: return vnum(a->number);
    case T_CHAR: return vchr(a->number);
    case T_SYMBOL: { char* s = malloc(17); memcpy(s, a->symbol.val, 16); s[16] = 0; return vsym(s); }
    case T_PAIR: return vcons(from_atom(CAR(a)), from_atom(CDR(a)));
    default: return NIL0;
  }
}
/* formula: the real value is the reference's (functions are compared by being functions) */
static int agrees(atom_t a, V v) {
  switch (v->k) {
    case NIL_: return a->type == T_NIL;
    case TRU_: return a->type == T_TRUE;
    case WLD_: return a->type == T_WILDCARD;
    case NUM_: return a->type == T_NUMBER ? a->number == v->n : 0;
    case CHR_: return a->type == T_CHAR ? a->number == v->n : 0;
    case SYM_: return is_sym(a, v->s);
    case PAIR_: return a->type == T_PAIR ? msym_and(agrees(CAR(a), v->a), agrees(CDR(a), v->b)) : 0;
    default: return a->type == T_PAIR;
  }
}
/* evaluate the program (a list of expressions) in both; the last values agree */
static void both(lisp_t l, V prog, const char* what) {
  atom_t nil = mk_nil(l);
  for (; prog->k == PAIR_; prog = prog->b) {
    V want = r_eval(0, prog->a);
    atom_t got = lisp_eval(l, nil, to_atom(l, prog->a));
    well_formed(got);
    CHECK(agrees(got, want), what);
    X(l, got);
  }
  X(l, nil);
}
static void check_global(lisp_t l, const char* name, const char* what) {
  atom_t nil = mk_nil(l), got = lisp_eval(l, nil, mk_sym(l, name));
  CHECK(agrees(got, r_eval(0, S(name))), what);
  X(l, got, nil);
}
static V RD(lisp_t l, const char* text) { atom_t a = parse1(l, text); V v = from_atom(a); X(l, a); return v; }
/* replace the symbols @0..@9 of a template by holes */
static V fill(V t, V* holes) {
  if (t->k == SYM_ && t->s[0] == '@') return holes[t->s[1] - '0'];
  if (t->k == PAIR_) return vcons(fill(t->a, holes), fill(t->b, holes));
  return t;
}
