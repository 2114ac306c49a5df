/* C10/C11: parameters. arg0 mode: 0 call with arg1 patterns (arg2: + catch-all) and arg3 values, pattern depth arg4;
 * 1: let with a pattern of depth arg1 and a value of depth arg2; 2: currying, arity arg1, function kind arg2 */
#include "ref.h"
static const char* names[] = { "a", "b", "c", "d", "e", "g", "h", "i", "j", "k", "m", "n", "o", "p", "q", "r" };
static int nn;
static V pat(int d) {
  int k = msym_choice(d > 0 ? 4 : 3, "pattern");
  if (k == 0) return S(names[nn++]);
  if (k == 1) return NIL0;
  if (k == 2) return &v_wild;
  V a = pat(d - 1), b = pat(d - 1);
  return vcons(a, b);
}
static V val(int d) {
  int k = msym_choice(d > 0 ? 4 : 3, "value");
  if (k == 0) return vanynum("n");
  if (k == 1) return NIL0;
  if (k == 2) return S("zz");
  V a = val(d - 1), b = val(d - 1);
  return vcons(a, b);
}
static V arg_(int kind, const char* n) { /* an argument: number, empty list or list (numbers only for + and <) */
  if (kind == 4 || kind == 5) return vanynum(n);
  int k = msym_choice(3, "argument kind");
  return k == 0 ? vanynum(n) : k == 1 ? NIL0 : L(S("quote"), vanynum(n), S("zz"));
}
static V quoted(V v) { return vcons(S("quote"), v); }
static V vars(void) { V r = NIL0; for (int i = nn; i > 0; i--) r = L(S("cons"), S(names[i - 1]), r); return r; }
static atom_t snapshot(lisp_t l, const char* name) { atom_t nil = mk_nil(l), v = lisp_eval(l, nil, mk_sym(l, name)), c = copy_of(l, v); X(l, v, nil); return c; }
void harness(void) {
  int mode = (int)msym_arg(0);
  lisp_t l = boot(M_BASE);
  r_boot();
  if (mode == 0) {
    int n = (int)msym_arg(1), rest = (int)msym_arg(2), m = (int)msym_arg(3), d = (int)msym_arg(4);
    V p[4], v[4];
    for (int i = 0; i < n; i++) p[i] = pat(d);
    for (int i = 0; i < m; i++) v[i] = quoted(val(d));
    V ps = rest ? S(names[nn++]) : NIL0;
    for (int i = n; i > 0; i--) ps = vcons(p[i - 1], ps);
    both(l, L(vcons(L(S("\\"), ps, vars()), vlist_(m, v))), "a call binds its parameters to the parts of the values they name");
    both(l, L(L(S("def"), S("fn"), ps, vars()), vcons(S("fn"), vlist_(m, v)), L(S("setq"), S("fm"), S("fn")), vcons(S("fm"), vlist_(m, v))),
         "a call binds its parameters to the parts of the values they name");
  } else if (mode == 1) {
    V p = pat((int)msym_arg(1)), v = val((int)msym_arg(2));
    both(l, L(L(S("let"), L(vcons(p, quoted(v))), vars())), "let binds the parts of the value its pattern names");
    nn = 0;
  } else {
    int n = (int)msym_arg(1), kind = (int)msym_arg(2);
    static const char* prim[] = { "cons", "+", "<", "=", "and", "if" };
    V f, ps = NIL0;
    nn = n;
    for (int i = n; i > 0; i--) ps = vcons(S(names[i - 1]), ps);
    V body = vars();
    if (kind == 0) { both(l, L(L(S("def"), S("fn"), ps, body)), "def"); f = S("fn"); }
    else if (kind == 1) f = L(S("\\"), ps, body);
    else if (kind == 2) f = L(S("let"), L(vcons(S("a"), vanynum("captured")), vcons(S("b"), vanynum("captured"))), L(S("\\"), ps, body)); /* shadowed names */
    else f = S(prim[kind - 3]);
    both(l, L(L(S("setq"), S("p0"), f)), "function value");
    static const char* ph[] = { "p0", "p1", "p2", "p3", "p4" };
    atom_t was[6]; was[0] = snapshot(l, "p0");
    /* any way to hand the arguments over in groups, inside or outside a scope that binds the same names */
    int at = 0, k = 0, got[6] = { 0 }, scope = msym_choice(2, "scope");
    while (at < n && k < 4) {
      int take = 1 + msym_choice(n - at, "take");
      V a[4]; for (int i = 0; i < take; i++) a[i] = arg_(kind, "arg");
      V call = vcons(S(ph[k]), vlist_(take, a));
      if (scope) call = L(S("let"), L(vcons(S("a"), vanynum("local")), vcons(S("c"), vanynum("local"))), call);
      at += take; k++;
      if (kind < 3 || at < n) both(l, L(L(S("setq"), S(ph[k]), call)), "a partial application waits for the remaining arguments");
      else both(l, L(call), "a partial application completed gives what the full call gives");
      if (kind < 3 || at < n) was[k] = snapshot(l, ph[k]);
      got[k] = at;
    }
    /* every intermediate function can be used again, and has not been changed by the first use */
    for (int i = k - 1; i >= 0; i--) {
      V a[4]; int m = n - got[i]; for (int j = 0; j < m; j++) a[j] = arg_(i == 0 ? 4 : kind, "again");
      both(l, L(vcons(S(ph[i]), vlist_(m, a))), "a partial application can be completed again with other arguments");
    }
    for (int i = 0; i < k; i++) {
      atom_t now = snapshot(l, ph[i]);
      CHECK(same_expr(was[i], now), "completing a partial application does not change it");
      X(l, now);
    }
    for (int i = 0; i < k; i++) X(l, was[i]);
    if (kind < 3) X(l, was[k]);
    both(l, L(vcons(S("p0"), L(vnum(1), vnum(2), vnum(3), vnum(4), vnum(5)))), "too many arguments give NIL");
  }
  shutdown_ctx(l, "binding leaks atoms");
  msym_reach("end");
}
