/* C13 (and C08): control forms and predicates against the reference, with effects logged. arg0: mode */
#include "ref.h"
static V val(int d) {
  int k = msym_choice(d > 0 ? 7 : 6, "value");
  switch (k) {
    case 0: return NIL0;
    case 1: return TRUE0;
    case 2: return vanynum("n");
    case 3: { char c; msym_make(&c, 1, "c"); return vchr(c); }
    case 4: return S("zz");
    case 5: return &v_wild;
    default: { V a = val(d - 1), b = val(d - 1); return vcons(a, b); }
  }
}
static int kinds = 6;
static V small(int d) { /* patterns and subjects for match */
  int k = msym_choice(d > 0 ? kinds + 1 : kinds, "part");
  switch (k == kinds ? 6 : k) {
    case 0: return vanynum("n");
    case 1: return NIL0;
    case 2: return S("zz");
    case 3: return &v_wild;
    case 4: return TRUE0;
    case 5: { char c; msym_make(&c, 1, "c"); return vchr(c); }
    default: { V a = small(d - 1), b = small(d - 1); return vcons(a, b); }
  }
}
static V Q(V v) { return vcons(S("quote"), v); }
static V eff(int k, V v) { return L(S("eff"), vnum(k), v); }
static void log_same(lisp_t l) { check_global(l, "log", "the effects happen, in the order the language defines"); }
static V pred(int which) {
  switch (which) {
    case 0: return S("nil?");
    case 1: return S("num?");
    case 2: return L(S("="), vanynum("n"));
    case 3: return L(S("\\"), L(S("v")), eff(50, L(S("="), S("v"), vanynum("n"))));
    case 4: return &v_wild;
    default: return L(S("\\"), L(S("v")), eff(51, S("v"))); /* a result that is not T does not count */
  }
}
static V fun(int which) {
  switch (which) {
    case 0: return S("list");
    case 1: return L(S("eff"), vnum(60));
    case 2: return L(S("\\"), L(S("v")), eff(61, L(S("cons"), S("v"), S("v"))));
    case 3: return S("car");
    default: return L(S("cons"), vanynum("n"));
  }
}
void harness(void) {
  int mode = (int)msym_arg(0), a1 = (int)msym_arg(1), a2 = (int)msym_arg(2);
  lisp_t l = boot(M_BASE);
  r_boot();
  both(l, L(RD(l, "(setq log '(0))"), RD(l, "(def eff (k v) (setq log (cons k log)) v)")), "setup");
  if (mode == 0) { /* a1: form, a2: number of bodies */
    static const char* f[] = { "if", "when", "unless" };
    V b[4];
    for (int i = 0; i < a2; i++) b[i] = eff(i + 1, Q(val(0)));
    both(l, L(vcons(S(f[a1]), vcons(eff(9, Q(val(1))), vlist_(a2, b)))), "a conditional evaluates the branch its condition selects");
  } else if (mode == 1) { /* a1: depth of the subject, a2: depth of the first pattern */
    if (a1 + a2 > 2) kinds = 4;
    V v = small(a1), p = small(a2);
    V q = msym_choice(2, "second") ? &v_wild : vanynum("n");
    both(l, L(L(S("match"), eff(1, Q(v)), vcons(p, eff(2, vnum(20))), vcons(q, eff(3, vnum(30))))), "match takes the first clause whose pattern matches");
  } else if (mode == 2) { /* a1: number of clauses, a2: depth of the subject */
    V c[3];
    for (int i = 0; i < a1; i++) c[i] = vcons(pred(msym_choice(6, "predicate")), eff(i + 1, vnum(i + 20)));
    both(l, L(vcons(S("cond"), vcons(eff(9, Q(val(a2))), vlist_(a1, c)))), "cond takes the first clause whose predicate is T for the subject, evaluated once");
  } else if (mode == 3) {
    V c[4];
    for (int i = 0; i < a1; i++) c[i] = a2 ? fun(msym_choice(5, "function")) : eff(i, Q(val(1)));
    if (a2) both(l, L(vcons(S("|>"), vcons(eff(9, Q(val(1))), vlist_(a1, c)))), "a stream hands each value to the next function");
    else both(l, L(vcons(S("prog"), vlist_(a1, c))), "prog evaluates its expressions in order and yields the last");
  } else if (mode == 4) { /* while */
    V n = vanynum("n");
    msym_assume(msym_and(n->n >= -2, n->n <= 3));
    both(l, L(L(S("setq"), S("i"), n), fill(RD(l, a1 ? "(let ((i . i)) (while (eff 8 (< 0 i)) (eff i 1) (<- 'i (- i 1)) @0))" : "(while (< 0 i) (setq i (- i 1)) (eff i i) @0)"),
              (V[10]){ Q(val(0)) })), "while repeats its body as long as its condition holds and yields the last value");
    check_global(l, "i", "the loop leaves its variable as the language defines");
  } else if (mode == 5) { /* and, or, not, =, <> on any two values */
    static const char* f[] = { "and", "or", "not", "=" };
    V x = eff(1, Q(val(a2))), y = eff(2, Q(val(a2)));
    both(l, L(a1 == 2 ? L(S("not"), x) : L(S(f[a1]), x, y)), "a logical operator follows its truth table");
  } else { /* predicates: exactly T or NIL, by the kind of the value */
    static const char* f[] = { "atm?", "chr?", "lst?", "nil?", "num?", "str?", "sym?", "tru?" };
    V v = val(2);
    int str = 0; { V p = v; while (p->k == PAIR_ && p->a->k == CHR_) p = p->b; str = p->k == NIL_; }
    int want = 0;
    switch (a1) {
      case 0: want = v->k != PAIR_ && v->k != NIL_; break;
      case 1: want = v->k == CHR_; break;
      case 2: want = v->k == PAIR_ || v->k == NIL_; break;
      case 3: want = v->k == NIL_; break;
      case 4: want = v->k == NUM_; break;
      case 5: want = str; break;
      case 6: want = v->k == SYM_; break;
      case 7: want = v->k == TRU_; break;
    }
    atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, L(S(f[a1]), Q(v))));
    CHECK(want ? r->type == T_TRUE : r->type == T_NIL, "a predicate tells the kind of every value");
    X(l, r, nil);
  }
  log_same(l);
  shutdown_ctx(l, "control forms leak atoms");
  msym_reach("end");
}
