/* C09/C11/C12/C13: whole programs, evaluated by the real code and by the reference interpreter of ref.h.
 * arg0: template, arg1: budget of operators in the first hole, arg2: in the second, arg3: in the third, arg4: extra */
#include "ref.h"
static V T_(lisp_t l, const char* t) { atom_t a = parse_all(l, t, strlen(t)); V v = from_atom(a); X(l, a); return v; }
static int have_f;
static const char* var(void) { return msym_choice(2, "var") ? "y" : "x"; }
/* an expression denoting a number, at most *b operators, over x, y and (when defined) f */
static V num(int* b) {
  int k = *b > 0 ? msym_choice(have_f ? 14 : 13, "expr") : msym_choice(3, "leaf");
  if (k > 2) (*b)--;
  V p, q, r;
  switch (k) {
    case 0: return vanynum("n");
    case 1: return S("x");
    case 2: return S("y");
    case 3: p = num(b); q = num(b); return L(S("+"), p, q);
    case 4: p = num(b); q = num(b); return L(S("if"), L(S("<"), p, vanynum("n")), q, S("x"));
    case 5: { const char* s = var(); p = num(b); q = num(b); return L(S("let"), L(vcons(S(s), p)), q); }
    case 6: { const char* s = var(); p = num(b); q = num(b); return L(L(S("\\"), L(S(s)), q), p); }
    case 7: { const char* s = var(); p = num(b); q = num(b); return L(S("prog"), L(S("setq"), S(s), p), q); }
    case 8: { const char* s = var(); p = num(b); q = num(b); return L(S("prog"), L(S("<-"), vcons(S("quote"), S(s)), p), q); }
    case 9: { p = num(b); q = num(b); r = num(b); return L(L(L(S("\\"), L(S("x"), S("y")), r), p), q); } /* curried */
    case 10: p = num(b); q = num(b); return L(S("car"), L(S("cdr"), L(S("cons"), p, L(S("cons"), q, &v_nil))));
    case 11: { p = num(b); q = num(b); return L(S("let"), L(vcons(vcons(S("y"), S("x")), L(S("cons"), p, S("x")))), q); } /* deconstruction */
    case 12: p = num(b); return L(S("eval"), L(S("quote"), S("+"), p, S("y")));
    default: p = num(b); return L(S("f"), p);
  }
}
static const char* templates[] = {
  /* 0 */ "@0",
  /* 1 */ "(def f (x) @0) (f @1)",
  /* 2 call-site visibility */ "(def f (x) @0) (let ((y . @1)) (f y))",
  /* 3 captured bindings win over the call site */ "(let ((y . @2) (h . (\\ (x) @0))) (let ((y . @1)) (h y)))",
  /* 4 state kept in a closure */ "(setq c (let ((y . @2)) (\\ (x) (prog (<- 'y (+ y x)) @0)))) (c @1) (c 5) (c 7)",
  /* 5 partial application keeps its arguments */ "(def g (x y) @0) (setq h (g @1)) (setq x 77) (h @2) (h 3)",
  /* 6 recursion in tail position */ "(def f (x y) (if (< x 1) @0 (f (- x 1) @1))) (f @9 y)",
  /* 7 not in tail position */ "(def f (x y) (if (< x 1) @0 (+ y (f (- x 1) @1)))) (f @9 y)",
  /* 8 tails of every construct */ "(def f (x y) @8) (f @9 y)",
  /* 9 redefinition */ "(def f (x) @0) (def g (x) (f x)) (g 1) (def f (x) @1) (g 2)",
  /* 10 local recursive function */ "(let ((h . (\\ (x y) (if (< x 1) @0 (h (- x 1) @1))))) (h @9 y))",
  /* 11 a function made by a function */ "(def mk (x) (\\ (y) @0)) (setq a (mk @1)) (setq b (mk 2)) (a @2) (b 4) (a 5)",
  /* 12 higher order */ "(def ap (x y) (x y)) (def f (x) @0) (ap f @1) (ap (\\ (y) @2) 3)",
  /* 13 mutation through two closures sharing a cell */
  "(setq p (let ((y . @2)) (cons (\\ (x) (prog (<- 'y x) @0)) (\\ (x) @1)))) (setq s (car p)) (setq g (cdr p)) (s 11) (g 1) (s 12) (g 2)",
  /* 14 mutual recursion */ "(def od (x y) (if (< x 1) @0 (ev (- x 1) @1))) (def ev (x y) (if (< x 1) y (od (- x 1) y))) (ev @9 y) (od @9 y)",
  /* 15 the called name is rebound while it runs */ "(def f (x y) (if (< x 1) @0 (prog (def f (x y) (cons x (cons @1 y))) (f (- x 1) y)))) (f 2 y)",
  /* 16.. assignment of any value to a variable that holds any value, wherever it is bound */
  "(def f (x) (cons (<- 'x @7) x)) (f @6) x",
  "(let ((x . @6)) (cons (<- 'x @7) x)) x",
  "(setq c (let ((x . @6)) (\\ (v) (cons (<- 'x v) x)))) (c @7) (c 5) x",
  "(setq x @6) (cons (<- 'x @7) x) (def g () x) (g) (cons (<- 'x 5) (g))",
  "(let ((h . (\\ (v) (cons (<- 'x v) x)))) (let ((x . @6)) (cons (h @7) x))) x",
  "(setq x @6) (cons (setq x @7) x) (def g (x) (cons (setq x @6) x)) (g @7) x",
  /* 22.. arguments are evaluated once, from left to right (t keeps the order of its calls in o) */
  "(setq o 1) (def t (n) (prog (<- 'o (+ (* o 10) n)) n)) (def f (x y z) (cons x (cons y z))) @8 o",
  /* 23.. functions that share a body call one another last: each has its own captured values */
  "(def mk (y) (let ((g . (\\ (n) (if (< n 1) @0 (g (- n 1)))))) g)) (let ((h . (mk @1)) (g . (mk @2))) (h @9))",
  "(def mk (y) (\\ (n) (if (< n 1) @0 (g (- n 1))))) (setq g (mk @1)) (setq h (mk @2)) (h @9) (setq g (let ((x . 5)) (\\ (n) (g2 n)))) (setq g2 (mk 3)) (h @9)",
  /* 25.. a tail call through a name that is bound to another function: it sees the bindings of its caller */
  "(def g (x y) (if (< x 1) @0 (g (- x 1) @1))) (let ((h . g) (g . (\\ (a b) (cons x (cons @2 (cons a b)))))) (h @9 8))",
  "(def g (x y) (if (< x 1) @0 (g (- x 1) @1))) (let ((h . (g @9)) (g . (\\ (y) (\\ (a) (cons x (cons @2 y)))))) (h 8))",
  /* 27 code that found a name among the globals finds it in the scope of a later caller, and the reverse */
  "(setq x @6) (def f () (cons x y)) (def g (x) (f)) (cons (f) (cons (g @7) (cons (let ((y . @6)) (f)) (f))))",
  "(def f () (cons x y)) (def g (x) (f)) (cons (g @7) (cons (f) (prog (setq x @6) (cons (let ((y . @7)) (f)) (prog (<- 'y @6) (cons (f) (let ((x . 4)) (prog (<- 'x 5) (f)))))))))",
  /* 29 calls whose head is anything */
  "(def f () 5) (def h (a) (cons a x)) (def k a (cons y a)) (setq g 'f) (setq i 'h) (setq j 'g) (setq m '(f)) (cons @8 1) (let ((y . 4) (f . h)) (cons @8 2)) @8",
};
static const char* heads[] = { "(g)", "(i y)", "(j)", "((car '(f)))", "('f)", "((if (< x 0) 'h '+) x 3)", "((if (< x 0) h +) x 3)", "((car (list h)) y)",
  "((eval 'h) 5)", "(m)", "(m y)", "((list 'h) y)", "('(1 2) y)", "(x)", "(x y)", "((+ x y) 4)", "(NIL)", "(NIL y)", "(zz)", "(zz y)", "((f) y)", "(\"ab\" y)",
  "(T y)", "(k)", "('k x y)", "((f))", "('g)", "((j) 2)", "((car (cons h 1)) 5)", "('zz y)", "((h 1) y)", "((quote h) (f))", "(_ 1)", "(i)", "((i) y)", "(('i) y)" };
/* calls for template 22 */
static const char* orders[] = { "(list (t 1) (t 2) (t 3))", "(list (t 1) (list (t 2) (t 3)) (t 4))", "(cons (t 1) (t 2))", "(- (t 1) (t 2))", "(= (t 1) (t 2))",
  "(f (t 1) (t 2) (t 3))", "((f (t 1)) (t 2) (t 3))", "((\\ (a b) (cons b a)) (t 1) (t 2))", "(let ((a . (t 1)) (b . (t 2))) (t 3))", "(and (t 1) (t 2))",
  "(or (t 1) (t 2))", "(or NIL (t 2))", "(<- (prog (t 1) 'x) (t 2))", "(prog (t 1) (t 2) (t 3))", "(|> (t 1) (+ (t 2)) (cons (t 3)))",
  "(list (f (t 1) (t 2)) (t 3))", "(f (list (t 1) (t 2)) (t 3) (+ (t 4) (t 5)))", "((f (t 1) (t 2)) (t 3))", "(list (t 1) . (t 2))" };
static V any_val(int d) {
  switch (msym_choice(d > 0 ? 7 : 6, "value")) {
    case 0: return NIL0;
    case 1: return TRUE0;
    case 2: return vanynum("n");
    case 3: { char c; msym_make(&c, 1, "c"); return vchr(c); }
    case 4: return S("zz");
    case 5: return &v_wild;
    default: { V a = any_val(d - 1), b = any_val(d - 1); return vcons(a, b); }
  }
}
static int uses(V t, char d) {
  if (t->k == SYM_) return t->s[0] == '@' && t->s[1] == d;
  return t->k == PAIR_ && (uses(t->a, d) || uses(t->b, d));
}
/* a body for template 8: the self call in the tail (or not) of any control construct */
static V rec_body(lisp_t l) {
  static const char* bodies[] = {
    "(cond (- x 1) ((< 0) . (f (- x 1) @1)) (_ . @0))", "(match (< x 1) (T . @0) (_ . (f (- x 1) @1)))",
    "(when (< 0 x) @1 (f (- x 1) @1))", "(unless (< x 1) @1 (f (- x 1) @1))", "(prog @1 (if (< x 1) @0 (prog y (f (- x 1) @1))))",
    "(when (< 0 x) (f (- x 1) @1) @0)", "(unless (< x 1) (f (- x 1) @1) @0)", "(prog (if (< x 1) 1 (f (- x 1) @1)) @0)",
    "(if (if (< x 1) NIL (f (- x 1) @1)) @0 x)", "(match (if (< x 1) 0 (f (- x 1) @1)) (0 . @0) (_ . y))",
    "(let ((x . (- x 1))) (if (< x 0) @0 (f x @1)))", "(if (< x 1) (cons @0 NIL) (cons y (f (- x 1) @1)))",
    "(if (< x 1) @0 (|> (f (- x 1) @1) list))", "(cond (if (< x 1) 0 (f (- x 1) @1)) ((= 0) . @0) (_ . x))",
    "(if (< x 1) @0 (|> (- x 1) (\\ (x) (f x @1))))", "(prog (if (< x 1) @0 (f (- x 1) @1)))",
    "(if (< x 1) f ((f (- x 1)) @1))", "(if (< x 1) @0 (when (< 0 y) (f (- x 1) @1)))", "(if (< x 1) '(f 1 2) (f (- x 1) @1))",
    "(if (< x 1) @0 (f (- x 1) (f (- x 1) @1)))" };
  return RD(l, bodies[msym_arg(4)]);
}
void harness(void) {
  int t = (int)msym_arg(0);
  lisp_t l = boot(M_BASE);
  r_boot();
  V prog = T_(l, templates[t]);
  size_t live0 = live_atoms(l);
  V h[10] = { 0 };
  both(l, L(L(S("setq"), S("x"), vanynum("x")), L(S("setq"), S("y"), vanynum("y"))), "setq");
  if (t == 8) prog = fill(prog, (V[10]){ S("@0"), S("@1"), S("@2"), S("@3"), S("@4"), S("@5"), S("@6"), S("@7"), rec_body(l), S("@9") });
  if (t == 22) { V d = RD(l, orders[msym_arg(4)]); prog = fill(prog, (V[10]){ S("@0"), S("@1"), S("@2"), S("@3"), S("@4"), S("@5"), S("@6"), S("@7"), d, S("@9") }); }
  if (t == 29) { V d = RD(l, heads[msym_choice(36, "head")]); prog = fill(prog, (V[10]){ S("@0"), S("@1"), S("@2"), S("@3"), S("@4"), S("@5"), S("@6"), S("@7"), d, S("@9") }); }
  for (int i = 0; i < 3; i++) if (uses(prog, '0' + i)) { int b = (int)msym_arg(1 + i); have_f = i > 0 && (t == 1 || t == 2 || t == 12); h[i] = num(&b); }
  for (int i = 6; i < 8; i++) if (uses(prog, '0' + i)) h[i] = vcons(S("quote"), any_val((int)msym_arg(i - 5)));
  if (uses(prog, '9')) h[9] = vnum((int64_t)msym_choice(4, "iterations"));
  prog = fill(prog, h);
  both(l, prog, "the program yields the value the language defines");
  check_global(l, "x", "the program leaves the global x as the language defines");
  check_global(l, "y", "the program leaves the global y as the language defines");
  if (t == 22) check_global(l, "o", "arguments are evaluated once, from left to right");
  (void)live0;
  shutdown_ctx(l, "evaluation leaks atoms");
  msym_reach("end");
}
