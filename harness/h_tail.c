/* C12: a loop written as a self call in tail position runs in stack and memory that do not depend on the
 * number of iterations, and yields what the reference interpreter yields. arg0: construct, arg1: kind of function */
#include "ref.h"
static const char* bodies[] = {
  "(if (< n 1) acc (fn (- n 1) (+ acc x)))", "(if (< 0 n) (fn (- n 1) (+ acc x)) acc)",
  "(cond n ((< 0) . (fn (- n 1) (+ acc x))) (_ . acc))", "(cond n ((= 0) . acc) (_ . (fn (- n 1) (+ acc x))))",
  "(match n (0 . acc) (_ . (fn (- n 1) (+ acc x))))", "(match (< 0 n) (T . (fn (- n 1) (+ acc x))) (NIL . acc))",
  "(when (< 0 n) x (fn (- n 1) (+ acc x)))", "(unless (< n 1) x (fn (- n 1) (+ acc x)))",
  "(prog x (if (< n 1) acc (prog x (fn (- n 1) (+ acc x)))))", "(if (< n 1) acc (when (< 0 n) (fn (- n 1) (+ acc x))))",
  "(if (< n 1) acc (match acc (_ . (prog x (fn (- n 1) (+ acc x))))))", "(unless (< n 1) (cond acc (_ . (if n (fn (- n 1) (+ acc x)) 1))))" };
static const char* defs[] = { "(def fn (n acc) @0)", "(def fn (n acc) x @0)", "(def fn (n . (acc)) \"doc\" @0)", "(def fn ((n) acc) @0)" };
static void measure(lisp_t l, V prog, size_t* live, size_t* stack, const char* what) {
  V want = r_eval(0, prog);
  atom_t e = to_atom(l, prog), nil = mk_nil(l);
  peak_reset();
  atom_t got = lisp_eval(l, nil, e);
  *live = peak_live; *stack = peak_stack;
  CHECK(agrees(got, want), what);
  X(l, got, nil);
}
void harness(void) {
  int b = (int)msym_arg(0), kind = (int)msym_arg(1);
  lisp_t l = boot(M_BASE);
  r_boot();
  r_limit = 100000;
  V body = RD(l, bodies[b]), acc = vanynum("acc");
  both(l, L(L(S("setq"), S("x"), vanynum("x"))), "setq");
  V calls[2];
  for (int i = 0; i < 2; i++) {
    V n = vnum(i ? 41 : 6);
    if (kind < 3) {
      V d = fill(RD(l, defs[kind]), (V[10]){ body });
      if (!i) both(l, L(d), "def");
      calls[i] = L(S("fn"), n, acc);
    } else if (kind == 3) calls[i] = L(S("let"), L(vcons(S("fn"), L(S("\\"), L(S("n"), S("acc")), body))), L(S("fn"), n, acc)); /* local function */
    else { /* inside a scope with bindings, through another function */
      if (!i) both(l, L(fill(RD(l, defs[0]), (V[10]){ body }), RD(l, "(def start (n acc) (let ((z . 3) (y . 4)) (fn n acc)))")), "def");
      calls[i] = L(S("start"), n, acc);
    }
  }
  size_t live[2], stack[2];
  for (int i = 0; i < 2; i++) measure(l, calls[i], &live[i], &stack[i], "a tail call yields what the call yields");
  CHECK(stack[1] == stack[0], "a loop by tail calls does not deepen the stack with the number of iterations");
  CHECK(live[1] <= live[0] + 2, "a loop by tail calls does not hold more memory with the number of iterations");
  shutdown_ctx(l, "tail calls leak atoms");
  msym_reach("end");
}
