/* C21: the transpiled modules do what the scripts they are made from do, and keep no memory.
 * arg0: function, arg1: kind of the function argument or size, arg2: depth of the data */
#include "share_fs.h"

static const char* fn[] = { "foldl", "foldr", "map", "map2", "zip",                                   /* 0 */
                            "assoc", "caar", "cddr", "cadar", "caddr", "cadr", "cdar", "last", "rep", "truncl",            /* 5 */
                            /* of the harness's own module: N number, A value, L list, F and G functions of two values and of one */
                            "x_add", "x_ite", "x_fib", "x_cons", "x_when", "x_unless", "x_conc", "x_fun", "x_and", "x_or",  /* 15 */
                            "x_equ", "x_call", "x_twice", "x_deep", "x_swap", "x_rev", "x_both", "x_three", "x_nest", "x_neq", "x_neqa",
                            "x_eqn", "x_if2", "x_when2", "x_pass", "x_lit", "x_name" };                        /* 25 */
static const char* sig[] = { "NN", "NNN", "n", "AA", "A", "A", "GLA", "FAA", "NN", "NN", "AA", "A", "GA", "AA", "AA", "AA", "GGA", "AA", "GAA", "NN", "AA", "NNN", "GAA", "AA", "FA", "FA", "A" };
enum { LIB = 15, ALL = 42 };
/* function arguments of two values, then of one */
static const char* fun2[] = { "cons", "(\\ (x y) (prog (setq H (cons x H)) (list y x)))", "(\\ (x y) (map2 cons x y))", "(\\ (x y) (foldr cons x y))", "(h3 7)", "g2",
                              "(\\ (x y) (foldl list y x))", "(\\ (x y) NIL)", "(\\ (x y) (assoc x y))" };
static const char* fun1[] = { "list", "(\\ (x) (prog (setq H (cons x H)) x))", "(\\ (x) (map car x))", "(cons 5)", "(h3 7 8)", "g1", "(\\ (x) (foldr cons x x))", "(\\ (x) NIL)", "(\\ (x) (last x))" };

static atom_t q(lisp_t l, atom_t v) { return lisp_cons(l, lisp_make_quote(l), v); }

/* lists, lists that are not, and things that are no lists */
static atom_t data(lisp_t l, int max, int d, const char* name) {
  int n = (int)msym_choice(max + 1, name);
  atom_t r = n > 0 && msym_choice(2, "dotted") ? sym_num(l, name) : mk_nil(l);
  if (n == 0 && msym_choice(2, "atom")) { X(l, r); r = sym_num(l, name); }
  for (int i = 0; i < n; i++) {
    atom_t e;
    if (d == 0) e = msym_choice(2, "element") ? sym_num(l, name) : mk_nil(l);
    else switch (msym_choice(4, "element")) {
      case 0: e = sym_num(l, name); break;
      case 1: e = mk_nil(l); break;
      case 2: e = mk_list(l, 1, sym_num(l, name)); break;
      default: e = lisp_cons(l, sym_num(l, name), sym_num(l, name));
    }
    r = lisp_cons(l, e, r);
  }
  return r;
}

void harness(void) {
  int f = (int)msym_arg(0), k = (int)msym_arg(1), d = (int)msym_arg(2), max = (int)msym_arg(3);
  lisp_t l = boot_share();
  lib_load(l, "iterators");
  lib_load(l, "manips");
  run_text(l, "(def g2 (x y) (list x y)) (def g1 (x) (cons x x)) (def h3 (k x y) (list k x y)) (setq z 3)");
  lib_load(l, "extra");
  atom_t compiled[ALL], script[ALL];
  for (int i = 0; i < ALL; i++) script[i] = eval_text(l, fn[i]);
  drop(l, module_load(l, lisp_cons(l, mk_sym(l, "iterators"), mk_t(l))));
  drop(l, module_load(l, lisp_cons(l, mk_sym(l, "manips"), mk_t(l))));
  drop(l, module_load(l, lisp_cons(l, mk_sym(l, "extra"), mk_t(l))));
  for (int i = 0; i < ALL; i++) { compiled[i] = eval_text(l, fn[i]); CHECK(IS_NUMB(CDR(CDR(compiled[i]))), "the module provides the function"); set_global(l, fn[i], script[i]); }
  atom_t a[4]; int n = 0;
  a[n++] = mk_sym(l, fn[f]);
  if (f >= LIB)
    for (const char* s = sig[f - LIB]; *s; s++)
      switch (*s) {
        case 'N': a[n++] = sym_num(l, "number"); break;
        case 'n': { atom_t c = sym_num(l, "number"); msym_assume(c->number <= max); a[n++] = c; break; }
        case 'A': a[n++] = q(l, data(l, max, d, "value")); break;
        case 'L': { atom_t v = data(l, max, d, "list"); msym_assume(IS_PAIR(v) || IS_NULL(v)); a[n++] = q(l, v); break; }
        case 'F': a[n++] = parse1(l, fun2[k]); break;
        case 'G': a[n++] = parse1(l, fun1[k]); break;
      }
  else switch (f) {
    case 0: a[n++] = parse1(l, fun2[k]); a[n++] = q(l, data(l, 1, d, "acc")); a[n++] = q(l, data(l, max, d, "list")); break;
    case 1: a[n++] = parse1(l, fun2[k]); a[n++] = q(l, data(l, max, d, "list")); a[n++] = q(l, data(l, 1, d, "acc")); break;
    case 2: a[n++] = parse1(l, fun1[k]); a[n++] = q(l, data(l, max, d, "list")); break;
    case 3: a[n++] = parse1(l, fun2[k]); a[n++] = q(l, data(l, max, d, "list1")); a[n++] = q(l, data(l, max, d, "list2")); break;
    case 4: a[n++] = q(l, data(l, max, d, "list1")); a[n++] = q(l, data(l, max, d, "list2")); break;
    case 5: a[n++] = q(l, data(l, 0, d, "key")); a[n++] = q(l, data(l, max, d, "list")); break;
    case 13: { atom_t c = sym_num(l, "count"); msym_assume(c->number <= max); a[n++] = c; a[n++] = q(l, data(l, 1, d, "value")); break; }
    case 14: { atom_t c = sym_num(l, "count"); msym_assume(c->number <= max + 1); a[n++] = c; a[n++] = q(l, data(l, max, d, "list")); break; }
    default: a[n++] = q(l, any_value(l, d, "value")); break;
  }
  atom_t e = mk_list_(l, n, a), nil = mk_nil(l);
  set_global(l, "H", mk_num(l, 0)); /* a record of the calls of the function argument */
  atom_t r1 = lisp_eval(l, nil, UP(e));
  atom_t h1 = eval_text(l, "H");
  /* the same with the compiled functions */
  for (int i = 0; i < ALL; i++) set_global(l, fn[i], compiled[i]);
  set_global(l, "H", mk_num(l, 0));
  int64_t h = msym_heap_live();
  atom_t r2 = lisp_eval(l, nil, UP(e));
  CHECK(msym_heap_live() == h, "the compiled function releases its closures");
  atom_t h2 = eval_text(l, "H");
  well_formed(r2);
  CHECK(same_expr(r1, r2), "the compiled function yields what the script yields");
  CHECK(same_expr(h1, h2), "the compiled function calls its argument with the same values in the same order");
  X(l, h1, h2);
  X(l, nil, e, r1, r2);
  io_down(l);
  shutdown_ctx(l, "the compiled functions release every atom");
  msym_reach("end");
}
