/* C04: = and <> decide structural equality. arg0: mode, arg1: depth */
#include "lib.h"
static atom_t mutant(lisp_t l, atom_t a, int* left) { /* copy, with at most one place replaced by any leaf */
  if (*left && msym_choice(2, "here")) { (*left)--; return any_leaf(l, "m"); }
  if (a->type == T_PAIR) { atom_t x = mutant(l, CAR(a), left), y = mutant(l, CDR(a), left); return lisp_cons(l, x, y); }
  return copy_of(l, a);
}
static atom_t spine(lisp_t l, int n, int k) { /* a list of n elements of the same kind with free payloads, proper or dotted */
  atom_t r = msym_choice(2, "proper") ? mk_nil(l) : sym_num(l, "tail");
  for (int i = 0; i < n; i++) r = lisp_cons(l, k == 0 ? sym_num(l, "n") : k == 1 ? sym_char(l, "c") : sym_sym(l, "s", 3), r);
  return r;
}
void harness(void) {
  int mode = (int)msym_arg(0), d = (int)msym_arg(1);
  lisp_t l = boot(M_STD | M_LOGIC);
  atom_t a, b;
  if (mode == 0) { a = any_value(l, d, "a"); b = any_value(l, d, "b"); }
  else if (mode == 1) { int left = 1; a = any_value(l, d, "a"); b = mutant(l, a, &left); }
  else if (mode == 2) { /* symbols of 1..16 free characters */
    union symbol s, t; memset(&s, 0, 16); memset(&t, 0, 16);
    msym_make(s.val, 16, "s"); msym_make(t.val, 16, "t");
    a = lisp_make_symbol(l, &s); b = lisp_make_symbol(l, &t);
  } else { a = spine(l, d, mode - 3); b = spine(l, msym_choice(2, "same length") ? d : d - 1, mode - 3); }
  int e = same_expr(a, b);
  set_global(l, "A", UP(a)); set_global(l, "B", UP(b));
  static const char* prog[] = { "(= A B)", "(= B A)", "(<> A B)", "(<> B A)" };
  for (int i = 0; i < 4; i++) {
    atom_t r = eval_text(l, prog[i]);
    CHECK(r->type == T_TRUE || r->type == T_NIL, "comparison yields T or NIL");
    int t = r->type == T_TRUE;
    if (i < 2) CHECK(t ? e : !e, "= holds exactly when the two values are structurally the same");
    else CHECK(t ? !e : e, "<> holds exactly when the two values differ");
    drop(l, r);
  }
  atom_t q = eval_text(l, "(= A A)");
  CHECK(q->type == T_TRUE, "every value is equal to itself");
  drop(l, q);
  CHECK(lisp_equ(a, b) ? e : !e, "the same holds of values used by the evaluator");
  drop(l, a); drop(l, b);
  shutdown_ctx(l, "atoms are leaked by a comparison");
  msym_reach("end");
}
