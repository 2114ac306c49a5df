/* C07: arithmetic and comparisons over all pairs of 64-bit numbers. arg0 selects the operator. */
#include "lib.h"

void harness(void) {
  static const char* prog[] = { "(+ A B)", "(- A B)", "(* A B)", "(/ A B)", "(% A B)", "(< A B)", "(<= A B)", "(> A B)", "(>= A B)" };
  int op = (int)msym_arg(0);
  lisp_t l = boot(M_STD | M_MATH);
  int64_t a, b;
  msym_make(&a, 8, "a");
  msym_make(&b, 8, "b");
  set_global(l, "A", mk_num(l, a));
  set_global(l, "B", mk_num(l, b));
  atom_t r = eval_text(l, prog[op]);
  uint64_t ua = (uint64_t)a, ub = (uint64_t)b;
  if (op < 5) {
    int div0 = 0, dovf = 0;
    if (op >= 3) {
      div0 = msym_decide(b == 0);
      dovf = !div0 && msym_decide(msym_and(a == INT64_MIN, b == -1));
    }
    if (div0) CHECK(r->type == T_NIL, "division by zero yields NIL");
    else {
      CHECK(r->type == T_NUMBER, "arithmetic on numbers yields a number");
      int64_t e = 0;
      switch (op) {
        case 0: e = (int64_t)(ua + ub); break;
        case 1: e = (int64_t)(ua - ub); break;
        case 2: e = (int64_t)(ua * ub); break;
        case 3: e = dovf ? INT64_MIN : a / b; break;
        case 4: e = dovf ? 0 : a % b; break;
      }
      CHECK(r->number == e, "arithmetic result is the exact 64-bit result");
    }
  } else {
    int e = 0;
    switch (op) {
      case 5: e = a < b; break;
      case 6: e = a <= b; break;
      case 7: e = a > b; break;
      case 8: e = a >= b; break;
    }
    int t = r->type == T_TRUE;
    CHECK(r->type == T_TRUE || r->type == T_NIL, "comparison yields T or NIL");
    CHECK((t && e) || (!t && !e), "comparison agrees with the order of the integers");
  }
  drop(l, r);
  shutdown_ctx(l, "atoms are leaked by an arithmetic expression");
  msym_reach("end");
}
