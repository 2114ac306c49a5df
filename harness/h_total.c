/* C02: every primitive of std, logic and math applied to any argument list within the bounds is memory
 * safe, yields a well-formed value, and returns every atom. arg0: primitive, arg1: number of arguments. */
#include "lib.h"

static const char* fn[] = { "car", "cdr", "cons", "conc", "list", "len", "chr", "str", "sym", "eval",        /* 0 */
                            "quote", "prog", "if", "when", "unless", "cond", "match", "let", "def", "setq",  /* 10 */
                            "<-", "\\", "|>", "atm?", "chr?", "lst?", "nil?", "num?", "str?", "sym?",         /* 20 */
                            "tru?", "and", "or", "not", "=", "<>", "<", "<=", ">", ">=",                       /* 30 */
                            "+", "-", "*", "prin", "prinl", "print", "printl", "read", "readline", "in",      /* 40 */
                            "out", "slabinfo", "time", "accept", "close", "connect", "dup", "fork", "listen", "pipe", /* 50 */
                            "select", "unlink", "wait", "load", "quit", "env", "/", "%", "exec" };             /* 60 */

static int hook(const char* name, long a0, long a1, long a2, long* ret) { /* the system refuses every descriptor that is not open */
  (void)a1; (void)a2;
  if (strcmp(name, "close") == 0 || strcmp(name, "dup") == 0 || strcmp(name, "dup2") == 0) { if (a0 >= 0 && a0 < 3) return 0; *ret = -1; return 1; }
  return 0;
}

static int shared, shared2; /* uses of the bound lists A and id */
static atom_t leaf(lisp_t l) {
  switch (msym_choice(8, "leaf")) {
    case 0: return mk_nil(l);
    case 1: return mk_t(l);
    case 2: return sym_num(l, "n");
    case 3: return sym_char(l, "c");
    case 4: return mk_sym(l, "zz");  /* unbound */
    case 5: shared++; return mk_sym(l, "A");   /* bound to a list */
    case 6: shared2++; return mk_sym(l, "id");  /* bound to a function */
    default: return lisp_make_wildcard(l);
  }
}
static atom_t arg(lisp_t l, int d) {
  if (d == 0 || msym_choice(2, "pair") == 0) return leaf(l);
  atom_t a = arg(l, d - 1), b = arg(l, d - 1);
  return lisp_cons(l, a, b);
}
void harness(void) {
  int f = (int)msym_arg(0), n = (int)msym_arg(1), d = (int)msym_arg(2);
  lisp_t l = boot(f < 43 ? M_BASE : M_BASE | M_IO | M_SYS | M_UNIX);
  if (f >= 43) { boot_io(l); env_stdin("(1 2) x\nline\n", 13); env_hook = hook; env_exit_ok = f == 68; }
  set_global(l, "A", mk_list(l, 2, mk_num(l, 1), mk_sym(l, "zz")));
  run_text(l, "(def id (x) x)");
  atom_t args = mk_nil(l);
  for (int i = 0; i < n; i++) args = lisp_cons(l, arg(l, d), args);
  if (f == 3 && (shared > 1 || shared2 > 1)) msym_discard(); /* conc links its arguments in place: a list onto itself is a cycle */
  atom_t e = lisp_cons(l, mk_sym(l, fn[f]), args);
  atom_t nil = mk_nil(l);
  atom_t r = lisp_eval(l, nil, e);
  well_formed(r);
  drop(l, r);
  drop(l, nil);
  if (f >= 43) io_down(l);
  shutdown_ctx(l, "atoms are leaked by the evaluation");
  msym_reach("end");
}
