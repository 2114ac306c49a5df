/* C05/C17: what the print functions write, byte for byte, and that print is undone by read.
 * arg0: 0 round trip of any value (arg1 depth), 1 output text of the four functions (arg1 function, arg2 args),
 *       2 as 0 but with the value placed around the 1024-byte boundary of the output buffer (arg1: first padding, arg2: count) */
#include "lib.h"

static int alpha(char c) { return msym_or(msym_and(c >= 'a', c <= 'z'), msym_and(c >= 'A', c <= 'Z')); }
static int digit(char c) { return msym_and(c >= '0', c <= '9'); }
static int mark(char c) {
  int r = 0;
  for (const char* m = "!@$%&*_+-={}[]:;|\\<>?,./"; *m; m++) r = msym_or(r, c == *m);
  return r;
}
static atom_t rsym(lisp_t l, int n, int at) { /* a symbol the reader can produce: free characters from position at on (at most 2) */
  union symbol s; memset(&s, 0, sizeof s);
  for (int i = 0; i < n; i++) s.val[i] = "qwertyuiopasdfgh"[i];
  for (int i = at; i < n && i < at + 2; i++) {
    msym_make(&s.val[i], 1, "s");
    int ok = msym_or(alpha(s.val[i]), mark(s.val[i]));
    if (i > 0) ok = msym_or(ok, digit(s.val[i]));
    msym_assume(ok);
  }
  if (n == 1) msym_assume(msym_and(s.val[0] != 'T', msym_and(s.val[0] != '_', s.val[0] != '.')));
  if (n == 2) msym_assume(!msym_and(s.val[0] == '-', digit(s.val[1])));
  return lisp_make_symbol(l, &s);
}
static atom_t rchar(lisp_t l) {
  char c; msym_make(&c, 1, "c");
  int ok = msym_and(c >= 32, c < 127);
  ok = msym_or(ok, msym_or(msym_or(c == '\n', c == '\t'), msym_or(c == '\r', c == 27)));
  msym_assume(ok);
  return lisp_make_char(l, c);
}
static atom_t rleaf(lisp_t l, int rich) {
  switch (msym_choice(rich ? 10 : 8, "leaf")) {
    case 0: return mk_nil(l);
    case 1: return mk_t(l);
    case 2: return lisp_make_wildcard(l);
    case 3: return rchar(l);
    case 4: return rich ? sym_num(l, "n") : mk_num(l, INT64_MIN);
    case 5: return rich ? rsym(l, 1, 0) : mk_sym(l, "sym");
    case 6: return rich ? rsym(l, 16, 14) : mk_sym(l, "quote");
    case 7: return rich ? rsym(l, 2, 0) : mk_num(l, 31);
    case 8: return rsym(l, 5, 1);
    default: return mk_num(l, INT64_MIN);
  }
}
static atom_t rvalue(lisp_t l, int d, int rich) {
  if (d == 0 || msym_choice(2, "pair") == 0) return rleaf(l, rich);
  atom_t a = rvalue(l, d - 1, rich), b = rvalue(l, d - 1, rich);
  return lisp_cons(l, a, b);
}
/* reference printer */
static char ref[4096]; static size_t rn;
static void put(const char* s, size_t n) { for (size_t i = 0; i < n; i++) ref[rn++] = s[i]; }
static void rprint(atom_t a, int s);
static void rtail(atom_t a, int s) {
  rprint(CAR(a), s);
  if (CDR(a)->type == T_PAIR) { if (s) put(" ", 1); rtail(CDR(a), s); }
  else if (CDR(a)->type != T_NIL) { if (s) put(" . ", 3); rprint(CDR(a), s); }
}
static void rprint(atom_t a, int s) {
  switch (a->type) {
    case T_NIL: if (s) put("NIL", 3); break;
    case T_TRUE: put("T", 1); break;
    case T_WILDCARD: put("_", 1); break;
    case T_NUMBER: { char b[32]; memset(b, 0, 32); sprintf(b, "%ld", (long)a->number); put(b, strlen(b)); break; }
    case T_SYMBOL: for (int i = 0; i < 16 && a->symbol.val[i]; i++) put(&a->symbol.val[i], 1); break;
    case T_CHAR: {
      char c = (char)a->number;
      if (!s) { put(&c, 1); break; }
      put("^", 1);
      if (c == 27) put("\\e", 2); else if (c == '\n') put("\\n", 2); else if (c == '\r') put("\\r", 2); else if (c == '\t') put("\\t", 2); else if (c == '\\') put("\\\\", 2);
      else put(&c, 1);
      break;
    }
    case T_PAIR: if (s) put("(", 1); rtail(a, s); if (s) put(")", 1); break;
    default: break;
  }
}
static void expect_text(void) {
  size_t n; const char* o = env_stdout(&n);
  CHECK(n == rn, "the text printed has the length of the value's text");
  if (n != rn) return;
  int ok = 1;
  for (size_t i = 0; i < n; i++) ok = msym_and(ok, o[i] == ref[i]);
  CHECK(ok, "the text printed is the value's text");
}
void harness(void) {
  int mode = (int)msym_arg(0);
  lisp_t l = boot(M_STD | M_IO);
  boot_io(l);
  atom_t r;
  if (mode == 1) {
    static const char* fn[] = { "prin", "prinl", "print", "printl" };
    int f = (int)msym_arg(1), n = (int)msym_arg(2), s = f >= 2;
    atom_t args = mk_nil(l), last = mk_nil(l), v[4];
    for (int i = 0; i < n; i++) v[i] = rvalue(l, n <= 1 ? 1 : 0, 0);
    for (int i = 0; i < n; i++) { rprint(v[i], s); if (s && i + 1 < n) put(" ", 1); X(l, last); last = UP(v[i]); }
    for (int i = n - 1; i >= 0; i--) args = lisp_cons(l, lisp_cons(l, mk_sym(l, "quote"), v[i]), args);
    if (f == 1 || f == 3) put("\n", 1);
    atom_t nil = mk_nil(l);
    r = lisp_eval(l, nil, lisp_cons(l, mk_sym(l, fn[f]), args));
    fflush(env_stdfile(1));
    expect_text();
    CHECK(same_expr(r, last), "a print function returns the last value it printed");
    X(l, nil, last, r);
  } else {
    atom_t v;
    if (mode == 0) v = rvalue(l, (int)msym_arg(1), msym_arg(1) == 0 || msym_arg(2));
    else {
      int pad = (int)msym_arg(1) + msym_choice((int)msym_arg(2), "padding");
      v = rvalue(l, 1, 0);
      v = lisp_cons(l, v, msym_choice(2, "more") ? mk_list(l, 1, mk_sym(l, "end")) : mk_nil(l));
      if (pad % 2) v = lisp_cons(l, mk_num(l, 10), v), pad -= 3;
      for (; pad > 0; pad -= 2) v = lisp_cons(l, mk_t(l), v);
    }
    set_global(l, "V", UP(v));
    rprint(v, 1);
    r = eval_text(l, "(print V)");
    expect_text();
    CHECK(same_expr(r, v), "print returns the value");
    X(l, r);
    size_t n; const char* o = env_stdout(&n);
    char* t = malloc(n + 2); memcpy(t, o, n); t[n] = '\n';
    atom_t all = parse_all(l, t, n + 1);
    CHECK(all->type == T_PAIR && CDR(all)->type == T_NIL, "the text printed is read as one value");
    if (all->type == T_PAIR) CHECK(same_expr(CAR(all), v), "reading what print wrote gives the value back");
    X(l, all);
    if (mode == 2) { /* and through the input channel, whose lines are read in pieces */
      env_stdin(t, n + 1);
      atom_t b = eval_text(l, "(read)");
      CHECK(same_expr(b, v), "read gives the printed value back from the input channel");
      X(l, b);
    }
    free(t);
    X(l, v);
  }
  io_down(l);
  shutdown_ctx(l, "printing and reading release every atom");
  msym_reach("end");
}
