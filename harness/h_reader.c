/* C06: the reader on arbitrary bytes. arg0: mode, arg1: number of free bytes, arg2/arg3: range of the first one.
 * mode 0: any bytes as one line; 1: the same bytes, and the same bytes across the end of the input buffer;
 * 2: as 0 inside an open list; 3: malformed line, then a good one */
#include "lib.h"
#include <stdio.h>
static atom_t got;
static int errors;
static void on_error(const lisp_t l) { (void)l; errors++; }
static lisp_t ctx;
static void take(const lisp_t l, const atom_t c) { well_formed(c); got = lisp_append(l, got, c); }
static atom_t feed(lisp_t l, char* b, size_t n) {
  got = mk_nil(l);
  lexer_t x = lexer_create(l, take);
  lexer_parse(x, b, n, true);
  lexer_destroy(x);
  return got;
}
static void free_bytes(char* b, int n) {
  int lo = (int)msym_arg(2), hi = (int)msym_arg(3);
  for (int i = 0; i < n; i++) msym_make(&b[i], 1, "byte");
  msym_assume(msym_and((unsigned char)b[0] >= lo, (unsigned char)b[0] <= hi));
}
static atom_t read_file(lisp_t l, const char* path) {
  FILE* f = fopen(path, "r");
  PUSH_IO_CONTEXT(l, l->ichan, f, "/cwd");
  atom_t all = mk_nil(l), v;
  while ((v = lisp_read(l, mk_nil(l))) != NULL) { well_formed(v); all = lisp_append(l, all, v); }
  POP_IO_CONTEXT(l, l->ichan);
  fclose(f);
  return all;
}
void harness(void) {
  int mode = (int)msym_arg(0), n = (int)msym_arg(1);
  lisp_t l = boot(M_STD);
  size_t live0 = live_atoms(l);
  char b[64]; memset(b, 0, sizeof b);
  if (mode == 0 || mode == 2) {
    int k = 0;
    if (mode == 2) b[k++] = '(', b[k++] = 'a', b[k++] = ' ';
    free_bytes(b + k, n); k += n;
    if (mode == 2) b[k++] = ')';
    b[k] = '\n';
    char* t = malloc(k + 2); memcpy(t, b, k + 2); /* exact size: reads past the end are seen */
    atom_t r = feed(l, t, k + 1);
    free(t);
    well_formed(r);
    X(l, r);
    CHECK(live_atoms(l) == live0, "reading releases what it does not return");
  } else if (mode == 4) { /* a string literal of n free characters */
    char c[32];
    b[0] = '"';
    for (int i = 0; i < n; i++) { msym_make(&b[1 + i], 1, "char"); msym_assume(msym_and(b[1 + i] != '"', b[1 + i] != 0)); }
    b[n + 1] = '"'; b[n + 2] = '\n';
    int m = 0;
    for (int i = 1; i <= n; i++) {
      if (b[i] == '\\') { if (++i > n) break; c[m++] = b[i] == 'n' ? '\n' : b[i] == 't' ? '\t' : b[i]; }
      else c[m++] = b[i];
    }
    atom_t r = feed(l, b, n + 3);
    atom_t e = mk_list(l, 1, mk_str(l, c, m));
    CHECK(same_expr(r, e), "a string literal reads as the list of its characters");
    X(l, r, e);
  } else if (mode == 5) { /* a number literal of n free digits */
    int neg = msym_choice(2, "sign"), k = 0;
    uint64_t v = 0;
    if (neg) b[k++] = '-';
    for (int i = 0; i < n; i++) { unsigned char dg; msym_make(&b[k], 1, "digit"); dg = (unsigned char)b[k] - '0'; msym_assume(dg <= 9); v = v * 10 + (uint64_t)dg; k++; }
    b[k] = ' ';
    atom_t r = feed(l, b, k + 1);
    CHECK(r->type == T_PAIR && CDR(r)->type == T_NIL && CAR(r)->type == T_NUMBER, "a number literal reads as one number");
    CHECK(CAR(r)->number == (int64_t)(neg ? 0 - v : v), "a number literal reads as its value");
    X(l, r);
  } else if (mode == 6) { /* nesting: a shape built from free structure tokens reads as the structure it denotes */
    struct { atom_t list; int quoted, dotted; } st[8];
    int d = 0, k = 0, q = 0;
    const char white = msym_arg(2) ? '\n' : msym_choice(2, "white") ? '\t' : ' ';
    st[0].list = mk_nil(l); st[0].dotted = 0;
    for (int i = 0; i < n; i++) {
      int t = msym_choice(5, "token");
      if (d + q > n - i) msym_discard(); /* cannot be closed any more */
      if (t == 0) { b[k++] = '('; d++; st[d].list = mk_nil(l); st[d].quoted = q; st[d].dotted = 0; q = 0; }
      else if (t == 2) { if (q) msym_discard(); b[k++] = '\''; q = 1; continue; } /* the quote must touch what it quotes */
      else if (t == 3) {
        if (q || d == 0 || st[d].list->type != T_PAIR || st[d].dotted) msym_discard();
        b[k++] = '.'; st[d].dotted = 1;
      } else {
        atom_t v;
        if (t == 1) {
          if (d == 0 || q || st[d].dotted == 1) msym_discard();
          b[k++] = ')'; v = st[d].list; q = st[d].quoted; d--;
        } else { v = mk_sym(l, "ab"); b[k++] = 'a', b[k++] = 'b'; }
        if (q) v = lisp_cons(l, mk_sym(l, "quote"), v);
        q = 0;
        if (st[d].dotted == 2) msym_discard();
        if (st[d].dotted == 1) { st[d].list = lisp_conc(l, st[d].list, v); st[d].dotted = 2; }
        else st[d].list = lisp_append(l, st[d].list, v);
      }
      b[k++] = white;
    }
    if (d > 0 || q) msym_discard();
    b[k] = '\n';
    atom_t r;
    if (msym_arg(2)) { boot_io(l); env_mkfile("/cwd/a", b, k + 1); r = read_file(l, "/cwd/a"); io_down(l); } /* a token on each line */
    else r = feed(l, b, k + 1);
    CHECK(same_expr(r, st[0].list), "well-formed text reads as the structure it denotes");
    X(l, r, st[0].list);
  } else if (mode == 7) { /* a token of n characters, some of them free, between others: longer than the input buffer */
    boot_io(l);
    int kind = (int)msym_arg(2), k = 0; /* 0 a string, 2 a number */
    char* t = malloc(n + 64);
    char c[4];
    for (int i = 0; i < 4; i++) { msym_make(&c[i], 1, "char"); msym_assume(kind == 2 ? msym_and(c[i] >= '0', c[i] <= '9') : msym_and(c[i] >= 'a', c[i] <= 'z')); }
    t[k++] = '('; t[k++] = 'a'; t[k++] = ' ';
    if (kind == 0) t[k++] = '"';
    int at = k;
    for (int i = 0; i < n; i++) t[k++] = kind == 2 ? '0' : 'x';
    t[at] = c[0]; t[at + n - 1] = c[3];
    if (kind != 2) { t[at + 15] = c[1]; t[at + n / 2] = c[2]; } else { t[at] = '0'; t[at + n - 2] = c[2]; t[at + n - 3] = c[1]; }
    atom_t e;
    if (kind == 0) { e = mk_str(l, t + at, n); t[k++] = '"'; }
    else e = mk_num(l, (c[1] - '0') * 100 + (c[2] - '0') * 10 + (c[3] - '0'));
    const char* tail = " b)\n(c)\n";
    memcpy(t + k, tail, 8); k += 8;
    env_mkfile("/cwd/a", t, k);
    free(t);
    atom_t r = read_file(l, "/cwd/a");
    atom_t x = mk_list(l, 2, mk_list(l, 3, mk_sym(l, "a"), e, mk_sym(l, "b")), mk_list(l, 1, mk_sym(l, "c")));
    CHECK(same_expr(r, x), "a token of any length is read whole, and so is what follows it");
    X(l, r, x);
    io_down(l);
  } else if (mode == 9) { /* n values on one or several lines: each is handed out once, in order */
    boot_io(l);
    static const char* const tx[] = { "NIL", "()", "7", "ab", "\"z\"", "(c)", "'d", "T", "_", "(NIL)" };
    atom_t e = mk_nil(l), v;
    int k = 0;
    for (int i = 0; i < n; i++) {
      int c = msym_choice(10, "value");
      k += sprintf(b + k, "%s%c", tx[c], i == n - 1 ? '\n' : msym_choice(2, "line end") ? '\n' : ' ');
      switch (c) {
        case 0: case 1: v = mk_nil(l); break;
        case 2: v = mk_num(l, 7); break;
        case 3: v = mk_sym(l, "ab"); break;
        case 4: v = mk_str(l, "z", 1); break;
        case 5: v = mk_list(l, 1, mk_sym(l, "c")); break;
        case 6: v = lisp_cons(l, mk_sym(l, "quote"), mk_sym(l, "d")); break;
        case 7: v = lisp_make_true(l); break;
        case 8: v = lisp_make_wildcard(l); break;
        default: v = mk_list(l, 1, mk_nil(l)); break;
      }
      e = lisp_append(l, e, v);
    }
    env_mkfile("/cwd/a", b, k);
    atom_t r = read_file(l, "/cwd/a");
    CHECK(same_expr(r, e), "the values on a line are read one by one, in order, none left out");
    X(l, r, e);
    io_down(l);
  } else if (mode == 8) { /* n parentheses, too deep or without an end, and a line after them */
    boot_io(l);
    int kind = (int)msym_arg(2), k = 0;
    char* t = malloc(n * 7 + 64);
    char c; msym_make(&c, 1, "char"); msym_assume(msym_and(c >= 'a', c <= 'z'));
    if (kind == 1) { memset(t, '(', n); k = n; t[k++] = c; }
    if (kind == 2) { for (int i = 0; i < n; i++) { memcpy(t + k, "(x . ", 5); k += 5; } t[k++] = c; }
    memset(t + k, ')', n); k += n;
    t[k++] = '\n';
    memcpy(t + k, "(good 12 ", 9); k += 9; t[k++] = c; t[k++] = ')'; t[k++] = '\n';
    env_mkfile("/cwd/a", t, k);
    free(t);
    atom_t r = read_file(l, "/cwd/a");
    well_formed(r);
    CHECK(r->type == T_PAIR, "the line after a malformed one is read");
    if (r->type == T_PAIR) {
      atom_t p = r; while (CDR(p)->type == T_PAIR) p = CDR(p);
      char z[2] = { c, 0 };
      p = CAR(p);
      int ok = p->type == T_PAIR && is_sym(CAR(p), "good") && CDR(p)->type == T_PAIR && CDR(CDR(p))->type == T_PAIR && CDR(CDR(CDR(p)))->type == T_NIL;
      CHECK(ok, "the line after a malformed one is read as it stands");
      if (ok) CHECK(msym_and(is_num(CAR(CDR(p)), 12), CAR(CDR(CDR(p)))->symbol.val[0] == z[0]), "the line after a malformed one is read as it stands");
    }
    X(l, r);
    io_down(l);
  } else {
    boot_io(l);
    free_bytes(b, n);
    for (int i = 0; i < n; i++) msym_assume(msym_and(b[i] != '\n', b[i] != 0));
    b[n] = '\n';
    if (mode == 1) { /* the same line, alone and placed across the end of the input buffer */
      for (int i = 0; i < n; i++) msym_assume(msym_or(msym_and(b[i] >= 32, b[i] < 127), b[i] == '\t'));
      env_mkfile("/cwd/a", b, n + 1);
      int pad = 1023 - (int)msym_arg(4);
      char* big = malloc(pad + n + 1); memset(big, ' ', pad); memcpy(big + pad, b, n + 1);
      env_mkfile("/cwd/b", big, pad + n + (msym_choice(2, "newline at the end")));
      free(big);
      lisp_set_parse_error_handler(on_error);
      atom_t two = read_file(l, "/cwd/b"); /* first, so that the padding is read once for every line */
      int bad = errors;
      atom_t one = read_file(l, "/cwd/a");
      CHECK((errors > bad) == (bad > 0), "a malformed line is malformed wherever it falls in the input buffer");
      if (!errors) CHECK(same_expr(one, two), "what a line reads as does not depend on where it falls in the input buffer");
      X(l, one, two);
    } else { /* a line without an opening parenthesis or quote, then a good one */
      for (int i = 0; i < n; i++) msym_assume(msym_and(b[i] != '(', b[i] != '"'));
      const char* good = "(good 12 . x)\n";
      memcpy(b + n + 1, good, strlen(good));
      env_mkfile("/cwd/a", b, n + 1 + strlen(good));
      atom_t r = read_file(l, "/cwd/a");
      CHECK(r->type == T_PAIR, "the line after a malformed one is read");
      if (r->type == T_PAIR) {
        atom_t p = r; while (CDR(p)->type == T_PAIR) p = CDR(p);
        atom_t e = mk_list(l, 2, mk_sym(l, "good"), mk_num(l, 12)); CDR(CDR(e))->refs--; lisp_deallocate(l, CDR(CDR(e))); CDR(CDR(e)) = mk_sym(l, "x");
        CHECK(same_expr(CAR(p), e), "the line after a malformed one is read as it stands");
        X(l, e);
      }
      X(l, r);
    }
    io_down(l);
    CHECK(env_files_open == 0, "files are closed");
  }
  shutdown_ctx(l, "reading leaks atoms");
  msym_reach("end");
}
