/* C16/C18: channels and line input.
 * arg0 0: nested in/out forms. arg1: kind of the outer form, arg2: faults allowed, arg3: 1 = the inner form is any kind
 * arg0 1: readline over any text. arg1: bytes; arg2: 1 = read through a file, 0 = standard input
 * arg0 2: read, readline and in, interleaved on one text */
#include "lib.h"

/* ---- mode 0 */
enum { O_NIL, O_ONE, O_PIPE, O_FILE, O_NEW, O_APP, O_APPNEW, O_NODIR, O_BADFD, O_SYM, O_LIST, O_DOT, O_TRUE, O_CHAR, N_OUT };
enum { I_NIL = N_OUT, I_PIPE, I_FILE, I_MISSING, I_BADFD, I_SYM, I_LIST, I_DOT, I_TRUE, N_FORM };
static int pfd[2], qfd[2];
static char lines[3][8]; /* stdin, pipe, file: three one-character lines each: x\n */
static struct { char d[64]; int n; } t_std, t_pipe, t_old, t_new; /* expected contents */
static int new_made;
static int in_pos[2];
struct val { int kind; char c; }; /* 0 NIL, 1 char, 2 one-character string, 3 EOF */

/* program: out[0..]: print a; form X (print b | readline; form Y (print c | readline); print d); print e; readline */
static int kx, ky, rb, rc, has_y, nl;
static char ch[8], old[2];

static void put1(int tgt, char c) {
  switch (tgt) {
    case 0: t_std.d[t_std.n++] = c; break;
    case 1: t_pipe.d[t_pipe.n++] = c; break;
    case 2: t_old.d[t_old.n++] = c; break;
    case 3: t_new.d[t_new.n++] = c; break;
  }
}
static void put(int tgt, char c) { put1(tgt, c); if (nl) put1(tgt, '\n'); }
static struct val get(int src, int* fpos) {
  struct val v = { 3, 0 };
  int* p = src == 2 ? fpos : &in_pos[src];
  if (*p < 3) { v.kind = 2; v.c = lines[src][2 * *p]; ++*p; }
  return v;
}
/* opens the form's channel in the expectation; 0 when it fails */
static int enter(int k, int fails, int* tgt, int* src, int* fpos) {
  if (fails) return 0;
  switch (k) {
    case O_NIL: case O_ONE: *tgt = 0; return 1;
    case O_PIPE: *tgt = 1; return 1;
    case O_FILE: *tgt = 2; t_old.n = 0; return 1;
    case O_NEW: *tgt = 3; t_new.n = 0; new_made = 1; return 1;
    case O_APP: *tgt = 2; return 1;
    case O_APPNEW: if (!new_made) return 0; *tgt = 3; return 1;
    case I_NIL: *src = 0; return 1;
    case I_PIPE: *src = 1; return 1;
    case I_FILE: *src = 2; *fpos = 0; return 1;
    default: return 0;
  }
}
static struct val expect(int failx, int faily) {
  struct val nil = { 0, 0 }, v = nil;
  int fp = 0, tx = 0, sx = 0, fx = 0;
  t_std.n = t_pipe.n = t_new.n = 0; t_old.n = 2; t_old.d[0] = old[0]; t_old.d[1] = old[1]; new_made = 0; in_pos[0] = in_pos[1] = 0;
  put(0, ch[0]);
  if (enter(kx, failx, &tx, &sx, &fx)) {
    if (rb) v = get(sx, &fx); else { put(tx, ch[1]); v.kind = 1; v.c = ch[1]; }
    if (has_y) {
      int ty = tx, sy = sx, fy = fx, *fpy = &fy;
      if (ky < N_OUT || sy == 2) fpy = ky == I_FILE ? &fp : &fx;
      if (enter(ky, faily, &ty, &sy, fpy)) { if (rc) v = get(sy, fpy); else { put(ty, ch[2]); v.kind = 1; v.c = ch[2]; } }
      else v = nil;
    }
  }
  struct val r = v;
  put(0, ch[3]);
  v = get(0, &fp);
  if (v.kind == 2) put(0, v.c);
  return r;
}
static int text_is(const char* d, size_t n, const char* e, int m) {
  if ((int)n != m) return 0;
  int ok = 1;
  for (int i = 0; i < m; i++) ok = msym_and(ok, d[i] == e[i]);
  return ok;
}
static atom_t q(lisp_t l, atom_t v) { return lisp_cons(l, mk_sym(l, "quote"), v); }
static atom_t chan(lisp_t l, int k) {
  switch (k) {
    case O_ONE: return mk_num(l, 1);
    case O_PIPE: return mk_num(l, pfd[1]);
    case O_FILE: return q(l, mk_str(l, "o1", 2));
    case O_NEW: return q(l, mk_str(l, "o2", 2));
    case O_APP: return q(l, mk_str(l, "+o1", 3));
    case O_APPNEW: return q(l, mk_str(l, "+o2", 3));
    case O_NODIR: return q(l, mk_str(l, "no/x", 4));
    case O_BADFD: case I_BADFD: return mk_num(l, msym_choice(2, "descriptor") ? 41 : -1);
    case O_SYM: case I_SYM: return q(l, mk_sym(l, "o1"));
    case O_LIST: case I_LIST: return q(l, mk_list(l, 2, mk_num(l, 'o'), mk_num(l, '1')));
    case O_DOT: case I_DOT: return q(l, lisp_cons(l, lisp_make_char(l, 'o'), lisp_make_char(l, '1')));
    case O_TRUE: case I_TRUE: return mk_t(l);
    case O_CHAR: return lisp_make_char(l, 'o');
    case I_PIPE: return mk_num(l, qfd[0]);
    case I_FILE: return q(l, mk_str(l, "i1", 2));
    case I_MISSING: return q(l, mk_str(l, "none", 4));
    default: return mk_nil(l);
  }
}
static atom_t say(lisp_t l, char c) { return mk_list(l, 2, mk_sym(l, nl ? "prinl" : "prin"), lisp_make_char(l, c)); }
static atom_t act(lisp_t l, int rd, char c) { return rd ? mk_list(l, 1, mk_sym(l, "readline")) : say(l, c); }
static atom_t form(lisp_t l, int k, atom_t b0, atom_t b1) {
  atom_t r = b1 ? mk_list(l, 2, b0, b1) : mk_list(l, 1, b0);
  return lisp_cons(l, mk_sym(l, k < N_OUT ? "out" : "in"), lisp_cons(l, chan(l, k), r));
}
static int val_is(atom_t a, struct val v) {
  switch (v.kind) {
    case 0: return a->type == T_NIL;
    case 1: return a->type == T_CHAR ? (char)a->number == v.c : 0;
    case 2: return a->type == T_PAIR && CAR(a)->type == T_CHAR && CDR(a)->type == T_NIL ? (char)CAR(a)->number == v.c : 0;
    default: return is_sym(a, "EOF");
  }
}
static void stream(int fd, const char** d, size_t* n) { struct ofile* o = &env_of[env_fd[fd]]; *d = o->data ? o->data : ""; *n = o->len; }
static void node(const char* p, const char** d, size_t* n) { int i = env_find(p); if (i < 0) { *d = 0; *n = 0; } else { *d = env_node[i].data; *n = env_node[i].len; } }

static void channels(void) {
  lisp_t l = boot(M_STD | M_IO);
  env_mkdir("/lib");
  PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/lib");
  PUSH_IO_CONTEXT(l, l->ochan, env_stdfile(1), "/cwd");

  for (int i = 0; i < 4; i++) { msym_make(&ch[i], 1, "printed"); }
  for (int i = 0; i < 2; i++) msym_make(&old[i], 1, "old");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) { msym_make(&lines[i][2 * j], 1, "line"); msym_assume(lines[i][2 * j] != '\n'); lines[i][2 * j + 1] = '\n'; }

  env_mkfile("/cwd/o1", old, 2);
  env_mkfile("/lib/i1", lines[2], 6);
  env_stdin(lines[0], 6);
  extern int pipe(int*); extern ssize_t write(int, const void*, size_t); extern int close(int);
  pipe(qfd); write(qfd[1], lines[1], 6); close(qfd[1]);
  pipe(pfd);
  if (msym_arg(4)) { /* the program has many descriptors open */
    extern int dup2(int, int);
    int hi = (int)msym_arg(4);
    dup2(qfd[0], hi); close(qfd[0]); qfd[0] = hi;
    for (int i = 0; i < 2; i++) { dup2(pfd[i], hi + 1 + i); close(pfd[i]); pfd[i] = hi + 1 + i; }
  }
  kx = (int)msym_arg(1);
  nl = msym_choice(2, "newlines");
  rb = msym_choice(2, "first act");
  has_y = msym_choice(2, "inner form");
  if (has_y) { ky = msym_arg(3) ? msym_choice(N_FORM, "inner kind") : (msym_choice(2, "inner kind") ? I_FILE : O_APP); rc = msym_choice(2, "inner act"); }
  atom_t x = has_y ? form(l, kx, act(l, rb, ch[1]), form(l, ky, act(l, rc, ch[2]), NULL)) : form(l, kx, act(l, rb, ch[1]), NULL);
  atom_t nil = mk_nil(l), ic = l->ichan, oc = l->ochan;
  size_t fds0 = (size_t)env_fds_open();
  drop(l, lisp_eval(l, nil, say(l, ch[0])));
  env_faults = (int)msym_arg(2);
  int budget = env_faults;
  atom_t r = lisp_eval(l, nil, x);
  int faulted = env_faults < budget;
  env_faults = 0;
  well_formed(r);
  CHECK(l->ichan == ic && l->ochan == oc, "the channels in force before are restored");
  CHECK((size_t)env_fds_open() == fds0, "every descriptor the form opened is closed, and no other");
  CHECK(env_files_open == 0, "every stream the form opened is closed");
  drop(l, lisp_eval(l, nil, say(l, ch[3])));
  atom_t ln = lisp_eval(l, nil, mk_list(l, 1, mk_sym(l, "readline")));
  drop(l, lisp_eval(l, nil, mk_list(l, 2, mk_sym(l, nl ? "prinl" : "prin"), q(l, ln))));
  fflush(env_stdfile(1));
  const char *d0, *d1, *d2, *d3; size_t n0, n1, n2, n3;
  stream(1, &d0, &n0); stream(pfd[1], &d1, &n1); node("/cwd/o1", &d2, &n2); node("/cwd/o2", &d3, &n3);
  /* with a fault, one of the two forms may have failed instead of running its program */
  int ok = 0;
  for (int f = 0; f < (faulted ? 3 : 1); f++) {
    struct val v = expect(f == 1, f == 2);
    int created = (kx == O_NEW && f != 1) || (has_y && ky == O_NEW && f != 2 && (kx <= O_APP || kx == I_NIL || kx == I_PIPE || kx == I_FILE) && f != 1);
    /* a file that was opened and whose stream then could not be made has been created or truncated */
    int k = text_is(d0, n0, t_std.d, t_std.n);
    k = msym_and(k, text_is(d1, n1, t_pipe.d, t_pipe.n));
    int o = text_is(d2, n2, t_old.d, t_old.n);
    if (faulted && n2 == 0 && (kx == O_FILE || (has_y && ky == O_FILE))) o = 1;
    k = msym_and(k, o);
    k = msym_and(k, text_is(d3, n3, t_new.d, t_new.n));
    if (!faulted && (d3 != 0) != created) k = 0;
    k = msym_and(k, val_is(r, v));
    ok = msym_or(ok, k);
  }
  CHECK(ok, "text goes to, and lines come from, the channel in force; the value is that of the last expression");
  X(l, nil, r);
  io_down(l);
  shutdown_ctx(l, "in and out release every atom");
}

static void readlines(void) {
  int n = (int)msym_arg(1), file = (int)msym_arg(2);
  lisp_t l = boot(M_STD | M_IO);
  boot_io(l);
  char* b = malloc(n + 1);
  for (int i = 0; i < n; i++) msym_make(&b[i], 1, "byte");
  char form[32];
  strcpy(form, file == 2 ? "(in NIL (readline))" : "(readline)");
  if (file == 1) env_mkfile("/cwd/f", b, n);
  else if (file == 3) { int fd[2]; pipe(fd); write(fd[1], b, n); strcpy(form, "(in 3 (readline))"); CHECK(fd[0] == 3, "model: the pipe is descriptor 3"); }
  else env_stdin(b, n);
  atom_t nil = mk_nil(l);
  int at = 0;
  if (file == 1) { FILE* f = fopen("/cwd/f", "r"); PUSH_IO_CONTEXT(l, l->ichan, f, "/cwd"); }
  for (int k = 0; k <= n + 1; k++) {
    int64_t h0 = msym_heap_live();
    atom_t r = eval_text(l, form);
    CHECK(msym_heap_live() == h0, "reading a line keeps no memory");
    if (at == n) { CHECK(is_sym(r, "EOF"), "at the end of the input, a line reads as EOF"); X(l, r); if (msym_choice(2, "again") == 0) break; continue; }
    int e = at; while (e < n && b[e] != '\n') e++;
    atom_t x = mk_str(l, b + at, e - at);
    CHECK(same_expr(r, x), "a line reads as its characters without the newline");
    X(l, x, r);
    at = e < n ? e + 1 : e;
  }
  free(b);
  if (file == 1) { FILE* f = (FILE*)CAR(CAR(l->ichan))->number; POP_IO_CONTEXT(l, l->ichan); fclose(f); }
  X(l, nil);
  io_down(l);
  shutdown_ctx(l, "reading lines releases every atom");
}

/* a text of four lines of one or two expressions; every sequence of read, readline and (in file (read)) */
static void mixed(void) {
  lisp_t l = boot(M_STD | M_IO);
  boot_io(l);
  char c[6]; char t[64]; int n = 0;
  for (int i = 0; i < 6; i++) { msym_make(&c[i], 1, "letter"); msym_assume(msym_and(c[i] >= 'a', c[i] <= 'z')); }
  /* lines: "c0 (c1 c2)", "c3", "", "c4 c5" */
  t[n++] = c[0]; t[n++] = ' '; t[n++] = '('; t[n++] = c[1]; t[n++] = ' '; t[n++] = c[2]; t[n++] = ')'; t[n++] = '\n';
  int l1 = n; t[n++] = c[3]; t[n++] = '\n';
  int l2 = n; t[n++] = '\n';
  int l3 = n; t[n++] = c[4]; t[n++] = ' '; t[n++] = c[5];
  int last_nl = msym_choice(2, "newline at the end");
  if (last_nl) t[n++] = '\n';
  env_stdin(t, n);
  env_mkfile("/cwd/f", "inner 2\n", 8);
  int start[5] = { 0, l1, l2, l3, n }, line = 0, pend_n = 0, pend_i = 0;
  atom_t pend[4];
  for (int s = 0; s < (int)msym_arg(1); s++) {
    switch (msym_choice(3, "operation")) {
      case 0: {
        if (pend_i == pend_n) {
          pend_i = pend_n = 0;
          while (line < 4 && pend_n == 0) {
            char y[2] = { 0, 0 };
            if (line == 0) { y[0] = c[0]; pend[pend_n++] = mk_sym(l, y); char u[2] = { c[1], 0 }, v[2] = { c[2], 0 }; pend[pend_n++] = mk_list(l, 2, mk_sym(l, u), mk_sym(l, v)); }
            else if (line == 1) { y[0] = c[3]; pend[pend_n++] = mk_sym(l, y); }
            else if (line == 3) { y[0] = c[4]; pend[pend_n++] = mk_sym(l, y); y[0] = c[5]; pend[pend_n++] = mk_sym(l, y); }
            line++;
          }
        }
        atom_t r = eval_text(l, "(read)");
        atom_t e = pend_i < pend_n ? pend[pend_i++] : mk_nil(l);
        CHECK(same_expr(r, e), "read gives the expressions of the text in order");
        X(l, r, e);
        break;
      }
      case 1: {
        atom_t r = eval_text(l, "(readline)");
        if (line == 4) CHECK(is_sym(r, "EOF"), "readline gives EOF at the end of the text");
        else {
          int z = start[line + 1]; if (t[z - 1] == '\n') z--;
          atom_t e = mk_str(l, t + start[line], z - start[line]);
          CHECK(same_expr(r, e), "readline gives the next line that was not read yet");
          X(l, e);
          line++;
        }
        X(l, r);
        break;
      }
      default: {
        int two = msym_choice(2, "twice");
        atom_t r = eval_text(l, two ? "(in \"f\" (read) (read))" : "(in \"f\" (read))");
        CHECK(two ? is_num(r, 2) : is_sym(r, "inner"), "in reads the file from its beginning");
        X(l, r);
      }
    }
  }
  while (pend_i < pend_n) { X(l, pend[pend_i]); pend_i++; }
  io_down(l);
  shutdown_ctx(l, "reading releases every atom");
}

/* one line of n characters, three of them free, then a short line: however long, a line is one line */
static void longline(void) {
  int n = (int)msym_arg(1), file = (int)msym_arg(2);
  lisp_t l = boot(M_STD | M_IO);
  boot_io(l);
  char* b = malloc(n + 4);
  memset(b, 'x', n);
  for (int i = 0; i < 3; i++) { char* p = &b[i == 0 ? 0 : i == 1 ? n / 2 : n - 1]; msym_make(p, 1, "byte"); msym_assume(*p != '\n'); }
  b[n] = '\n'; b[n + 1] = 'y'; b[n + 2] = 'z'; b[n + 3] = '\n';
  if (file) env_mkfile("/cwd/f", b, n + 4); else env_stdin(b, n + 4);
  if (file == 1) { FILE* f = fopen("/cwd/f", "r"); PUSH_IO_CONTEXT(l, l->ichan, f, "/cwd"); }
  atom_t r = eval_text(l, "(readline)"), x = r;
  int same = 1;
  for (int i = 0; i < n; i++, x = CDR(x)) { if (!IS_PAIR(x)) { same = 0; break; } same = msym_and(same, CAR(x)->number == b[i]); }
  CHECK(same && IS_NULL(x), "a line reads as its characters, however long it is");
  X(l, r);
  r = eval_text(l, "(readline)");
  x = mk_str(l, "yz", 2);
  CHECK(same_expr(r, x), "the next line follows");
  X(l, x, r);
  r = eval_text(l, "(readline)");
  CHECK(is_sym(r, "EOF"), "at the end of the input, a line reads as EOF");
  X(l, r);
  free(b);
  if (file == 1) { FILE* f = (FILE*)CAR(CAR(l->ichan))->number; POP_IO_CONTEXT(l, l->ichan); fclose(f); }
  io_down(l);
  shutdown_ctx(l, "reading lines releases every atom");
}

void harness(void) {
  switch (msym_arg(0)) {
    case 0: channels(); break;
    case 1: readlines(); break;
    case 3: longline(); break;
    default: mixed();
  }
  msym_reach("end");
}
