/* C25: the command line.
 * arg0 0: -e TEXT  1: FILE  2: the interactive loop;  arg1: expressions of the program;  arg2: 0 any kinds, 1 leaks (with -d)
 * arg0 3: ARGV, ENV and CONFIG;  arg1: characters of each argument
 * arg0 4: options that print and leave */
#include "lib.h"

extern int mnml_main(int argc, char** argv);
static int A(int i) { return (int)msym_arg(i); }

static char text[512], want[4096];
static size_t nt, nw;
static void put(const char* s) { size_t n = strlen(s); memcpy(text + nt, s, n); nt += n; text[nt] = 0; }
static void exp_(const char* s) { size_t n = strlen(s); memcpy(want + nw, s, n); nw += n; want[nw] = 0; }
static void put1(char* b, size_t* n, char c) { b[(*n)++] = c; b[*n] = 0; }
static char letter(const char* nm) { uint8_t c; msym_make(&c, 1, nm); msym_assume(c >= 'a'); msym_assume(c <= 'z'); return (char)c; }
static char digit(const char* nm) { uint8_t c; msym_make(&c, 1, nm); msym_assume(c >= '0'); msym_assume(c <= '9'); return (char)c; }

static void (*on_quit)(int);
static void (*on_term)(int);
static int sigpipe;
static int hook_(const char* name, long a0, long a1, long a2, long* r) {
  (void)a2;
  if (!strcmp(name, "signal")) {
    if (a0 == 3) on_quit = (void (*)(int))a1;
    if (a0 == 15) on_term = (void (*)(int))a1;
    if (a0 == 13) sigpipe = (void (*)(int))a1 == (void (*)(int))1;
    *r = 0;
    return 1;
  }
  if (!strcmp(name, "kill")) {
    CHECK(a0 == 77, "only the interpreter itself is signalled");
    if (a1 == 3 && on_quit) on_quit(3);
    *r = 0;
    return 1;
  }
  return 0;
}

/* what the interpreter has done so far, as the program says */
enum { V_NONE, V_NIL, V_VAL };
static char echo[32];
static int item(int k, int cli) { /* text of the expression; its output into want when it runs; its value into echo */
  char c;
  size_t ne = 0;
  echo[0] = 0;
  switch (k) {
    case 0: c = digit("number"); put1(text, &nt, c); put1(echo, &ne, c); return V_VAL;
    case 1: put("NIL"); strcpy(echo, "NIL"); return V_NIL;
    case 2: c = digit("output"); put("(prin "); put1(text, &nt, c); put(")"); put1(echo, &ne, c); return V_VAL;
    case 3: c = digit("element"); put("'("); put1(text, &nt, c); put(")"); put1(echo, &ne, '('); put1(echo, &ne, c); put1(echo, &ne, ')'); return V_VAL;
    case 4: c = letter("string"); put("\""); put1(text, &nt, c); put("\""); put1(echo, &ne, '('); put1(echo, &ne, '^'); put1(echo, &ne, c); put1(echo, &ne, ')'); return V_VAL;
    case 5: put("(def f (x) x)"); strcpy(echo, "f"); return V_VAL;
    case 6: put("# 1 NIL (prin 5)\n"); return V_NONE;
    case 7: put("(prin NIL)"); strcpy(echo, "NIL"); return V_NIL;
    case 8: put("(quit)"); strcpy(echo, "T"); return V_VAL;
    default: msym_fail("no such item"); return 0;
  }
}
static void setup(void) {
  env_init();
  env_setenv("HOME", "/home");
  env_setenv("PWD", "/cwd");
  env_setenv("MNML_MODULE_PATH", "/m");
  env_mkdir("/home"); env_mkdir("/home/.mnml"); env_mkdir("/cwd"); env_mkdir("/m");
  static const char* mods[] = { "std", "logic", "io", "vleak" };
  for (int i = 0; i < 4; i++) {
    char p[64];
    strcpy(p, "/m/lib"); strcat(p, mods[i]); strcat(p, ".so");
    env_mkfile(p, "x", 1);
    env_module(p, mods[i]);
  }
  env_hook = hook_;
}
static char* argv_[320];
static int argc_;
static void arg(const char* s) { char* b = malloc(strlen(s) + 1); strcpy(b, s); argv_[argc_++] = b; argv_[argc_] = 0; }

static int status(int r) { return r & 0xff; } /* what the parent of the process sees */
static void check_out(const char* m) {
  fflush(env_stdfile(1));
  size_t n;
  const char* d = env_stdout(&n);
  CHECK(n == nw, m);
  int ok = 1;
  for (size_t i = 0; i < nw && i < n; i++) ok &= d[i] == want[i];
  CHECK(ok, m);
}
/* takes one complaint about a syntax error out of the output: it is written past the buffer of stdout */
static void complaint(void) {
  static const char* m = "^ parse error\n";
  size_t n, k = strlen(m);
  fflush(env_stdfile(1));
  char* d = (char*)env_stdout(&n);
  for (size_t i = 0; i + k <= n; i++) if (d[i] == m[0] && d[i + 1] == ' ') {
    CHECK(memcmp(d + i, m, k) == 0, "a line that is no expression is reported");
    memmove(d + i, d + i + k, n - i - k);
    env_of[env_fd[1]].len -= k;
    return;
  }
  msym_fail("a line that is no expression is reported");
}
static void end(void) {
  CHECK(env_files_open == 0, "every file is closed");
  CHECK(env_dirs_open == 0, "every directory is closed");
  CHECK(env_dl_open == 0, "every module is closed");
  CHECK(sigpipe, "a closed pipe does not end the interpreter");
  for (int i = 0; i < argc_; i++) free(argv_[i]);
}

static void program(int mode, int n, int leak) {
  int last = V_NIL, stop = 0, leaked = 0;
  arg("mnml");
  int d = (int)msym_choice(2, "-d");
  if (d) arg("-d");
  put(leak ? "(load '(io prin) '(vleak leak))" : "(load '(io prin) '(std quit))");
  put(msym_choice(2, "separator") ? "\n" : " ");
  last = V_VAL;
  for (int i = 0; i < n; i++) {
    int k = (int)msym_choice(mode == 0 || leak ? 9 : 8, "item");
    if (leak && k == 8) { put("(leak)"); leaked = 1; last = V_VAL; put(" "); continue; }
    int v = item(k, 1);
    if (v == V_NONE) continue;
    if (!stop) {
      if (k == 2) exp_(echo);
      last = v;
      if (k == 8) stop = 1;
    }
    put(msym_choice(2, "separator") ? "\n" : " ");
  }
  if (mode == 0) { arg("-e"); arg(text); }
  else { env_mkfile("/cwd/p.l", text, nt); arg(msym_choice(2, "path") ? "/cwd/p.l" : "p.l"); arg("-e"); arg("-x"); }
  int r = status(mnml_main(argc_, argv_));
  check_out("every expression of the program runs once, in order");
  if (d && leaked) CHECK(r != 0, "with -d the status tells that atoms were kept");
  else CHECK((r == 0) == (last == V_VAL), "the status is zero exactly when the last value is not NIL");
  end();
}

static void loop(int n, int quits) {
  static const int nosep[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
  (void)nosep;
  int pend = 0, quit = 0, prompted = 0, errors = 0; /* expressions of the current line that are still to run */
  arg("mnml");
  int d = (int)msym_choice(2, "-d");
  if (d) arg("-d");
  put("(load '(io prin) '(std quit))\n");
  exp_(": > (quit)\n");
  /* lines: the prompt is written when a line is needed */
  int fresh = 1, last = V_VAL;
  for (int i = 0; i < n && !quit; i++) {
    int k = (int)msym_choice(quits ? 10 : 8, "item");
    if (fresh && !prompted) { exp_(": "); prompted = 1; }
    if (k == 9) { /* a line that is no expression */
      if (!fresh) msym_discard();
      static const char* wrong[] = { ")", "^", ") 5", "^\\q 5" };
      int w = (int)msym_choice(4, "error");
      put(wrong[w]); put("\n");
      exp_(": ");
      errors++;
      continue;
    }
    int v = item(k, 0);
    if (v == V_NONE) { fresh = 1; continue; } /* the comment ends its line: more input, no new prompt unless something ran */
    if (k == 2) exp_(echo);
    exp_("> "); exp_(echo); exp_("\n");
    last = v;
    if (k == 8) quit = 1;
    fresh = (int)msym_choice(2, "separator");
    put(fresh ? "\n" : " ");
    prompted = 0;
  }
  (void)pend;
  if (!quit) { if (!prompted) exp_(": "); }
  env_stdin(text, nt);
  int r = status(mnml_main(argc_, argv_));
  for (int i = 0; i < errors; i++) complaint();
  check_out("the loop prompts, evaluates and prints each expression once, in order");
  if (quit) CHECK(r == 0, "quit leaves the loop with status zero");
  (void)last;
  end();
}

/* the environment of the program; compared by the program itself, the verdict is the status */
static void lit(const char* s, size_t n) { put("\""); for (size_t i = 0; i < n; i++) put1(text, &nt, s[i]); put("\""); }
static char plain(const char* nm) {
  uint8_t c;
  msym_make(&c, 1, nm);
  msym_assume(c != 0); msym_assume(c != '"'); msym_assume(c != '\\'); msym_assume(c != '\n');
  return (char)c;
}
static void vars(int n) {
  int what = (int)msym_choice(3, "variable"), same = (int)msym_choice(2, "same");
  char a[2][8], kv[2][16];
  arg("mnml");
  if (what == 0) { /* ARGV */
    put("(load '(logic =)) (= ARGV '(");
    lit("/cwd/p.l", 8);
    arg("/cwd/p.l");
    for (int i = 0; i < 2; i++) {
      int k = (int)msym_choice(n + 1, "length");
      for (int j = 0; j < k; j++) a[i][j] = plain("argument");
      a[i][k] = 0;
      put(" "); lit(a[i], k);
      arg(a[i]);
    }
    if (!same) put(" 1");
    put("))");
  } else if (what == 1) { /* ENV */
    put("(load '(logic =)) (= ENV '((\"HOME\" . \"/home\") (\"PWD\" . \"/cwd\") (\"MNML_MODULE_PATH\" . \"/m\")");
    for (int i = 0; i < 2; i++) {
      int k = (int)msym_choice(n + 1, "length");
      char nm = plain("name");
      msym_assume(nm != '=');
      kv[i][0] = nm; kv[i][1] = 0;
      for (int j = 0; j < k; j++) a[i][j] = plain("value");
      a[i][k] = 0;
      if (i) msym_assume(kv[0][0] != nm);
      env_setenv(kv[i], a[i]);
      if (k) { put(" ("); lit(kv[i], 1); put(" . "); lit(a[i], k); put(")"); }
    }
    if (!same) put(" 1");
    put("))");
    arg("/cwd/p.l");
  } else { /* CONFIG */
    put("(load '(logic =)) (= CONFIG '((BUILD_TS . "); lit(MNML_BUILD_TIMESTAMP, strlen(MNML_BUILD_TIMESTAMP));
    put(") (COMPID . "); lit(MNML_COMPILER_ID, strlen(MNML_COMPILER_ID));
    put(") (COMPVER . "); lit(MNML_COMPILER_VERSION, strlen(MNML_COMPILER_VERSION));
    put(") (PREFIX . "); lit(lisp_prefix(), strlen(lisp_prefix()));
    put(") (VERSION . "); lit(MNML_VERSION, strlen(MNML_VERSION));
    put(same ? ")))" : ") 1))");
    arg("/cwd/p.l");
  }
  env_mkfile("/cwd/p.l", text, nt);
  int r = status(mnml_main(argc_, argv_));
  CHECK((r == 0) == same, "the program sees its arguments, its environment and the configuration");
  check_out("nothing is written");
  end();
}

static void leave(void) {
  static const char* o[] = { "-h", "-v", "-x", "-e", "-b", "missing", "-d", "-e", "-de5", "-d", "--" };
  int k = (int)msym_choice(11, "option");
  arg("mnml"); arg(o[k]);
  if (k == 4) { arg("-e"); arg(msym_choice(2, "what") ? "(load (quote io prin)) prin" : "ARGV"); }
  if (k == 6) { arg("missing"); }
  int ok = k == 0 || k == 1 || k >= 7;
  if (k == 7) { /* without a home, or where the current directory is gone */
    arg("'(5)");
    int w = (int)msym_choice(3, "environment");
    if (w == 0) env_setenv("HOME", 0);
    if (w == 1) env_setenv("PWD", 0);
    if (w == 2) { env_faults = 1; ok = 2; }
  }
  if (k == 9) { arg("-b"); arg("-e"); arg("T"); }
  if (k == 10) { arg("p.l"); arg("-x"); env_mkfile("/cwd/p.l", "(car ARGV)\n'((5))", 18); }
  if (k == 1) { exp_(MNML_VERSION); exp_("\n"); }
  int r = status(mnml_main(argc_, argv_));
  check_out("only -v writes to the standard output");
  if (ok < 2) CHECK((r == 0) == ok, "the status tells whether the request succeeded");
  if (k < 4 || ok == 2) sigpipe = 1;
  end();
}

/* n arguments, variables or expressions, some of them long */
static void big(int n, int kind) {
  char* t = malloc(40000); size_t k = 0;
  char c = plain("character"); msym_assume(c != '=');
#define W(s) do { const char* z_ = (s); while (*z_) t[k++] = *z_++; } while (0)
#define WN(i) do { int i_ = (i); char d_[8]; int m_ = 0; do { d_[m_++] = (char)('0' + i_ % 10); i_ /= 10; } while (i_); while (m_) t[k++] = d_[--m_]; } while (0)
  char* v = malloc(1501);
  arg("mnml");
  if (kind == 0) W("(load '(logic =)) (= ARGV '(\"/cwd/p.l\"");
  if (kind == 1) W("(load '(logic =)) (= ENV '((\"HOME\" . \"/home\") (\"PWD\" . \"/cwd\") (\"MNML_MODULE_PATH\" . \"/m\")");
  if (kind > 1) W("(load 'std 'io) (setq n '(0))\n");
  if (kind == 3) arg("-e");
  else arg("/cwd/p.l");
  for (int i = 0; i < n; i++) {
    size_t len = i == 1 ? 1500 : i == 2 ? 1023 : i == 3 ? 1024 : 1 + i % 20;
    for (size_t j = 0; j < len; j++) v[j] = (char)('a' + (i + j) % 26);
    v[len] = 0; v[len - 1] = c;
    if (kind == 0) { W(" \""); W(v); W("\""); arg(v); }
    else if (kind == 1) { char nm[12]; size_t a = k; W(" (\"V"); WN(i); size_t b = k; memcpy(nm, t + a + 3, b - a - 3); nm[b - a - 3] = 0; W("\" . \""); W(v); W("\")"); env_setenv(nm, v); }
    else { W("(setq n (cons "); WN(i); W(" n))"); t[k++] = i % 7 ? ' ' : '\n'; }
  }
  if (kind < 2) W("))");
  else {
    W("(print n)");
    exp_("(");
    for (int i = n; i-- > 0;) { char d[8]; int m = 0, x = i; do { d[m++] = (char)('0' + x % 10); x /= 10; } while (x); while (m) { char o[2] = { d[--m], 0 }; exp_(o); } exp_(" "); }
    exp_("0)");
  }
  t[k] = 0;
  if (kind == 3) arg(t); else env_mkfile("/cwd/p.l", t, k);
  int r = status(mnml_main(argc_, argv_));
  CHECK(r == 0, "the program sees its arguments and its environment, and is evaluated whole");
  check_out("the program is evaluated once");
  end();
}

void harness(void) {
  setup();
  switch (A(0)) {
    case 0: case 1: program(A(0), A(1), A(2)); break;
    case 2: loop(A(1), A(2)); break;
    case 3: vars(A(1)); break;
    case 5: big(A(1), A(2)); break;
    default: leave();
  }
  msym_reach("end");
}
