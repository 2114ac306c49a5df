/* C24: the programs of the library: args, http, run, test.
 * arg0 0: args:parse, arg1 arguments   1: http/request, arg1 headers, arg2 characters   2: http/response
 * 3: http/get   4: run   5: test:run and the assertions   6: http/serve   7: http/serve with arg1 clients */
#include "share_fs.h"
#include <errno.h>
#include <netinet/in.h>
#include <sys/select.h>

static lisp_t l;
static int A(int i) { return (int)msym_arg(i); }
static atom_t q(atom_t v) { return lisp_cons(l, lisp_make_quote(l), v); }
static atom_t str(const char* s) { return mk_str(l, s, strlen(s)); }
static char text[512], want[512];
static size_t nt, nw;
static void put(const char* s) { size_t n = strlen(s); memcpy(text + nt, s, n); nt += n; text[nt] = 0; }
static void exp_(const char* s) { size_t n = strlen(s); memcpy(want + nw, s, n); nw += n; want[nw] = 0; }
static char any_char(const char* nm) { /* visible, no colon */
  uint8_t c;
  msym_make(&c, 1, nm);
  msym_assume(c > ' '); msym_assume(c < 127);
  return (char)c;
}
static int word(char* b, int n, const char* nm) { for (int i = 0; i < n; i++) b[i] = any_char(nm); b[n] = 0; return n; }
static void out_is(const char* m) {
  fflush(env_stdfile(1));
  size_t n; const char* d = env_stdout(&n);
  CHECK(n == nw, m);
  int ok = 1;
  for (size_t i = 0; i < n && i < nw; i++) ok = msym_and(ok, d[i] == want[i]);
  CHECK(ok, m);
}
static void expect(atom_t r, atom_t e, const char* m) { well_formed(r); CHECK(same_expr(r, e), m); X(l, r, e); }
static void feed(struct ofile* o, const char* d, size_t n) { /* what a stream gives to its reader */
  free(o->data);
  o->data = malloc(n + 1); memcpy(o->data, d, n);
  o->len = n; o->cap = n + 1; o->pos = 0;
}

/* ---- args */
static void args(int n) {
  lib_load(l, "args");
  run_text(l, "(def fa () (setq H (cons 'a H))) (def fb (x) (setq H (cons (cons 'b x) H))) (def fc (x y) (setq H (cons (list 'c x y) H)))");
  atom_t h = mk_num(l, 0), argv = mk_nil(l), res = mk_nil(l);
  set_global(l, "H", UP(h));
  char w[6][4];
  int k[6], na = (int)msym_choice(n + 1, "arguments");
  for (int i = 0; i < na; i++) {
    k[i] = (int)msym_choice(6, "kind");
    static const char* f[] = { "-a", "-b", "-c", "-d" };
    if (k[i] < 4) strcpy(w[i], f[k[i]]); else word(w[i], k[i] == 4, "argument"); /* a word, or nothing */
  }
  for (int i = na; i-- > 0;) argv = lisp_cons(l, str(w[i]), argv);
  set_global(l, "ARGV", lisp_cons(l, str("p"), argv));
  int i = 0, ok = 1;
  while (i < na) {
    if (k[i] > 2) { exp_("Unknown flag: "); exp_(w[i]); exp_("\n"); ok = 0; break; }
    if (na - i - 1 < k[i]) { exp_("Not enough values for flag: "); exp_(w[i]); exp_("\n"); ok = 0; break; }
    if (k[i] == 0) h = lisp_cons(l, mk_sym(l, "a"), h);
    else if (k[i] == 1) h = lisp_cons(l, lisp_cons(l, mk_sym(l, "b"), str(w[i + 1])), h);
    else h = lisp_cons(l, mk_list(l, 3, mk_sym(l, "c"), str(w[i + 1]), str(w[i + 2])), h);
    res = lisp_cons(l, str(w[i]), res);
    i += 1 + k[i];
  }
  if (!ok) { X(l, res); res = mk_nil(l); }
  atom_t r = eval_text(l, "(args:parse '((\"-a\" . fa) (\"-b\" . fb) (\"-c\" . fc)))");
  expect(r, res, "the flags that were parsed are given back");
  expect(eval_text(l, "H"), h, "each flag gets its values, in order");
  out_is("an unknown flag and a missing value are reported");
}

/* ---- http */
static atom_t hdrs; /* expected headers */
static void lines(const char* nl) { put(nl); }
static void headers(int n, int c, const char* nl) {
  atom_t e[4];
  int k = (int)msym_choice(n + 1, "headers");
  for (int i = 0; i < k; i++) {
    char nm[8], v[8];
    word(nm, 1, "name"); msym_assume(nm[0] != ':');
    int m = word(v, (int)msym_choice(c + 1, "length"), "value");
    put(nm); put(":");
    if (msym_choice(2, "space")) put(" ");
    put(v);
    lines(nl);
    e[i] = lisp_cons(l, str(nm), mk_str(l, v, (size_t)m));
  }
  hdrs = mk_list_(l, k, e);
  if (!msym_choice(2, "ends")) { lines(nl); put("X"); }
}
static void rest(void) {
  int body = nt && text[nt - 1] == 'X';
  expect(eval_text(l, "(readline)"), body ? str("X") : mk_sym(l, "EOF"), "nothing after the headers is consumed");
}
static void request(int n, int c) {
  lib_load(l, "http");
  char op[8], path[8];
  const char* nl = msym_choice(2, "newline") ? "\r\n" : "\n";
  int bad = (int)msym_choice(5, "request");
  word(op, 1, "method"); word(path, c, "path");
  hdrs = 0;
  switch (bad) {
    case 0: put(op); put(" "); put(path); put(" HTTP/1.1"); lines(nl); headers(n, c, nl); break;
    case 1: put(op); put(" "); put(path); put(" HTTP/1.0"); lines(nl); put("X"); break;
    case 2: put(op); put(" HTTP/1.1"); lines(nl); put("X"); break;
    case 3: put(op); put(" "); put(path); put(" HTTP/1.1 x"); lines(nl); put("X"); break;
    case 4: break; /* the peer sends nothing */
  }
  env_stdin(text, nt);
  if (bad > 0 && bad < 4) exp_("Invalid HTTP request\n");
  atom_t r = eval_text(l, "(http/request)");
  expect(r, bad == 0 ? mk_list(l, 4, str(op), str(path), UP(hdrs), mk_nil(l)) : mk_nil(l), "a request is its method, its path and its headers");
  rest();
  if (hdrs) X(l, hdrs);
  out_is("a line that is no request is reported");
}
static void reply(int n, int c, char* code, char* m1, char* m2, int bad) {
  const char* nl = msym_choice(2, "newline") ? "\r\n" : "\n";
  word(code, 2, "code"); word(m1, 1, "message"); word(m2, (int)msym_choice(2, "second"), "message");
  hdrs = 0;
  put(bad == 1 ? "HTTP/1.0 " : "HTTP/1.1 "); put(code); put(" "); put(m1);
  if (*m2) { put(" "); put(m2); }
  lines(nl);
  if (!bad) headers(n, c, nl); else put("X");
}
static atom_t message(const char* m1, const char* m2) { char b[16]; strcpy(b, m1); if (*m2) { strcat(b, " "); strcat(b, m2); } return str(b); }
static void response(int n, int c) {
  lib_load(l, "http");
  char code[8], m1[8], m2[8];
  int bad = (int)msym_choice(3, "response");
  if (bad < 2) reply(n, c, code, m1, m2, bad);
  env_stdin(text, nt);
  if (bad == 1) exp_("Invalid HTTP response\n");
  atom_t r = eval_text(l, "(http/response)");
  expect(r, bad == 0 ? mk_list(l, 3, str(code), message(m1, m2), UP(hdrs)) : mk_nil(l), "a response is its code, its message and its headers");
  rest();
  if (hdrs) X(l, hdrs);
  out_is("a line that is no response is reported");
}
static int sock = -1, dups, sent_ok;
static char ask[64];
static char host_[8], svc_[8], gh[16], gs[16];
static int net(const char* name, long a0, long a1, long a2, long* r) {
  (void)a2; (void)r;
  if (!strcmp(name, "getaddrinfo")) { strcpy(gh, (const char*)a0); strcpy(gs, (const char*)a1); }
  if (!strcmp(name, "connect")) sock = (int)a0;
  if (!strcmp(name, "dup") && (int)a0 == sock && ++dups == 2) { /* the request is out: the server answers */
    struct ofile* o = &env_of[env_fd[sock]];
    size_t n = strlen(ask);
    sent_ok = o->len == n;
    for (size_t i = 0; i < n && i < o->len; i++) sent_ok = msym_and(sent_ok, o->data[i] == ask[i]);
    feed(o, text, nt);
  }
  return 0;
}
static void get(void) {
  lib_load(l, "http");
  run_text(l, "(def fn (c m h) (setq H (cons (list c m h) H)))");
  set_global(l, "H", mk_num(l, 0));
  char path[8], code[8], m1[8], m2[8];
  word(host_, 1, "host"); word(svc_, 1, "service"); word(path, 2, "path");
  strcpy(ask, "GET "); strcat(ask, path); strcat(ask, " HTTP/1.1\nHost: "); strcat(ask, host_); strcat(ask, "\nConnection: close\n\n");
  int bad = (int)msym_choice(2, "response"), f = (int)msym_choice(2, "fails");
  reply(1, 1, code, m1, m2, bad);
  int fds = env_fds_open();
  env_hook = net;
  if (f) env_faults = 1;
  atom_t e[5] = { mk_sym(l, "http/get"), str(host_), str(svc_), str(path), mk_sym(l, "fn") };
  e[1] = q(e[1]); e[2] = q(e[2]); e[3] = q(e[3]);
  atom_t nil = mk_nil(l);
  drop(l, lisp_eval(l, nil, mk_list_(l, 5, e)));
  X(l, nil);
  env_hook = 0;
  int faulted = f && env_faults == 0;
  env_faults = 0;
  CHECK(env_fds_open() == fds, "the connection is closed");
  CHECK(env_files_open == 0, "the streams of the connection are closed");
  atom_t w = mk_num(l, 0);
  if (!faulted) {
    CHECK(strcmp(gh, host_) == 0 && strcmp(gs, svc_) == 0, "the request goes to the host and service it is given");
    CHECK(dups == 2 && sent_ok, "the request is sent whole before the response is read");
    if (!bad) w = lisp_cons(l, mk_list(l, 3, str(code), message(m1, m2), UP(hdrs)), w);
    if (bad) exp_("Invalid HTTP response\n");
    out_is("what is no response is reported");
    expect(eval_text(l, "H"), w, "the callback gets the response, once");
  } else X(l, w);
  if (hdrs) X(l, hdrs);
}

/* ---- run */
static int child, pe[2], status_, waited;
static char w_[4][8];
static int na_, ne_;
static struct ofile* po;
static int streq(const char* s, const char* e) { size_t n = strlen(e); int ok = s[n] == 0; for (size_t i = 0; i < n; i++) ok = msym_and(ok, s[i] == e[i]); return ok; }
static int proc(const char* name, long a0, long a1, long a2, long* r) {
  if (!strcmp(name, "fork")) {
    if (!child) feed(po, text, nt);
    *r = child ? 0 : 5;
    return 1;
  }
  if (!strcmp(name, "waitpid")) {
    CHECK(!child && a0 == 5 && a2 == 0, "run waits for the process it started");
    waited++;
    *(int*)a1 = status_ << 8;
    *r = 5;
    return 1;
  }
  if (!strcmp(name, "execve")) {
    const char* p = (const char*)a0; char* const* a = (char* const*)a1; char* const* e = (char* const*)a2;
    CHECK(child, "only the child becomes the program");
    CHECK(streq(p, w_[0]) && streq(a[0], w_[0]), "the program is run");
    for (int i = 0; i < na_; i++) CHECK(a[1 + i] && streq(a[1 + i], w_[1 + i]), "its arguments are passed in order");
    CHECK(a[1 + na_] == NULL, "no other argument is passed");
    if (ne_) { CHECK(e[0] && streq(e[0], w_[3]), "its variables are passed as NAME=VALUE"); CHECK(e[1] == NULL, "no other variable is passed"); }
    CHECK(&env_of[env_fd[1]] == po, "the output of the program goes to the pipe");
    CHECK(env_fds_open() == 3, "the program inherits no descriptor of the pipe");
    if (msym_choice(2, "starts")) { msym_reach("end"); msym_end(); }
    errno = ENOENT;
    *r = -1;
    return 1;
  }
  if (!strcmp(name, "pipe")) { /* the model's own, remembered */
    env_hook = 0;
    pipe((int*)a0);
    env_hook = proc;
    pe[0] = ((int*)a0)[0]; pe[1] = ((int*)a0)[1];
    po = &env_of[env_fd[pe[0]]];
    *r = 0;
    return 1;
  }
  return 0;
}
static void left(int c) { CHECK(child && c != 0, "a child that cannot become the program ends"); msym_reach("end"); }
static void run_(int n) {
  lib_load(l, "run");
  child = (int)msym_choice(2, "side");
  word(w_[0], 2, "path");
  na_ = (int)msym_choice(3, "arguments");
  for (int i = 0; i < na_; i++) word(w_[1 + i], (int)msym_choice(2, "argument length"), "argument");
  ne_ = (int)msym_choice(2, "variables");
  char nm[4], v[4]; word(nm, 1, "name"); word(v, ne_ ? (int)msym_choice(2, "value length") : 0, "value");
  strcpy(w_[3], nm); strcat(w_[3], "="); strcat(w_[3], v);
  atom_t av[2] = { na_ > 0 ? str(w_[1]) : 0, na_ > 1 ? str(w_[2]) : 0 };
  atom_t args = mk_list_(l, na_, av), env = ne_ ? mk_list(l, 1, lisp_cons(l, str(nm), str(v))) : mk_nil(l);
  uint8_t st; msym_make(&st, 1, "status"); status_ = st;
  atom_t e[4];
  int k = child ? 0 : (int)msym_choice(n + 1, "lines");
  for (int i = 0; i < k; i++) { char b[8]; word(b, (int)msym_choice(3, "length"), "output"); put(b); put("\n"); e[i] = str(b); }
  int fds = env_fds_open();
  env_hook = proc; env_exit_ok = 1; env_at_exit = left;
  atom_t f[4] = { mk_sym(l, "run"), q(str(w_[0])), q(args), q(env) };
  atom_t nil = mk_nil(l);
  atom_t r = lisp_eval(l, nil, mk_list_(l, 4, f));
  X(l, nil);
  env_hook = 0; env_exit_ok = 0;
  CHECK(!child, "the child never returns to the program");
  CHECK(waited == 1, "run waits for the process it started");
  CHECK(env_fds_open() == fds && env_files_open == 0, "run closes its pipe");
  atom_t c = mk_num(l, 0); c->number = st;
  expect(r, lisp_cons(l, c, mk_list_(l, k, e)), "run yields the status and every line of the output");
}

/* ---- test */
static void test(void) {
  static const char* opt[][2] = { { 0, 0 }, { "-l", 0 }, { "-t", "bb" }, { "-t", "bb,a" }, { "-t", "zz" }, { "-h", 0 } };
  int o = (int)msym_choice(8, "what"), n = 1;
  atom_t v[3] = { str("d/prg"), 0, 0 };
  for (int i = 0; o < 6 && i < 2 && opt[o][i]; i++) v[n++] = str(opt[o][i]);
  set_global(l, "ARGV", mk_list_(l, n, v));
  lib_load(l, "test");
  run_text(l, "(def fx (x) (prog (setq H (cons x H)) x))");
  atom_t h = mk_num(l, 0), x = sym_num(l, "x"), y = sym_num(l, "y");
  set_global(l, "H", UP(h)); set_global(l, "x", UP(x)); set_global(l, "y", UP(y));
  int gx = x->number == 5 ? 1 : 0, gy = y->number == 6 ? 1 : 0;
  /* a failing assertion prints its value */
  if (!gx) { msym_assume(x->number >= 0); msym_assume(x->number < 10); }
  if (!gy) { msym_assume(y->number >= 0); msym_assume(y->number < 10); }
  int ok, rx = 0, ry = 0;
  atom_t r;
  switch (o) {
    case 6: r = eval_text(l, "(assert:equal 5 (fx x))"); ok = gx; rx = 1; break;
    case 7: r = eval_text(l, "(assert:predicate (= 5) (fx x))"); ok = gx; rx = 1; break;
    default:
      r = eval_text(l, "(test:run \"suite\" (\"a\" . (assert:equal 5 (fx x))) (\"bb\" . (assert:equal 6 (fx y))))");
      rx = o == 0 || o == 3; ry = o == 0 || o == 2 || o == 3;
      ok = o == 0 || o == 3 ? gx && gy : o == 2 ? gy : o == 4 ? 0 : -1;
  }
  if (ok >= 0) { CHECK(IS_TRUE(r) || IS_NULL(r), "the outcome is T or NIL"); CHECK(IS_TRUE(r) == ok, "the outcome tells whether every test passed"); }
  if (o == 3 && ry) { h = lisp_cons(l, UP(y), h); ry = 0; }
  if (rx) h = lisp_cons(l, UP(x), h);
  if (ry) h = lisp_cons(l, UP(y), h);
  expect(eval_text(l, "H"), h, "each selected test runs once, in order");
  if (o == 5) {
    exp_("Usage: prg [-l|-t test1,test2,...|-h] \n\n  -l  List available tests\n  -t  Comma-separated list of tests\n  -h  Print this help\n");
    out_is("-h prints how the suite is used");
  }
  X(l, x, y, r);
}

/* ---- serve */
static int b_port = -1;
static int serve_hook(const char* name, long a0, long a1, long a2, long* r) {
  (void)a0; (void)a2; (void)r;
  if (!strcmp(name, "bind")) b_port = ntohs(((struct sockaddr_in*)a1)->sin_port);
  if (!strcmp(name, "select")) { errno = EINVAL; *r = -1; return 1; }
  return 0;
}
static void serve(void) {
  lib_load(l, "http");
  atom_t p = sym_num(l, "port");
  msym_assume(p->number >= 0); msym_assume(p->number <= 65535);
  set_global(l, "port", UP(p));
  run_text(l, "(def fn (o p h b) NIL)");
  env_hook = serve_hook;
  drop(l, eval_text(l, "(http/serve port fn)"));
  env_hook = 0;
  CHECK(b_port == p->number, "the server listens on the port it is given");
  X(l, p);
}

/* ---- a server and its clients: they connect and are heard in any order */
#define NCL 3
static struct { int fd, sent, dup, open; struct ofile* o; char op[4], path[4], text[48], reply[96]; int bad; size_t nr; } cl[NCL];
static int ncl, max_cl, lost, srv_ = -1, rounds, heard[NCL], nheard;
static int clients_hook(const char* name, long a0, long a1, long a2, long* r) {
  int fd = (int)a0;
  if (!strcmp(name, "bind")) { b_port = ntohs(((struct sockaddr_in*)a1)->sin_port); return 0; }
  if (!strcmp(name, "listen")) { srv_ = fd; return 0; }
  if (!strcmp(name, "accept")) {
    CHECK(fd == srv_ && ncl + lost < max_cl, "the server accepts on its socket when somebody connects");
    if (!lost && msym_choice(2, "lost")) { lost = 1; errno = ECONNABORTED; *r = -1; return 1; }
    extern int socket(int, int, int);
    env_hook = 0;
    int c = socket(AF_INET, SOCK_STREAM, 0);
    env_hook = clients_hook;
    struct sockaddr_in* sa = (struct sockaddr_in*)a1;
    memset(sa, 0, sizeof *sa); sa->sin_family = AF_INET; sa->sin_port = htons((uint16_t)(7 + ncl)); sa->sin_addr.s_addr = 0x0100007f;
    exp_("Accepting connection from 127.0.0.1:"); { char b[2] = { (char)('7' + ncl), 0 }; exp_(b); } exp_("\n");
    cl[ncl].fd = c; cl[ncl].o = &env_of[env_fd[c]]; cl[ncl].open = 1;
    feed(cl[ncl].o, cl[ncl].text, strlen(cl[ncl].text));
    ncl++;
    *r = c;
    return 1;
  }
  if (!strcmp(name, "select")) {
    fd_set* s = (fd_set*)a1;
    int n = 0, ev[NCL + 1], max = srv_;
    CHECK(fd > 0 && srv_ >= 0, "a server that cannot listen does not wait");
    if (++rounds > 2 * NCL + 2) msym_fail("the server polls without end");
    CHECK(FD_ISSET(srv_, s), "the server waits for connections");
    for (int i = 0; i < ncl; i++) {
      CHECK(!FD_ISSET(cl[i].fd, s) == !cl[i].open || !cl[i].open, "the server waits for every client it has not answered");
      if (cl[i].open) { ev[n++] = cl[i].fd; if (cl[i].fd > max) max = cl[i].fd; }
    }
    int set = 0, open = 1 + n;
    for (int i = 0; i < 16; i++) set += !!FD_ISSET(i, s);
    CHECK(set == open, "the server waits for nothing else");
    CHECK(fd == max + 1, "every descriptor is watched");
    if (ncl + lost < max_cl) ev[n++] = srv_;
    if (n == 0) { FD_ZERO(s); FD_ZERO((fd_set*)a2); *r = 0; return 1; }
    int which = 1 + (int)msym_choice((1 << n) - 1, "ready");
    FD_ZERO(s); FD_ZERO((fd_set*)a2);
    *r = 0;
    for (int i = 0; i < n; i++) if (which >> i & 1) { FD_SET(ev[i], s); ++*r; }
    return 1;
  }
  for (int i = 0; i < ncl; i++) if (cl[i].open && fd == cl[i].fd) {
    if (!strcmp(name, "dup")) {
      if (++cl[i].dup == 1) { CHECK(nheard < NCL, "each client is heard once"); heard[nheard++] = i; if (cl[i].bad == 1) exp_("Invalid HTTP request\n"); }
      else if (cl[i].dup == 2) { cl[i].o->len = cl[i].o->pos = 0; } /* the request has been read */
      else CHECK(0, "each client is answered once");
    }
    if (!strcmp(name, "close")) {
      cl[i].open = 0;
      if (cl[i].dup == 2) { CHECK(cl[i].o->len < sizeof cl[i].reply, "an answer is short"); cl[i].nr = cl[i].o->len; memcpy(cl[i].reply, cl[i].o->data, cl[i].nr); }
    }
  }
  return 0;
}
static void clients(int n) {
  lib_load(l, "http");
  run_text(l, "(def fn (o p h b) (prog (setq H (cons (list o p h b) H)) (if (= p \"n\") 'NOT_FOUND p)))");
  set_global(l, "H", mk_num(l, 0));
  max_cl = n;
  for (int i = 0; i < n; i++) {
    const char* nl = "\r\n";
    cl[i].bad = (int)msym_choice(3, "request");
    word(cl[i].op, 1, "method"); word(cl[i].path, 1, "path");
    nt = 0;
    if (cl[i].bad < 2) { put(cl[i].op); put(" "); put(cl[i].path); put(cl[i].bad ? " HTTP/1.0" : " HTTP/1.1"); put(nl); put(nl); } else text[0] = 0;
    strcpy(cl[i].text, text);
  }
  int fds = env_fds_open(), bad = n == 0 && msym_choice(2, "no socket");
  env_hook = clients_hook;
  if (bad) env_faults = 1;
  drop(l, eval_text(l, "(http/serve 80 fn)"));
  env_hook = 0;
  bad = bad && env_faults == 0;
  env_faults = 0;
  CHECK(env_fds_open() == fds && env_files_open == 0, "a server that ends closes its socket");
  if (bad) return;
  CHECK(b_port == 80, "the server listens on the port it is given");
  CHECK(nheard == ncl, "every client that connected is heard");
  atom_t h = mk_num(l, 0);
  for (int j = 0; j < nheard; j++) {
    int i = heard[j];
    CHECK(!cl[i].open, "the connection is closed after its request");
    if (cl[i].bad) { CHECK(cl[i].dup == 1, "what is no request is not answered"); continue; }
    h = lisp_cons(l, mk_list(l, 4, str(cl[i].op), str(cl[i].path), mk_nil(l), mk_nil(l)), h);
    static const char *nf = "HTTP/1.1 404 Not Found\nConnection: close\n\n", *er = "HTTP/1.1 500 Internal Server Error\nConnection: close\n\n";
    const char* w = msym_decide(cl[i].path[0] == 'n') ? nf : er;
    CHECK(cl[i].dup == 2 && cl[i].nr == strlen(w) && memcmp(cl[i].reply, w, cl[i].nr) == 0, "the answer follows what the handler yields");
  }
  expect(eval_text(l, "H"), h, "the handler gets each request once, in the order they are heard");
  out_is("connections and invalid requests are reported");
}

/* many flags; a long request with many headers */
static void big(int n, int kind) {
  char c = any_char("character"); msym_assume(c != ':');
  if (kind == 0) {
    lib_load(l, "args");
    run_text(l, "(def fa () (setq H (cons 'a H))) (def fb (x) (setq H (cons (cons 'b x) H)))");
    atom_t h = mk_num(l, 0), argv = mk_nil(l), res = mk_nil(l);
    set_global(l, "H", UP(h));
    for (int i = n; i-- > 0;) {
      char w[4] = { 'v', i == n / 2 ? c : 'x', 0 };
      if (i % 3) argv = lisp_cons(l, str("-b"), lisp_cons(l, str(w), argv)); else argv = lisp_cons(l, str("-a"), argv);
    }
    for (int i = 0; i < n; i++) {
      char w[4] = { 'v', i == n / 2 ? c : 'x', 0 };
      h = lisp_cons(l, i % 3 ? lisp_cons(l, mk_sym(l, "b"), str(w)) : mk_sym(l, "a"), h);
      res = lisp_cons(l, str(i % 3 ? "-b" : "-a"), res);
    }
    set_global(l, "ARGV", lisp_cons(l, str("p"), argv));
    expect(eval_text(l, "(args:parse '((\"-a\" . fa) (\"-b\" . fb)))"), res, "the flags that were parsed are given back");
    expect(eval_text(l, "H"), h, "each flag gets its values, in order");
    return;
  }
  lib_load(l, "http");
  char* t = malloc(8192); size_t k = 0;
  char* p = malloc(320); for (int i = 0; i < 300; i++) p[i] = (char)('a' + i % 26); p[0] = '/'; p[299] = c; p[300] = 0;
#define W(s) do { const char* z_ = (s); while (*z_) t[k++] = *z_++; } while (0)
  atom_t hd = mk_nil(l);
  W("GET "); W(p); W(" HTTP/1.1\r\n");
  for (int i = 0; i < n; i++) {
    char nm[8] = { 'N', (char)('a' + i / 26), (char)('a' + i % 26), 0 };
    W(nm); W(": ");
    char v[64]; int m = 1 + i % 60; for (int j = 0; j < m; j++) v[j] = (char)('a' + (i + j) % 26); v[m] = 0; if (i == n / 2) v[m / 2] = c;
    W(v); W("\r\n");
    hd = lisp_append(l, hd, lisp_cons(l, str(nm), mk_str(l, v, (size_t)m)));
  }
  W("\r\nX");
  env_stdin(t, k);
  expect(eval_text(l, "(http/request)"), mk_list(l, 4, str("GET"), str(p), hd, mk_nil(l)), "a request is its method, its path and its headers");
  expect(eval_text(l, "(readline)"), str("X"), "nothing after the headers is consumed");
  free(p); free(t);
}
void harness(void) {
  l = boot_share();
  atom_t req = lisp_cons(l, mk_sym(l, "unix"), mk_t(l));
  drop(l, module_load(l, req));
  switch (A(0)) {
    case 0: args(A(1)); break;
    case 1: request(A(1), A(2)); break;
    case 2: response(A(1), A(2)); break;
    case 3: get(); break;
    case 4: run_(A(1)); break;
    case 5: test(); break;
    case 6: serve(); break;
    case 8: big(A(1), A(2)); break;
    default: clients(A(1));
  }
  io_down(l);
  shutdown_ctx(l, "the programs of the library release every atom");
  msym_reach("end");
}
