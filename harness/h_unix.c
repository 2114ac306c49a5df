/* C19: the unix and sys modules pass their arguments to the system exactly and give back what it returned.
 * arg0: mode (see harness); arg1: number of arguments or form; arg2: faults */
#include "lib.h"
#include <arpa/inet.h>
#include <errno.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <sys/socket.h>

static lisp_t l;
static struct { const char* name; long a, b, c; } log_[16];
static int nlog;
static const char* want; static long result; static int err; /* the call that is answered */
static int symbolic_result(const char* n) { int v; msym_make(&v, 4, n); return v; }
static int answer(const char* name, long a0, long a1, long a2, long* ret) {
  int w = strcmp(name, want) == 0 || (strcmp(want, "dup") == 0 && strcmp(name, "dup2") == 0);
  if (!w) return 0;
  if (nlog < 16) { log_[nlog].name = name; log_[nlog].a = a0; log_[nlog].b = a1; log_[nlog].c = a2; nlog++; }
  int r = symbolic_result("result");
  if (msym_choice(2, "fails")) { r = -1; msym_make(&err, 4, "errno"); msym_assume(msym_and(err > 0, err < 4096)); errno = err; }
  else { msym_assume(r >= 0); errno = 4095; } /* a call that succeeds may leave anything in errno */
  result = r; *ret = r;
  return 1;
}
static atom_t q(atom_t v) { return lisp_cons(l, mk_sym(l, "quote"), v); }
static atom_t arg(int depth) { return any_value(l, depth, "arg"); }
/* calls the function with the given values; the caller keeps a reference to each */
static atom_t call(const char* f, int n, atom_t* v) {
  atom_t e[6];
  for (int i = 0; i < n; i++) e[i] = q(UP(v[i]));
  atom_t nil = mk_nil(l), r = lisp_eval(l, nil, lisp_cons(l, mk_sym(l, f), mk_list_(l, n, e)));
  well_formed(r);
  X(l, nil);
  return r;
}
static int is_fd(atom_t a) { return a->type == T_NUMBER && a->number >= 0 && a->number <= INT_MAX; }

static int closed_[8], nclosed; static long close_fd[8]; static int close_res[8];
static int close_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a1; (void)a2;
  if (strcmp(name, "close")) return 0;
  close_fd[nclosed] = a0; close_res[nclosed] = msym_choice(2, "close") ? -1 : 0; *ret = close_res[nclosed++];
  return 1;
}
static void m_close(int n) {
  atom_t v[4];
  for (int i = 0; i < n; i++) v[i] = arg(i == 0);
  env_hook = close_hook;
  atom_t r = call("close", n, v);
  env_hook = 0;
  int k = 0, ok = 1;
  for (int i = 0; i < n; i++) {
    if (!is_fd(v[i])) { ok = 0; continue; }
    CHECK(k < nclosed, "close closes every descriptor");
    if (k < nclosed) { CHECK(close_fd[k] == v[i]->number, "close closes the descriptors in order"); ok &= close_res[k] == 0; k++; }
  }
  CHECK(k == nclosed, "close closes nothing else");
  CHECK(r->type == (ok ? T_TRUE : T_NIL), "close yields T when everything was closed");
  drop(l, r);
  for (int i = 0; i < n; i++) drop(l, v[i]);
}
static void m_dup(void) {
  atom_t v[2] = { arg(1), arg(0) };
  int one = msym_choice(2, "one argument");
  if (one) { drop(l, v[1]); v[1] = mk_nil(l); }
  want = "dup"; env_hook = answer;
  atom_t r = call("dup", one ? 1 : 2, v);
  env_hook = 0;
  int to = v[1]->type != T_NIL, valid = is_fd(v[0]) && (!to || is_fd(v[1]));
  CHECK(nlog == valid, "dup makes one call for descriptors, none for anything else");
  if (valid && nlog) {
    CHECK(strcmp(log_[0].name, to ? "dup2" : "dup") == 0 && log_[0].a == v[0]->number, "dup duplicates its first argument");
    if (to) CHECK(log_[0].b == v[1]->number, "dup duplicates to its second argument");
    CHECK(is_num(r, result < 0 ? err : result), "dup yields the new descriptor, or the error");
  } else CHECK(r->type == T_NIL, "dup of what is not a descriptor is NIL");
  drop(l, r); drop(l, v[0]); drop(l, v[1]);
}
static int status;
static int wait_hook(const char* name, long a0, long a1, long a2, long* ret) {
  if (strcmp(name, "waitpid")) return 0;
  int r = answer(name, a0, a1, a2, ret);
  if (*ret >= 0) { msym_make(&status, 4, "status"); *(int*)a1 = status; }
  return r;
}
static void m_wait(void) {
  atom_t v[1] = { arg(1) };
  want = "waitpid"; env_hook = wait_hook;
  atom_t r = call("wait", 1, v);
  env_hook = 0;
  int valid = v[0]->type == T_NUMBER && v[0]->number >= INT_MIN && v[0]->number <= INT_MAX;
  CHECK(nlog == valid, "wait waits once, for a process number only");
  if (valid && nlog) {
    CHECK(log_[0].a == v[0]->number && log_[0].c == 0, "wait waits for the process it is given");
    if (result < 0) CHECK(is_num(r, err), "wait yields the error");
    else if ((status & 0x7f) == 0) CHECK(is_num(r, (status >> 8) & 0xff), "wait yields the exit status");
    else CHECK(r->type == T_NIL, "wait yields NIL for a process that did not exit");
  } else CHECK(r->type == T_NIL, "wait for what is not a process is NIL");
  drop(l, r); drop(l, v[0]);
}
static void m_fork(void) {
  want = "fork"; env_hook = answer;
  atom_t r = call("fork", 0, NULL);
  env_hook = 0;
  CHECK(nlog == 1 && is_num(r, result < 0 ? err : result), "fork yields what the system gave, or the error");
  drop(l, r);
}
static int pfd[2];
static int pipe_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a1; (void)a2;
  if (strcmp(name, "pipe")) return 0;
  nlog++;
  if (msym_choice(2, "fails")) { *ret = -1; return 1; }
  for (int i = 0; i < 2; i++) { pfd[i] = symbolic_result("end"); ((int*)a0)[i] = pfd[i]; }
  *ret = 0;
  result = 1;
  return 1;
}
static void m_pipe(void) {
  env_hook = pipe_hook;
  atom_t r = call("pipe", 0, NULL);
  env_hook = 0;
  CHECK(nlog == 1, "pipe makes one pipe");
  if (result) CHECK(r->type == T_PAIR && msym_and(is_num(CAR(r), pfd[0]), is_num(CDR(r), pfd[1])), "pipe yields its reading and its writing end");
  else CHECK(r->type == T_NIL, "a pipe that cannot be made is NIL");
  drop(l, r);
}
static unsigned char ip[4]; static uint8_t port[2]; static int family, acc;
static int accept_hook(const char* name, long a0, long a1, long a2, long* ret) {
  if (strcmp(name, "accept")) return 0;
  log_[nlog].a = a0; nlog++;
  if (msym_choice(2, "fails")) { *ret = -1; return 1; }
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  family = msym_choice(2, "family");
  s.sin_family = family ? AF_UNIX : AF_INET;
  for (int i = 0; i < 4; i++) if (i == 0 || i == 3) msym_make(&ip[i], 1, "address"); else ip[i] = i == 1 ? 0 : 168;
  for (int i = 0; i < 2; i++) msym_make(&port[i], 1, "port");
  memcpy(&s.sin_addr, ip, 4); memcpy(&s.sin_port, port, 2);
  CHECK(*(socklen_t*)a2 == sizeof s, "accept offers room for an address");
  memcpy((void*)a1, &s, sizeof s);
  acc = symbolic_result("descriptor"); msym_assume(acc >= 0);
  *ret = acc; result = 1;
  return 1;
}
static void m_accept(void) {
  atom_t v[1] = { arg(1) };
  env_hook = accept_hook;
  atom_t r = call("accept", 1, v);
  env_hook = 0;
  int valid = is_fd(v[0]);
  if (valid) CHECK(nlog == 1 && log_[0].a == v[0]->number, "accept accepts on its descriptor");
  else CHECK(nlog == 0 || (v[0]->type == T_NUMBER && log_[0].a < 0), "accept accepts on descriptors only");
  if (!valid && nlog) msym_discard(); /* the system refuses a negative descriptor */
  if (!result) CHECK(r->type == T_NIL, "an accept that fails is NIL");
  else {
    CHECK(r->type == T_PAIR && is_num(CAR(r), acc), "accept yields the new descriptor");
    if (r->type == T_PAIR && family) CHECK(CDR(r)->type == T_NIL, "there is no address of another family");
    if (r->type == T_PAIR && !family) {
      CHECK(CDR(r)->type == T_PAIR && is_num(CDR(CDR(r)), port[0] * 256 + port[1]), "accept yields the port of the peer");
      char t[20]; int n = 0;
      for (int i = 0; i < 4; i++) { int b = ip[i]; if (i) t[n++] = '.'; if (b >= 100) t[n++] = (char)('0' + b / 100); if (b >= 10) t[n++] = (char)('0' + b / 10 % 10); t[n++] = (char)('0' + b % 10); }
      atom_t h = mk_str(l, t, (size_t)n);
      if (CDR(r)->type == T_PAIR) CHECK(same_expr(CAR(CDR(r)), h), "accept yields the address of the peer");
      drop(l, h);
    }
  }
  drop(l, r); drop(l, v[0]);
}
static int s_sock, s_nodelay, s_reuse, s_bind, s_listen, s_conn; static int b_fam, b_port, b_any, b_len; static long s_fd;
static struct addrinfo* ai_out; static char gai_host[16], gai_svc[16];
static int sock_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)ret;
  if (!strcmp(name, "socket")) { CHECK(a0 == AF_INET && a1 == SOCK_STREAM, "the socket is a TCP socket"); s_sock++; }
  if (!strcmp(name, "setsockopt")) { if (a2 == TCP_NODELAY && a1 == SOL_TCP) s_nodelay++; if (a2 == SO_REUSEPORT && a1 == SOL_SOCKET) s_reuse++; }
  if (!strcmp(name, "bind")) {
    struct sockaddr_in* s = (struct sockaddr_in*)a1; uint8_t p[2]; memcpy(p, &s->sin_port, 2);
    s_bind++; s_fd = a0; b_fam = s->sin_family; b_port = p[0] * 256 + p[1]; b_any = s->sin_addr.s_addr == 0; b_len = (int)a2;
  }
  if (!strcmp(name, "listen")) { s_listen++; CHECK(a0 == s_fd && s_bind == 1 && a1 > 0, "the bound socket listens"); }
  if (!strcmp(name, "connect")) { s_conn++; s_fd = a0; CHECK(env_ai_live == 1 && a2 == sizeof(struct sockaddr_in), "the resolved address is used"); }
  if (!strcmp(name, "getaddrinfo")) {
    strncpy(gai_host, (char*)a0, 15); strncpy(gai_svc, (char*)a1, 15);
  }
  return 0;
}
static void m_listen(void) {
  atom_t v[1] = { arg(1) };
  env_hook = sock_hook;
  env_faults = (int)msym_arg(2); int budget = env_faults;
  int before = env_fds_open();
  atom_t r = call("listen", 1, v);
  int faulted = env_faults < budget;
  env_hook = 0; env_faults = 0;
  int valid = v[0]->type == T_NUMBER && v[0]->number >= 0 && v[0]->number <= 65535;
  if (!valid || faulted) {
    if (!valid) CHECK(s_sock == 0, "listen takes ports only");
    CHECK(r->type == T_NIL, "a listen that fails is NIL");
    CHECK(env_fds_open() == before, "a listen that fails leaves no socket open");
  } else {
    CHECK(r->type == T_NUMBER && r->number == s_fd, "listen yields the listening socket");
    CHECK(s_bind == 1 && s_listen == 1 && s_nodelay == 1 && s_reuse == 1, "listen binds and listens");
    CHECK(b_fam == AF_INET && b_any && b_len == sizeof(struct sockaddr_in), "listen binds every address");
    CHECK(b_port == v[0]->number, "listen binds the port it is given");
    CHECK(env_fds_open() == before + 1, "listen opens one socket");
    if (r->type == T_NUMBER) close((int)r->number);
  }
  drop(l, r); drop(l, v[0]);
}
static atom_t any_string(int max, char* out, int* n) {
  *n = msym_choice(max + 1, "length");
  for (int i = 0; i < *n; i++) { msym_make(&out[i], 1, "char"); msym_assume(out[i] != 0); }
  return mk_str(l, out, (size_t)*n);
}
static int text_is(const char* s, const char* e, int n) { int ok = s[n] == 0; for (int i = 0; i < n; i++) ok = msym_and(ok, s[i] == e[i]); return ok; }
static void m_connect(void) {
  char h[4], p[4]; int hn = 0, pn = 0;
  int odd = msym_choice(3, "kinds");
  atom_t v[2] = { odd == 1 ? arg(1) : any_string(3, h, &hn), odd == 2 ? arg(1) : any_string(3, p, &pn) };
  env_hook = sock_hook;
  env_faults = (int)msym_arg(2); int budget = env_faults;
  int before = env_fds_open();
  atom_t r = call("connect", 2, v);
  int faulted = env_faults < budget;
  env_hook = 0; env_faults = 0;
  int valid = lisp_is_string(v[0]) && lisp_is_string(v[1]) && v[0]->type != T_NIL && v[1]->type != T_NIL;
  CHECK(env_ai_live == 0, "connect releases the addresses it resolved");
  if (!valid || faulted) {
    if (!valid) CHECK(s_conn == 0, "connect takes a host and a service only");
    CHECK(r->type == T_NIL && env_fds_open() == before, "a connect that fails is NIL and leaves no socket open");
  } else {
    CHECK(s_conn == 1 && r->type == T_NUMBER && r->number == s_fd, "connect yields the connected socket");
    if (odd == 0) { CHECK(text_is(gai_host, h, hn), "connect resolves the host it is given"); CHECK(text_is(gai_svc, p, pn), "connect resolves the service it is given"); }
    CHECK(env_fds_open() == before + 1, "connect opens one socket");
    if (r->type == T_NUMBER) close((int)r->number);
  }
  drop(l, r); drop(l, v[0]); drop(l, v[1]);
}
/* host and service of any length: the system is asked for the whole of both, or not at all */
static int long_n[2], long_asked; static char long_end[2][2];
static int long_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a2; (void)ret;
  if (strcmp(name, "getaddrinfo")) return 0;
  long_asked++;
  for (int i = 0; i < 2; i++) {
    const char* s = (const char*)(i ? a1 : a0);
    int n = (int)strlen(s);
    CHECK(n == long_n[i], "connect resolves the whole of the host and service it is given");
    if (n == long_n[i]) CHECK(msym_and(s[n - 1] == long_end[i][1], s[n - 2] == long_end[i][0]), "connect resolves the host and service it is given");
  }
  return 0;
}
static void m_connect_long(int which) {
  static const int ln[] = { 15, 16, 17, 32, 64, 255, 1022, 1023, 1024, 1025, 1100 };
  atom_t v[2];
  int n = ln[msym_choice(11, "length")];
  for (int i = 0; i < 2; i++) {
    int k = i == which ? n : 2;
    char* b = malloc((size_t)k);
    for (int j = 0; j < k - 2; j++) b[j] = i ? '0' : 'h';
    for (int j = 0; j < 2; j++) { msym_make(&long_end[i][j], 1, "char"); msym_assume(long_end[i][j] != 0); b[k - 2 + j] = long_end[i][j]; }
    v[i] = mk_str(l, b, (size_t)k); long_n[i] = k;
    free(b);
  }
  int before = env_fds_open();
  env_hook = long_hook;
  atom_t r = call("connect", 2, v);
  env_hook = 0;
  if (n <= 255) CHECK(long_asked == 1, "connect takes any host and service");
  if (!long_asked) CHECK(r->type == T_NIL && env_fds_open() == before, "a connect that fails is NIL and leaves no socket open");
  else { CHECK(r->type == T_NUMBER && long_asked == 1 && env_fds_open() == before + 1, "connect yields one connected socket"); if (r->type == T_NUMBER) close((int)r->number); }
  drop(l, r); drop(l, v[0]); drop(l, v[1]);
}
/* exec */
static char xs[6][4]; static int xn[6], x_args, x_envs, x_default_env, x_valid, x_called;
extern char** environ;
static int exec_hook(const char* name, long a0, long a1, long a2, long* ret) {
  if (strcmp(name, "execve")) return 0;
  const char* p = (const char*)a0; char* const* a = (char* const*)a1; char* const* e = (char* const*)a2;
  x_called++;
  CHECK(x_valid, "exec starts nothing for what is not a program and its strings");
  if (x_valid) {
    CHECK(text_is(p, xs[0], xn[0]), "exec runs the program it is given");
    CHECK(a[0] && text_is(a[0], xs[0], xn[0]), "the first argument is the program");
    for (int i = 0; i < x_args; i++) CHECK(a[i + 1] && text_is(a[i + 1], xs[1 + i], xn[1 + i]), "exec passes its arguments in order");
    CHECK(a[x_args + 1] == NULL, "exec passes no other argument");
    if (x_envs == 0) CHECK(e == environ, "without variables, exec passes the environment of the interpreter");
    else {
      for (int i = 0; i < x_envs; i++) CHECK(e[i] && text_is(e[i], xs[3 + i], xn[3 + i]), "exec passes its variables in order");
      CHECK(e[x_envs] == NULL, "exec passes no other variable");
    }
  }
  if (msym_choice(2, "starts")) { msym_reach("end"); msym_end(); }
  msym_make(&err, 4, "errno"); msym_assume(msym_and(err > 0, err < 4096)); errno = err;
  *ret = -1;
  return 1;
}
static void exec_exit(int c) {
  if (x_called) CHECK(c == err, "exec exits with the error of the system");
  else CHECK(!x_valid && c != 0, "exec exits with an error when it cannot run");
  msym_reach("end");
}
static void m_exec(int form) {
  x_valid = 1;
  atom_t v[3];
  v[0] = any_string(form ? 1 : 2, xs[0], &xn[0]);
  x_args = form ? 1 : msym_choice(3, "arguments"); x_envs = form ? 0 : msym_choice(3, "variables");
  atom_t a[2], e[2];
  for (int i = 0; i < x_args; i++) a[i] = any_string(form ? 0 : 2, xs[1 + i], &xn[1 + i]);
  for (int i = 0; i < x_envs; i++) e[i] = any_string(1, xs[3 + i], &xn[3 + i]);
  v[1] = mk_list_(l, x_args, a); v[2] = mk_list_(l, x_envs, e);
  /* one of the three replaced by any value */
  if (form > 0 && form < 4) {
    int i = form - 1;
    drop(l, v[i]); v[i] = any_value(l, 2, "odd");
    int ok = 1;
    if (i == 0) ok = lisp_is_string(v[0]); else { atom_t c = v[i]; while (c->type == T_PAIR && ok) { ok = lisp_is_string(CAR(c)); c = CDR(c); } if (c->type != T_NIL) ok = 0; }
    if (ok) msym_discard(); /* covered by form 0 */
    x_valid = 0;
  }
  env_hook = exec_hook; env_exit_ok = 1; env_at_exit = exec_exit;
  atom_t r = call("exec", 3, v);
  (void)r;
  CHECK(0, "exec does not return");
}
/* an argument of any length and any number of arguments: sizes at the limits of the original */
static int x_long, x_many;
static int exec_long_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a0; (void)a2; (void)ret;
  if (strcmp(name, "execve")) return 0;
  char* const* a = (char* const*)a1;
  for (int i = 0; i < x_many; i++) CHECK(a[i + 1] != NULL && (int)strlen(a[i + 1]) == x_long, "exec passes every argument whole");
  CHECK(a[x_many + 1] == NULL, "exec passes no other argument");
  msym_reach("end"); msym_end();
  return 0;
}
static void m_exec_long(int kind) {
  static const int ln[2][3] = { { 4094, 4096, 4200 }, { 1, 1, 1 } }, mn[2][3] = { { 1, 1, 2 }, { 126, 127, 140 } };
  int k = msym_choice(3, "size");
  x_long = ln[kind][k]; x_many = mn[kind][k];
  char* b = malloc((size_t)x_long); memset(b, 'x', (size_t)x_long);
  atom_t s = mk_str(l, b, (size_t)x_long), a = mk_nil(l);
  for (int i = 0; i < x_many; i++) a = lisp_cons(l, UP(s), a);
  atom_t v[3] = { mk_str(l, "/p", 2), a, mk_nil(l) };
  env_hook = exec_long_hook;
  call("exec", 3, v);
  CHECK(0, "exec does not return");
}
static char u_path[8]; static int u_n, u_calls, u_res;
static int unlink_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a1; (void)a2;
  if (strcmp(name, "unlink")) return 0;
  u_calls++;
  if (u_n >= 0) CHECK(text_is((const char*)a0, u_path, u_n), "unlink removes the file it is given");
  u_res = msym_choice(2, "fails") ? -1 : 0; *ret = u_res;
  return 1;
}
static void m_unlink(int form) {
  atom_t v[1];
  if (form) { v[0] = any_value(l, 2, "arg"); u_n = -1; } else v[0] = any_string(4, u_path, &u_n);
  env_hook = unlink_hook;
  atom_t r = call("unlink", 1, v);
  env_hook = 0;
  int s = lisp_is_string(v[0]);
  CHECK(s ? u_calls == 1 : u_calls == 0, "unlink removes one file, named by a string");
  CHECK(r->type == (s && u_res == 0 ? T_TRUE : T_NIL), "unlink yields T when the file was removed");
  drop(l, r); drop(l, v[0]);
}
/* select */
enum { E_NUM, E_HIGH, E_NEG, E_BIG, E_NIL, E_T, E_SYM, E_CHAR, E_LIST, N_E };
static const int fds_[] = { 0, 3, 63, 64, 1023 };
static int sel_n, sel_kind[4]; static int64_t sel_v[4]; static int rd_[4], er_[4], sel_fail, sel_calls, sel_open_ok;
static int watch(int i) { return sel_kind[i] == E_NUM; }
static int select_hook(const char* name, long a0, long a1, long a2, long* ret) {
  if (!strcmp(name, "close")) { close_fd[nclosed++] = a0; *ret = 0; return 1; }
  if (strcmp(name, "select")) return 0;
  fd_set *r = (fd_set*)a1, *e = (fd_set*)a2;
  sel_calls++;
  int max = -1;
  for (int i = 0; i < sel_n; i++) if (watch(i) && sel_v[i] > max) max = (int)sel_v[i];
  CHECK(a0 > max && a0 <= FD_SETSIZE, "select covers every descriptor");
  for (int f = 0; f < FD_SETSIZE; f++) {
    int w = 0; for (int i = 0; i < sel_n; i++) w |= watch(i) && sel_v[i] == f;
    if (FD_ISSET(f, r) != (w ? FD_ISSET(f, r) | 1 : 0) || FD_ISSET(f, e) != (w ? FD_ISSET(f, e) | 1 : 0) || (w && (!FD_ISSET(f, r) || !FD_ISSET(f, e)))) { CHECK(0, "select watches exactly the descriptors of its list"); }
  }
  FD_ZERO(r); FD_ZERO(e);
  if (msym_choice(2, "fails")) { sel_fail = 1; *ret = -1; errno = EBADF; return 1; }
  for (int i = 0; i < sel_n; i++) {
    if (!watch(i)) continue;
    for (int j = 0; j < i; j++) if (watch(j) && sel_v[j] == sel_v[i]) { rd_[i] = rd_[j]; er_[i] = er_[j]; goto set; }
    { int b = msym_choice(4, "ready"); rd_[i] = b & 1; er_[i] = b >> 1; }
  set:
    if (rd_[i]) FD_SET((int)sel_v[i], r);
    if (er_[i]) FD_SET((int)sel_v[i], e);
  }
  *ret = 1;
  return 1;
}
/* what a callback answers: 0 NIL, 1 T, 2 the descriptor itself, 3 another number, 4 a list */
static int cb[2][4];
static atom_t elt(int i) {
  switch (sel_kind[i]) {
    case E_NIL: return mk_nil(l);
    case E_T: return mk_t(l);
    case E_SYM: return mk_sym(l, "fd");
    case E_CHAR: return lisp_make_char(l, 'c');
    case E_LIST: return mk_list(l, 1, mk_num(l, 3));
    default: return mk_num(l, sel_v[i]);
  }
}
static int called[2][4], ncalled[2];
static void m_select(int n) {
  sel_n = n;
  atom_t e[4];
  for (int i = 0; i < n; i++) {
    if (n > 1) { static const int few[] = { E_NUM, E_NEG, E_NIL }; sel_kind[i] = few[msym_choice(3, "element")]; } else sel_kind[i] = msym_choice(N_E, "element");
    switch (sel_kind[i]) {
      case E_NUM: sel_v[i] = fds_[n > 1 ? 1 + 2 * msym_choice(2, "descriptor") : msym_choice(5, "descriptor")]; break;
      case E_HIGH: sel_v[i] = 1024 + msym_choice(2, "descriptor") * 4000; break;
      case E_NEG: sel_v[i] = -1; break;
      case E_BIG: sel_v[i] = ((int64_t)1 << 32) + 3; break;
    }
    e[i] = elt(i);
  }
  /* the callbacks take their answers from a list, one per call, and record the descriptor */
  run_text(l, "(def CR (fd) (let ((x . (car RV))) (setq RL (cons fd RL)) (setq RV (cdr RV)) x))"
              "(def CE (fd) (let ((x . (car EV))) (setq EL (cons fd EL)) (setq EV (cdr EV)) x))");
  int nw = 0;
  for (int i = 0; i < n; i++) nw += watch(i);
  for (int s = 0; s < 2; s++) {
    atom_t t = mk_list(l, 1, mk_t(l));
    for (int k = nw - 1; k >= 0; k--) {
      cb[s][k] = s == 1 && n > 1 ? 1 : msym_choice(n > 1 ? 4 : 5, s ? "on error" : "on read");
      atom_t a = cb[s][k] == 0 ? mk_nil(l) : cb[s][k] == 1 ? mk_t(l) : cb[s][k] == 2 ? mk_num(l, -7) : cb[s][k] == 3 ? mk_num(l, 99) : mk_list(l, 1, mk_num(l, 1));
      t = lisp_cons(l, a, t);
    }
    set_global(l, s ? "EV" : "RV", t);
    set_global(l, s ? "EL" : "RL", mk_list(l, 1, mk_t(l)));
  }
  atom_t v[1] = { mk_list_(l, n, e) };
  if (n == 1 && msym_choice(2, "dotted")) { atom_t t = CDR(v[0]); v[0]->pair.cdr = mk_num(l, 5); X(l, t); } /* the end of a list is not an element */
  int none[2] = { msym_choice(2, "no read callback"), n > 1 ? 0 : msym_choice(2, "no error callback") };
  env_hook = select_hook;
  atom_t nil = mk_nil(l);
  atom_t r = lisp_eval(l, nil, mk_list(l, 4, mk_sym(l, "select"), q(UP(v[0])), none[0] ? mk_nil(l) : mk_sym(l, "CR"), none[1] ? mk_nil(l) : mk_sym(l, "CE")));
  well_formed(r);
  drop(l, nil);
  env_hook = 0;
  CHECK(sel_calls == 1, "select waits once");
  if (sel_fail) CHECK(r->type == T_NIL && nclosed == 0, "a select that fails is NIL");
  else {
    CHECK(r->type == T_PAIR && CDR(r)->type == T_PAIR && CDR(CDR(r))->type == T_NIL, "select yields two lists");
    int nc = 0;
    for (int s = 0; s < 2 && r->type == T_PAIR; s++) {
      atom_t x[10]; int nx = 0, k = 0; int64_t cl[4]; int ncl = 0;
      for (int i = 0; i < n; i++) {
        int num = sel_kind[i] <= E_BIG;
        if (watch(i) && !none[s] && (s ? er_[i] : rd_[i])) {
          int a = cb[s][k++];
          cl[ncl++] = sel_v[i];
          switch (a) {
            case 0: CHECK(nc < nclosed && close_fd[nc] == sel_v[i], "a descriptor whose callback yields NIL is closed"); nc++; break;
            case 2: x[nx++] = mk_num(l, sel_v[i]); x[nx++] = mk_num(l, -7); { atom_t y = x[nx - 1]; x[nx - 1] = x[nx - 2]; x[nx - 2] = y; } break;
            case 3: x[nx++] = mk_num(l, 99); x[nx++] = mk_num(l, sel_v[i]); break;
            default: x[nx++] = mk_num(l, sel_v[i]);
          }
        } else if (num) x[nx++] = mk_num(l, sel_v[i]);
      }
      atom_t w = mk_list_(l, nx, x), got = s ? CAR(CDR(r)) : CAR(r);
      CHECK(same_expr(got, w), "select yields the descriptors that are kept and those its callbacks added");
      drop(l, w);
      /* which descriptors the callback saw, in order */
      atom_t c = eval_text(l, s ? "EL" : "RL"), p = c;
      for (int i = ncl - 1; i >= 0; i--) { CHECK(p->type == T_PAIR && is_num(CAR(p), cl[i]), "each ready descriptor has its callback, once, in order"); if (p->type == T_PAIR) p = CDR(p); }
      CHECK(p->type == T_PAIR && CAR(p)->type == T_TRUE, "nothing else has a callback");
      drop(l, c);
    }
    CHECK(nc == nclosed, "select closes nothing else");
  }
  drop(l, r); drop(l, v[0]);
}
static int64_t ts[4]; static int nts;
static int time_hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a0; (void)a2;
  if (strcmp(name, "clock_gettime")) return 0;
  struct timespec* t = (struct timespec*)a1;
  int64_t s, n;
  msym_make(&s, 8, "seconds"); msym_make(&n, 8, "nanoseconds");
  msym_assume(msym_and(msym_and(s >= 0, s < 1000000), msym_and(n >= 0, n < 1000000000)));
  t->tv_sec = s; t->tv_nsec = n;
  if (nts < 4) ts[nts] = s * 1000000000 + n;
  nts++;
  *ret = 0;
  return 1;
}
static void m_time(int form) {
  env_hook = time_hook;
  set_global(l, "x", mk_num(l, 0));
  atom_t r = eval_text(l, form ? "(time (setq x (+ x 1)))" : "(time)");
  env_hook = 0;
  atom_t x = eval_text(l, "x");
  CHECK(is_num(x, form), "time evaluates its expression once");
  if (form) CHECK(nts == 2 && is_num(r, ts[1] - ts[0]), "time yields the nanoseconds its expression took");
  else CHECK(nts == 1 && is_num(r, ts[0]), "time yields the clock in nanoseconds");
  drop(l, x); drop(l, r);
}
static void m_slabinfo(void) {
  int n = msym_choice(4, "values");
  atom_t v = mk_nil(l);
  for (int i = 0; i < n; i++) v = lisp_cons(l, mk_nil(l), v);
  size_t a0 = l->slab->n_alloc, f0 = l->slab->n_free;
  atom_t r = call("slabinfo", 0, NULL);
  size_t a1 = l->slab->n_alloc, f1 = l->slab->n_free;
  CHECK(r->type == T_PAIR && CAR(r)->type == T_NUMBER && CDR(r)->type == T_NUMBER, "slabinfo yields two counts");
  if (r->type == T_PAIR) CHECK((size_t)CAR(r)->number >= a0 && (size_t)CAR(r)->number <= a1 && (size_t)CDR(r)->number >= f0 && (size_t)CDR(r)->number <= f1, "slabinfo yields the allocations and the releases");
  drop(l, r); drop(l, v);
}
void harness(void) {
  int mode = (int)msym_arg(0), n = (int)msym_arg(1);
  l = boot(M_STD | M_MATH | M_UNIX | M_SYS);
  boot_io(l);
  switch (mode) {
    case 0: m_close(n); break;
    case 1: m_dup(); break;
    case 2: m_wait(); break;
    case 3: m_fork(); break;
    case 4: m_pipe(); break;
    case 5: m_accept(); break;
    case 6: m_listen(); break;
    case 7: m_connect(); break;
    case 8: m_exec(n); break;
    case 9: m_unlink(n); break;
    case 10: m_select(n); break;
    case 11: m_time(n); break;
    case 12: m_slabinfo(); break;
    case 14: m_connect_long(n); break;
    default: m_exec_long(n);
  }
  io_down(l);
  shutdown_ctx(l, "the call releases every atom");
  msym_reach("end");
}
