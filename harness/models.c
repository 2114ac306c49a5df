/* Models of the C library and of the operating system (the trusted base of the harnesses).
 * Environment calls are __wrap_ functions: the executor redirects F to __wrap_F, the native replay
 * uses ld --wrap. Pure string functions are plain definitions, left to libc in the native replay. */
#include "env.h"
#include "msym.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ strings */
#ifndef MSYM_NATIVE
#undef stdin
#undef stdout
#undef stderr
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) {
  size_t l = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[l + i] = s[i];
  d[l + i] = 0;
  return d;
}
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) a++, b++;
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i]) return 0;
  }
  return 0;
}
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char*)s; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strstr(const char* h, const char* n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char*)h;
    if (!*h) return 0;
  }
}
size_t strcspn(const char* s, const char* r) { size_t i = 0; for (; s[i]; i++) for (size_t j = 0; r[j]; j++) if (s[i] == r[j]) return i; return i; }
size_t strspn(const char* s, const char* r) { size_t i = 0; for (; s[i]; i++) { size_t j = 0; while (r[j] && r[j] != s[i]) j++; if (!r[j]) return i; } return i; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { memset(d, 0, n); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int c) { return c < 0 ? -c : c; }
int* __errno_location(void);
char* dirname(char* p) {
  if (!p || !*p) return (char*)".";
  size_t n = strlen(p);
  while (n > 1 && p[n - 1] == '/') n--;
  while (n > 0 && p[n - 1] != '/') n--;
  if (n == 0) return (char*)".";
  while (n > 1 && p[n - 1] == '/') n--;
  p[n] = 0;
  return p;
}
uint16_t htons(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
uint16_t ntohs(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
char* strerror(int e) { (void)e; return (char*)"error"; }
const char* gai_strerror(int e) { (void)e; return "error"; }
struct tm* localtime(const time_t* t) { static struct tm z; (void)t; return &z; }
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) { (void)f; (void)t; if (n) b[0] = 0; return 0; }
static int errno_cell;
int* __errno_location(void) { return &errno_cell; }
char** environ;
/* getopt, POSIX behaviour (leading '+') */
int optind = 1, opterr = 1, optopt = '?';
char* optarg;
int getopt(int argc, char* const argv[], const char* spec) {
  static int sp = 1;
  if (*spec == '+') spec++;
  if (sp == 1) {
    if (optind >= argc || argv[optind] == 0 || argv[optind][0] != '-' || argv[optind][1] == 0) return -1;
    if (argv[optind][1] == '-' && argv[optind][2] == 0) { optind++; return -1; }
  }
  int c = argv[optind][sp];
  const char* q = 0;
  for (size_t i = 0; spec[i]; i++) if (spec[i] == c && c != ':') { q = &spec[i]; break; }
  if (!q) { optopt = c; if (argv[optind][++sp] == 0) { optind++; sp = 1; } return '?'; }
  if (q[1] == ':') {
    if (argv[optind][sp + 1]) { optarg = &argv[optind++][sp + 1]; }
    else if (++optind >= argc) { optopt = c; sp = 1; return '?'; }
    else optarg = argv[optind++];
    sp = 1;
  } else { if (argv[optind][++sp] == 0) { sp = 1; optind++; } optarg = 0; }
  return c;
}
void __fdelt_chk_fail(void) { abort(); }
long int __fdelt_chk(long int d) { if (d < 0 || d >= 1024) abort(); return d / 64; }
#endif

/* ------------------------------------------------------------------ descriptors and files */
struct ofile env_of[ENV_MAXOF];
int env_fd[ENV_MAXFD];
struct node env_node[ENV_MAXNODE];
struct mfile env_std[3];
int env_files_open, env_dirs_open, env_dl_open, env_faults, env_line_buffered;
env_hook_t env_hook;

#ifndef MSYM_NATIVE
FILE* stdin; FILE* stdout; FILE* stderr;
#endif

int env_fault(const char* what) {
  if (env_faults <= 0) return 0;
  if (msym_choice(2, what) == 0) return 0;
  env_faults--;
  return 1;
}
static int hook(const char* n, long a, long b, long c, long* r) { return env_hook ? env_hook(n, a, b, c, r) : 0; }

FILE* env_stdfile(int i) {
#ifdef MSYM_NATIVE
  return i == 0 ? stdin : i == 1 ? stdout : stderr;
#else
  return (FILE*)&env_std[i];
#endif
}
static struct mfile* FH(FILE* f) {
#ifdef MSYM_NATIVE
  if (f == stdin) return &env_std[0];
  if (f == stdout) return &env_std[1];
  if (f == stderr) return &env_std[2];
#endif
  return (struct mfile*)f;
}
static void use(struct mfile* m, const char* what) {
  if (m->magic != 0x46494c45) msym_fail("stdio call on a pointer that is not a stream");
  if (!m->open) msym_fail(what);
}
static int new_of(void) {
  for (int i = 0; i < ENV_MAXOF; i++) if (!env_of[i].used) { memset(&env_of[i], 0, sizeof(struct ofile)); env_of[i].used = 1; return i; }
  return -1;
}
static int new_fd(int of) {
  for (int i = 0; i < ENV_MAXFD; i++) if (env_fd[i] < 0) { env_fd[i] = of; env_of[of].refs++; return i; }
  return -1;
}
static int valid_fd(int fd) { return fd >= 0 && fd < ENV_MAXFD && env_fd[fd] >= 0; }
static void grow(char** d, size_t* cap, size_t need) {
  if (need <= *cap) return;
  size_t n = *cap ? *cap : 64;
  while (n < need) n *= 2;
  char* p = malloc(n);
  if (*d) { memcpy(p, *d, *cap); free(*d); }
  *d = p; *cap = n;
}
void env_init(void) {
  for (int i = 0; i < ENV_MAXFD; i++) env_fd[i] = -1;
  memset(env_of, 0, sizeof env_of);
  memset(env_node, 0, sizeof env_node);
  for (int i = 0; i < 3; i++) {
    int o = new_of(); env_of[o].kind = 1; env_of[o].rd = i == 0; env_of[o].wr = i != 0; env_of[o].refs = 1; env_fd[i] = o;
    memset(&env_std[i], 0, sizeof(struct mfile));
    env_std[i].magic = 0x46494c45; env_std[i].fd = i; env_std[i].open = 1;
  }
#ifndef MSYM_NATIVE
  stdin = env_stdfile(0); stdout = env_stdfile(1); stderr = env_stdfile(2);
#endif
  env_files_open = env_dirs_open = env_dl_open = env_faults = env_line_buffered = 0;
  env_hook = 0;
}
int env_fds_open(void) { int n = 0; for (int i = 0; i < ENV_MAXFD; i++) n += env_fd[i] >= 0; return n; }
void env_stdin(const char* d, size_t n) { struct ofile* o = &env_of[0]; grow(&o->data, &o->cap, o->len + n + 1); memcpy(o->data + o->len, d, n); o->len += n; }
const char* env_stdout(size_t* n) { struct ofile* o = &env_of[1]; if (n) *n = o->len; return o->data ? o->data : ""; }
int env_find(const char* p) { for (int i = 0; i < ENV_MAXNODE; i++) if (env_node[i].used && strcmp(env_node[i].path, p) == 0) return i; return -1; }
static int mknode(const char* p, int dir) {
  for (int i = 0; i < ENV_MAXNODE; i++) if (!env_node[i].used) {
    memset(&env_node[i], 0, sizeof(struct node)); env_node[i].used = 1; env_node[i].isdir = dir; env_node[i].mode = dir ? 0755 : 0644; strcpy(env_node[i].path, p); return i; }
  msym_fail("model: too many files");
  return -1;
}
int env_mkfile(const char* p, const char* d, size_t n) { int i = mknode(p, 0); grow(&env_node[i].data, &env_node[i].cap, n + 1); memcpy(env_node[i].data, d, n); env_node[i].len = n; return i; }
int env_mkdir(const char* p) { return mknode(p, 1); }

/* raw I/O on descriptors */
static long raw_write(int fd, const char* d, size_t n) {
  if (!valid_fd(fd)) { errno = EBADF; return -1; }
  struct ofile* o = &env_of[env_fd[fd]];
  if (!o->wr) { errno = EBADF; return -1; }
  if (fd == 2 && o == &env_of[2]) return (long)n; /* stderr is discarded */
  if (o->kind == 1) { grow(&o->data, &o->cap, o->len + n + 1); memcpy(o->data + o->len, d, n); o->len += n; }
  else {
    struct node* f = &env_node[o->node];
    size_t at = o->append ? f->len : o->pos;
    grow(&f->data, &f->cap, at + n + 1); memcpy(f->data + at, d, n);
    if (at + n > f->len) f->len = at + n;
    o->pos = at + n;
  }
  return (long)n;
}
static int raw_getc(int fd, char* c) {
  if (!valid_fd(fd)) { errno = EBADF; return -1; }
  struct ofile* o = &env_of[env_fd[fd]];
  if (!o->rd) { errno = EBADF; return -1; }
  const char* d; size_t len;
  if (o->kind == 1) { d = o->data; len = o->len; } else { d = env_node[o->node].data; len = env_node[o->node].len; }
  if (o->pos >= len) return 0;
  *c = d[o->pos++];
  return 1;
}
int __wrap_close(int fd) {
  long r; if (hook("close", fd, 0, 0, &r)) return (int)r;
  if (!valid_fd(fd)) { errno = EBADF; return -1; }
  struct ofile* o = &env_of[env_fd[fd]];
  env_fd[fd] = -1;
  if (--o->refs == 0 && o->kind == 0) o->used = 0;
  return 0;
}
static int normal(const char* p, char* t, size_t cap);
static int too_long(const char* p) { if (strlen(p) < PATH_MAX) return 0; errno = ENAMETOOLONG; return 1; }
int __wrap_open(const char* path, int flags, ...) {
  long r; if (hook("open", (long)path, flags, 0, &r)) return (int)r;
  if (env_fault("fault.open")) { errno = EACCES; return -1; }
  if (!*path) { errno = ENOENT; return -1; }
  char t[PATH_MAX];
  if (!normal(path, t, sizeof t)) return -1;
  path = t;
  int n = env_find(path);
  if (n < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    n = env_mkfile(path, "", 0);
  }
  if (env_node[n].isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
  if (flags & O_TRUNC) env_node[n].len = 0;
  int o = new_of(); if (o < 0) { errno = EMFILE; return -1; }
  env_of[o].node = n; env_of[o].rd = (flags & O_ACCMODE) != O_WRONLY; env_of[o].wr = (flags & O_ACCMODE) != O_RDONLY; env_of[o].append = (flags & O_APPEND) != 0;
  int fd = new_fd(o);
  if (fd < 0) { env_of[o].used = 0; errno = EMFILE; }
  return fd;
}
int __wrap_dup(int fd) {
  long r; if (hook("dup", fd, 0, 0, &r)) return (int)r;
  if (env_fault("fault.dup")) { errno = EMFILE; return -1; }
  if (!valid_fd(fd)) { errno = EBADF; return -1; }
  return new_fd(env_fd[fd]);
}
int __wrap_dup2(int fd, int t) {
  long r; if (hook("dup2", fd, t, 0, &r)) return (int)r;
  if (!valid_fd(fd) || t < 0 || t >= ENV_MAXFD) { errno = EBADF; return -1; }
  if (fd == t) return t;
  if (valid_fd(t)) __wrap_close(t);
  env_fd[t] = env_fd[fd]; env_of[env_fd[fd]].refs++;
  return t;
}
int __wrap_pipe(int* fds) {
  long r; if (hook("pipe", (long)fds, 0, 0, &r)) return (int)r;
  int o = new_of(); env_of[o].kind = 1; env_of[o].rd = env_of[o].wr = 1;
  fds[0] = new_fd(o); fds[1] = new_fd(o);
  return 0;
}
ssize_t __wrap_write(int fd, const void* d, size_t n) {
  long r; if (hook("write", fd, (long)d, (long)n, &r)) return r;
  return raw_write(fd, d, n);
}
ssize_t __wrap_read(int fd, void* d, size_t n) {
  long r; if (hook("read", fd, (long)d, (long)n, &r)) return r;
  size_t i = 0; char c; int k;
  for (; i < n; i++) { k = raw_getc(fd, &c); if (k < 0) return -1; if (!k) break; ((char*)d)[i] = c; }
  return (ssize_t)i;
}

/* a stream reads ahead unless it is unbuffered; standard input is a terminal, which gives one line at a time */
static int mgetc(struct mfile* m, char* c) {
  if (m->unbuffered || m == &env_std[0]) return raw_getc(m->fd, c);
  if (!valid_fd(m->fd)) { errno = EBADF; return -1; }
  struct ofile* o = &env_of[env_fd[m->fd]];
  if (!o->rd) { errno = EBADF; return -1; }
  const char* d; size_t len;
  if (o->kind == 1) { d = o->data; len = o->len; } else { d = env_node[o->node].data; len = env_node[o->node].len; }
  if (m->ibeg >= m->iend) {
    if (o->pos >= len) return 0;
    m->ibeg = o->pos; m->iend = len - o->pos > 4096 ? o->pos + 4096 : len;
    o->pos = m->iend;
  }
  if (m->ibeg >= len) return 0;
  *c = d[m->ibeg++];
  return 1;
}
/* stdio: output is buffered in the stream until it is flushed or closed */
static int mflush(struct mfile* m) {
  if (!m->olen) return 0;
  long r = raw_write(m->fd, m->obuf, m->olen);
  m->olen = 0;
  return r < 0 ? -1 : 0;
}
static size_t mwrite(struct mfile* m, const char* d, size_t n) {
  use(m, "write on a closed stream");
  if (m == &env_std[2]) return n;
  grow(&m->obuf, &m->ocap, m->olen + n + 1);
  memcpy(m->obuf + m->olen, d, n); m->olen += n;
  return n;
}
void msym_emit(FILE* f, const char* d, size_t n) { mwrite(FH(f), d, n); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { return s ? mwrite(FH(f), p, s * n) / s : 0; }
int __wrap_fputc(int c, FILE* f) { char b = (char)c; mwrite(FH(f), &b, 1); return (unsigned char)b; }
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, env_stdfile(1)); }
int __wrap_fputs(const char* s, FILE* f) { mwrite(FH(f), s, strlen(s)); return 1; }
int __wrap_puts(const char* s) { __wrap_fputs(s, env_stdfile(1)); __wrap_fputc('\n', env_stdfile(1)); return 1; }
int __wrap_fflush(FILE* f) {
  if (!f) { for (int i = 0; i < 3; i++) mflush(&env_std[i]); return 0; }
  struct mfile* m = FH(f); use(m, "flush of a closed stream");
  return mflush(m);
}
int __wrap_fgetc(FILE* f) {
  struct mfile* m = FH(f); use(m, "read on a closed stream");
  char c; int k = mgetc(m, &c);
  if (k < 0) { m->err = 1; return EOF; }
  if (!k) { m->eof = 1; return EOF; }
  return (int)(unsigned char)c;
}
int __wrap_getc(FILE* f) { return __wrap_fgetc(f); }
int __wrap_feof(FILE* f) { return FH(f)->eof; }
int __wrap_ferror(FILE* f) { return FH(f)->err; }
int __wrap_fileno(FILE* f) { return FH(f)->fd; }
void __wrap_clearerr(FILE* f) { FH(f)->eof = FH(f)->err = 0; }
int __wrap_setvbuf(FILE* f, char* b, int m, size_t n) { (void)b; (void)n; struct mfile* q = FH(f); use(q, "setvbuf on a closed stream"); q->unbuffered = m == _IONBF; return 0; }
void __wrap_setbuf(FILE* f, char* b) { __wrap_setvbuf(f, b, b ? _IOFBF : _IONBF, 4096); }
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
  struct mfile* m = FH(f); use(m, "read on a closed stream");
  size_t i = 0; char c;
  for (; i < s * n; i++) { int k = mgetc(m, &c); if (k <= 0) { if (k < 0) m->err = 1; else m->eof = 1; break; } ((char*)p)[i] = c; }
  return s ? i / s : 0;
}
char* __wrap_fgets(char* b, int n, FILE* f) {
  struct mfile* m = FH(f); use(m, "read on a closed stream");
  if (n <= 0) return 0;
  int i = 0;
  if (n == 1) { b[0] = 0; return b; }
  while (i < n - 1) {
    char c; int k = mgetc(m, &c);
    if (k < 0) { m->err = 1; return 0; }
    if (!k) { m->eof = 1; break; }
    b[i++] = c;
    if (c == '\n') break;
  }
  if (!i) return 0;
  b[i] = 0;
  return b;
}
ssize_t __wrap_getline(char** lp, size_t* cap, FILE* f) {
  struct mfile* m = FH(f); use(m, "read on a closed stream");
  /* glibc allocates the buffer even at end of file */
  if (!*lp || !*cap) { if (*lp) free(*lp); *cap = 120; *lp = malloc(120); }
  size_t i = 0;
  for (;;) {
    char c; int k = mgetc(m, &c);
    if (k < 0) { m->err = 1; return -1; }
    if (!k) { m->eof = 1; break; }
    if (i + 2 > *cap) { size_t nc = *cap * 2; char* p = malloc(nc); memcpy(p, *lp, i); free(*lp); *lp = p; *cap = nc; }
    (*lp)[i++] = c;
    if (c == '\n') break;
  }
  if (!i) return -1;
  (*lp)[i] = 0;
  return (ssize_t)i;
}
ssize_t __wrap_getdelim(char** lp, size_t* cap, int d, FILE* f) { if (d != '\n') msym_fail("model: getdelim"); return __wrap_getline(lp, cap, f); }
static FILE* mk_file(int fd) {
  struct mfile* m = malloc(sizeof(struct mfile));
  memset(m, 0, sizeof *m); m->magic = 0x46494c45; m->fd = fd; m->open = 1;
  env_files_open++;
  return (FILE*)m;
}
FILE* __wrap_fdopen(int fd, const char* mode) {
  long r; if (hook("fdopen", fd, (long)mode, 0, &r)) return (FILE*)r;
  if (env_fault("fault.fdopen")) { errno = ENOMEM; return 0; }
  if (!valid_fd(fd)) { errno = EBADF; return 0; }
  if (mode[0] == 'a') env_of[env_fd[fd]].append = 1;
  return mk_file(fd);
}
FILE* __wrap_fopen(const char* path, const char* mode) {
  if (env_fault("fault.fopen")) { errno = EACCES; return 0; }
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  int sv = env_faults; env_faults = 0;
  int fd = __wrap_open(path, fl, 0644);
  env_faults = sv;
  return fd < 0 ? 0 : mk_file(fd);
}
int __wrap_fclose(FILE* f) {
  struct mfile* m = FH(f); use(m, "double close of a stream");
  mflush(m); __wrap_close(m->fd); m->open = 0;
  if (m->obuf) { free(m->obuf); m->obuf = 0; }
  if (m != &env_std[0] && m != &env_std[1] && m != &env_std[2]) { env_files_open--; free(m); }
  return 0;
}
#ifdef MSYM_NATIVE
int __wrap_fprintf(FILE* f, const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (n > (int)sizeof b - 1) n = sizeof b - 1; mwrite(FH(f), b, n); return n; }
int __wrap_printf(const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (n > (int)sizeof b - 1) n = sizeof b - 1; mwrite(FH(stdout), b, n); return n; }
#endif

/* ------------------------------------------------------------------ environment, paths, directories */
static char* env_vars[320];
static size_t env_nvars;
void env_setenv(const char* name, const char* val) {
  size_t l = strlen(name);
  for (size_t i = 0; i < env_nvars; i++) if (strncmp(env_vars[i], name, l) == 0 && env_vars[i][l] == '=') {
    for (size_t j = i; j + 1 < env_nvars; j++) env_vars[j] = env_vars[j + 1];
    env_nvars--; break;
  }
  if (val) {
    char* s = malloc(l + strlen(val) + 2);
    strcpy(s, name); s[l] = '='; strcpy(s + l + 1, val);
    env_vars[env_nvars++] = s;
  }
  env_vars[env_nvars] = 0;
  environ = env_vars;
}
char* __wrap_getenv(const char* name) {
  size_t l = strlen(name);
  for (size_t i = 0; i < env_nvars; i++) if (strncmp(env_vars[i], name, l) == 0 && env_vars[i][l] == '=') return env_vars[i] + l + 1;
  return 0;
}
char* __wrap_secure_getenv(const char* name) { return __wrap_getenv(name); }
static char cwd_path[64] = "/cwd";
char* __wrap_getcwd(char* b, size_t n) {
  if (env_fault("fault.getcwd")) { errno = EACCES; return 0; }
  if (strlen(cwd_path) + 1 > n) { errno = ERANGE; return 0; }
  strcpy(b, cwd_path);
  return b;
}
/* the absolute form of a path: //, . and .. are resolved textually */
static int normal(const char* p, char* t, size_t cap) {
  size_t n = 0;
  if (too_long(p)) return 0;
  if (*p != '/') { strcpy(t, cwd_path); n = strlen(t); }
  size_t i = 0;
  while (p[i]) {
    while (p[i] == '/') i++;
    if (!p[i]) break;
    size_t j = i; while (p[j] && p[j] != '/') j++;
    if (j - i == 1 && p[i] == '.') { }
    else if (j - i == 2 && p[i] == '.' && p[i + 1] == '.') { while (n > 0 && t[n - 1] != '/') n--; if (n > 0) n--; }
    else { if (n + (j - i) + 2 > cap) { errno = ENAMETOOLONG; return 0; } t[n++] = '/'; for (size_t k = i; k < j; k++) t[n++] = p[k]; }
    i = j;
  }
  if (!n) t[n++] = '/';
  t[n] = 0;
  return 1;
}
/* realpath over the modelled tree; the result must exist */
char* __wrap_realpath(const char* p, char* out) {
  char t[4096];
  if (env_fault("fault.realpath")) { errno = EACCES; return 0; }
  if (!*p) { errno = ENOENT; return 0; }
  if (!normal(p, t, sizeof t)) return 0;
  if (t[1] && env_find(t) < 0) { errno = ENOENT; return 0; }
  if (!out) out = malloc(4096);
  strcpy(out, t);
  return out;
}
int __wrap_stat(const char* p, struct stat* st) {
  if (env_fault("fault.stat")) { errno = EACCES; return -1; }
  if (too_long(p)) return -1;
  int i = env_find(p);
  if (i < 0) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = (env_node[i].isdir ? S_IFDIR : S_IFREG) | env_node[i].mode;
  return 0;
}
int __wrap_lstat(const char* p, struct stat* st) { return __wrap_stat(p, st); }
int __wrap_access(const char* p, int m) { (void)m; if (env_find(p) < 0) { errno = ENOENT; return -1; } return 0; }
int __wrap_mkdir(const char* p, mode_t m) {
  if (env_fault("fault.mkdir")) { errno = EACCES; return -1; }
  if (env_find(p) >= 0) { errno = EEXIST; return -1; }
  int n = env_mkdir(p); env_node[n].mode = (int)m; return 0;
}
int __wrap_unlink(const char* p) {
  long r; if (hook("unlink", (long)p, 0, 0, &r)) return (int)r;
  char t[PATH_MAX];
  if (!normal(p, t, sizeof t)) return -1;
  int i = env_find(t);
  if (i < 0) { errno = ENOENT; return -1; }
  env_node[i].used = 0;
  return 0;
}
struct mdir { int open; int it; int dots; char path[128]; struct dirent de; };
DIR* __wrap_opendir(const char* p) {
  if (env_fault("fault.opendir")) { errno = EACCES; return 0; }
  char t[128];
  if (!*p) { errno = ENOENT; return 0; }
  if (!normal(p, t, sizeof t)) return 0;
  int i = env_find(t);
  if (i < 0 || !env_node[i].isdir) { errno = ENOENT; return 0; }
  struct mdir* d = malloc(sizeof *d);
  memset(d, 0, sizeof *d); d->open = 1; strcpy(d->path, t);
  env_dirs_open++;
  return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dp) {
  struct mdir* d = (struct mdir*)dp;
  if (!d->open) msym_fail("readdir on a closed directory");
  size_t l = strlen(d->path);
  if (d->dots < 2) { strcpy(d->de.d_name, d->dots ? ".." : "."); d->dots++; return &d->de; }
  for (; d->it < ENV_MAXNODE; d->it++) {
    struct node* n = &env_node[d->it];
    if (!n->used || strncmp(n->path, d->path, l) != 0 || n->path[l] != '/' || strchr(n->path + l + 1, '/')) continue;
    strcpy(d->de.d_name, n->path + l + 1);
    d->it++;
    return &d->de;
  }
  return 0;
}
int __wrap_closedir(DIR* dp) {
  struct mdir* d = (struct mdir*)dp;
  if (!d->open) msym_fail("double close of a directory");
  d->open = 0; env_dirs_open--;
  free(d);
  return 0;
}

/* ------------------------------------------------------------------ dynamic loading */
struct dlmod { char path[128]; char name[20]; int loads; };
static struct dlmod dlmods[16];
static int ndl;
void env_module(const char* path, const char* modname) { strcpy(dlmods[ndl].path, path); strcpy(dlmods[ndl].name, modname); dlmods[ndl].loads = 0; ndl++; }
void* __wrap_dlopen(const char* p, int fl) {
  (void)fl;
  long q; if (hook("dlopen", (long)p, 0, 0, &q)) return (void*)q;
  if (env_fault("fault.dlopen")) return 0;
  char t[4096];
  if (!normal(p, t, sizeof t)) return 0;
  for (int i = 0; i < ndl; i++) if (strcmp(dlmods[i].path, t) == 0) { dlmods[i].loads++; env_dl_open++; return &dlmods[i]; }
  return 0;
}
int __wrap_dlclose(void* h) {
  struct dlmod* m = h;
  if (m < dlmods || m >= dlmods + 16 || m->loads <= 0) { msym_fail("dlclose of a handle that is not open"); return -1; }
  m->loads--; env_dl_open--;
  return 0;
}
void* __wrap_dlsym(void* h, const char* s) {
  struct dlmod* m = h;
  if (m < dlmods || m >= dlmods + 16 || m->loads <= 0) { msym_fail("dlsym on a handle that is not open"); return 0; }
  if (env_fault("fault.dlsym")) return 0;
  return msym_dlsym(m->name, s);
}
char* __wrap_dlerror(void) { return (char*)"dlerror"; }
int __wrap_dladdr(const void* a, Dl_info* i) { (void)a; memset(i, 0, sizeof *i); i->dli_fname = "/pfx/lib/libminimal.so"; return 1; }

/* ------------------------------------------------------------------ time, processes, sockets */
int env_exit_ok, env_exit_code = -1;
void (*env_at_exit)(int);
void __wrap_exit(int c) {
  if (!env_exit_ok) msym_fail("the process exits");
  env_exit_code = c;
  if (env_at_exit) env_at_exit(c);
  msym_end();
}
void __wrap__exit(int c) { __wrap_exit(c); }
static long tick;
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  long r; if (hook("clock_gettime", c, (long)ts, 0, &r)) return (int)r;
  ts->tv_sec = 0; ts->tv_nsec = ++tick; return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* z) { (void)z; tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
__sighandler_t __wrap_signal(int n, __sighandler_t h) { long r; if (hook("signal", n, (long)h, 0, &r)) return (__sighandler_t)r; return 0; }
pid_t __wrap_getpid(void) { return 77; }
int __wrap_kill(pid_t p, int s) { long r; if (hook("kill", p, s, 0, &r)) return (int)r; return 0; }
int __wrap_raise(int s) { return __wrap_kill(77, s); }
pid_t __wrap_fork(void) { long r; if (hook("fork", 0, 0, 0, &r)) return (pid_t)r; errno = EAGAIN; return -1; }
pid_t __wrap_waitpid(pid_t p, int* st, int fl) { long r; if (hook("waitpid", p, (long)st, fl, &r)) return (pid_t)r; errno = ECHILD; return -1; }
int __wrap_execve(const char* p, char* const* a, char* const* e) { long r; if (hook("execve", (long)p, (long)a, (long)e, &r)) return (int)r; errno = ENOENT; return -1; }
int __wrap_socket(int a, int b, int c) { long r; if (hook("socket", a, b, c, &r)) return (int)r; if (env_fault("fault.socket")) { errno = EMFILE; return -1; } int o = new_of(); env_of[o].kind = 1; env_of[o].rd = env_of[o].wr = 1; return new_fd(o); }
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { long r; (void)v; (void)n; if (hook("setsockopt", fd, l, o, &r)) return (int)r; if (env_fault("fault.setsockopt")) { errno = EINVAL; return -1; } return 0; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n) { long r; if (hook("bind", fd, (long)a, n, &r)) return (int)r; if (env_fault("fault.bind")) { errno = EADDRINUSE; return -1; } return 0; }
int __wrap_listen(int fd, int n) { long r; if (hook("listen", fd, n, 0, &r)) return (int)r; if (env_fault("fault.listen")) { errno = EADDRINUSE; return -1; } return 0; }
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) { long r; if (hook("accept", fd, (long)a, (long)n, &r)) return (int)r; errno = EBADF; return -1; }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n) { long r; if (hook("connect", fd, (long)a, n, &r)) return (int)r; if (env_fault("fault.connect")) { errno = ECONNREFUSED; return -1; } return 0; }
int env_ai_live;
int __wrap_getaddrinfo(const char* h, const char* s, const struct addrinfo* hi, struct addrinfo** out) {
  long r; if (hook("getaddrinfo", (long)h, (long)s, (long)out, &r)) return (int)r;
  (void)hi;
  if (env_fault("fault.getaddrinfo")) return EAI_NONAME;
  struct addrinfo* ai = malloc(sizeof *ai);
  memset(ai, 0, sizeof *ai);
  ai->ai_addr = malloc(sizeof(struct sockaddr_in));
  memset(ai->ai_addr, 0, sizeof(struct sockaddr_in));
  ai->ai_addrlen = sizeof(struct sockaddr_in);
  env_ai_live++;
  *out = ai;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* ai) { free(ai->ai_addr); free(ai); env_ai_live--; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { long q; (void)w; (void)t; if (hook("select", n, (long)r, (long)e, &q)) return (int)q; errno = EINVAL; return -1; }
const char* __wrap_inet_ntop(int af, const void* a, char* d, socklen_t n) {
  const unsigned char* p = a; (void)af;
  size_t k = 0; char t[20];
  for (int i = 0; i < 4; i++) { unsigned v = p[i]; if (i) t[k++] = '.'; if (v >= 100) t[k++] = '0' + v / 100; if (v >= 10) t[k++] = '0' + v / 10 % 10; t[k++] = '0' + v % 10; }
  t[k++] = 0;
  if (k > n) { errno = ENOSPC; return 0; }
  memcpy(d, t, k);
  return d;
}
