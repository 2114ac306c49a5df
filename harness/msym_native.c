/* Native replay runtime: values come, in order, from a file of "name hex" lines.
 * Exit status 99: an assertion of the harness failed (the counterexample reproduces). */
#define _GNU_SOURCE
#include "msym.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

static char* buf;
static size_t pos, len;
static int64_t args[16];
static int nargs;

#include <sys/syscall.h>
static void die(int c) { syscall(SYS_exit_group, c); __builtin_unreachable(); }
static void out(const char* s) { if (syscall(SYS_write, 2, s, strlen(s)) < 0) die(98); }
static uint64_t next(void) {
  while (pos < len && buf[pos] == '#') { while (pos < len && buf[pos] != '\n') pos++; pos++; }
  if (pos >= len) return 0;
  size_t e = pos;
  while (e < len && buf[e] != '\n') e++;
  size_t s = e;
  while (s > pos && buf[s - 1] != ' ') s--;
  uint64_t v = 0;
  for (size_t i = s; i < e; i++) { char c = buf[i]; v = (v << 4) | (uint64_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
  pos = e + 1;
  return v;
}
void msym_make(void* p, size_t n, const char* name) {
  (void)name;
  if (n == 1 || n == 2 || n == 4 || n == 8) { uint64_t v = next(); memcpy(p, &v, n); }
  else for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next();
}
void msym_fail(const char* m) { out("REPLAY-FAIL: "); out(m); out("\n"); die(99); }
void msym_assume(int c) { if (!c) { out("REPLAY-ASSUMPTION\n"); die(97); } }
void msym_assert(int c, const char* m) { if (!c) msym_fail(m); }
void msym_reach(const char* t) { (void)t; }
int msym_choice(int n, const char* name) { (void)name; uint64_t v = next(); return (int)(v % (uint64_t)n); }
uint64_t msym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int64_t msym_arg(int i) { return i < nargs ? args[i] : 0; }
uint64_t msym_concretize(uint64_t v) { return v; }
int msym_is_symbolic(uint64_t v) { (void)v; return 0; }
int msym_decide(int c) { return c != 0; }
int msym_must(int c) { return c != 0; }
int msym_may(int c) { return c != 0; }
int msym_and(int a, int b) { return a && b; }
int msym_or(int a, int b) { return a || b; }
void msym_slab_mark(const void* p, size_t n, int l) { (void)p; (void)n; (void)l; }
int msym_slab_live(const void* p, size_t n) { (void)p; (void)n; return 1; }
void msym_slab_enter(void) {}
void msym_slab_leave(void) {}
void msym_end(void) { die(0); }
void msym_discard(void) { die(0); }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static int64_t heap_blocks;
extern int64_t native_atoms;
static void heap_on_malloc(const volatile void* p, size_t n) { (void)n; if (p) heap_blocks++; }
static void heap_on_free(const volatile void* p) { if (p) heap_blocks--; }
int64_t msym_heap_live(void) {
  static int on;
  if (!on) { on = 1; heap_blocks = native_atoms; __sanitizer_install_malloc_and_free_hooks(heap_on_malloc, heap_on_free); }
  return heap_blocks - native_atoms;
}
int msym_valid(const void* p, size_t n) { volatile const char* c = p; char s = 0; for (size_t i = 0; i < n; i++) s ^= c[i]; (void)s; return 1; }
void msym_print(const char* m, int64_t v) { (void)m; (void)v; }

const char* __asan_default_options(void) { return "exitcode=96:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1"; }
const char* __ubsan_default_options(void) { return "exitcode=96:print_stacktrace=1:halt_on_error=1"; }

#ifndef ENTRY
#define ENTRY harness
#endif
extern void harness(void);
int main(int argc, char** argv) {
  for (int i = 2; i < argc && nargs < 16; i++) args[nargs++] = atoll(argv[i]);
  if (argc > 1) {
    int fd = (int)syscall(SYS_open, argv[1], O_RDONLY); /* open and the like are modelled */
    if (fd >= 0) {
      size_t cap = 1 << 20; buf = malloc(cap); ssize_t k;
      while ((k = syscall(SYS_read, fd, buf + len, cap - len)) > 0) { len += (size_t)k; if (len + 4096 > cap) { cap *= 2; buf = realloc(buf, cap); } }
      syscall(SYS_close, fd);
    } else die(95);
  }
  harness();
  die(0);
}
