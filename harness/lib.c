#include "lib.h"
#include <stdio.h>

/* ---- atom accounting: the real slab allocator runs, and each cell's liveness is tracked around it ---- */
extern atom_t __real_slab_allocate(const slab_t slab);
extern void __real_slab_deallocate(const slab_t slab, const atom_t cell);
extern slab_t __real_slab_new(void);
extern void __real_slab_delete(const slab_t slab);
static size_t n_live;
size_t peak_live, peak_stack; /* most atoms alive, deepest stack seen at an allocation since peak_reset */
static uintptr_t stack_base;
static void __attribute__((noinline)) peak(void) {
  volatile char c = 0; uintptr_t a = (uintptr_t)&c;
  size_t d = a > stack_base ? a - stack_base : stack_base - a;
  if (d > peak_stack) peak_stack = d;
  if (n_live > peak_live) peak_live = n_live;
}
void __attribute__((noinline)) peak_reset(void) { volatile char c = 0; stack_base = (uintptr_t)&c; peak_live = peak_stack = 0; }


#ifndef MSYM_NATIVE
slab_t __wrap_slab_new(void) {
  msym_slab_enter();
  slab_t s = __real_slab_new();
  msym_slab_leave();
  return s;
}
void __wrap_slab_delete(const slab_t slab) {
  msym_slab_enter();
  __real_slab_delete(slab);
  msym_slab_leave();
}
atom_t __wrap_slab_allocate(const slab_t slab) {
  msym_slab_enter();
  atom_t a = __real_slab_allocate(slab);
  if (msym_slab_live(a, sizeof(struct atom))) msym_fail("the allocator returned a cell that is in use");
  msym_slab_mark(a, sizeof(struct atom), 1);
  msym_slab_leave();
  n_live++;
  peak();
  return a;
}
void __wrap_slab_deallocate(const slab_t slab, const atom_t cell) {
  if (!msym_slab_live(cell, sizeof(struct atom))) { msym_fail("double free of an atom"); msym_discard(); }
  msym_slab_enter();
  __real_slab_deallocate(slab, cell);
  msym_slab_mark(cell, sizeof(struct atom), 0);
  msym_slab_leave();
  n_live--;
}
#else
/* natively each atom is a heap block of its own, so that the address sanitizer sees misuse */
slab_t __wrap_slab_new(void) { return __real_slab_new(); }
void __wrap_slab_delete(const slab_t slab) { __real_slab_delete(slab); }
int64_t native_atoms; /* not counted by msym_heap_live */
atom_t __wrap_slab_allocate(const slab_t slab) { slab->n_alloc++; n_live++; native_atoms++; peak(); return calloc(1, sizeof(struct atom)); }
void __wrap_slab_deallocate(const slab_t slab, const atom_t cell) { slab->n_free++; n_live--; native_atoms--; cell->type = T_NONE; free(cell); }
#endif

size_t live_atoms(lisp_t l) { (void)l; return n_live; }

static void load_module(lisp_t l, const char* m) {
  const module_entry_t* (*f)(void) = (const module_entry_t* (*)(void))msym_dlsym(m, "lisp_module_entries");
  const module_entry_t* e = f();
  for (; e->name != NULL; e++) { atom_t s = e->load(l); X(l, s); }
}
lisp_t boot(unsigned mods) {
  env_init();
  env_setenv("HOME", "/home");
  env_setenv("PWD", "/cwd");
  env_mkdir("/home"); env_mkdir("/home/.mnml"); env_mkdir("/cwd");
  slab_t slab = slab_new();
  lisp_t l = lisp_new(slab);
  module_init(l);
  if (mods & M_STD) load_module(l, "std");
  if (mods & M_LOGIC) load_module(l, "logic");
  if (mods & M_MATH) load_module(l, "math");
  if (mods & M_IO) load_module(l, "io");
  if (mods & M_SYS) load_module(l, "sys");
  if (mods & M_UNIX) load_module(l, "unix");
  if (mods & M_ITERATORS) load_module(l, "iterators");
  if (mods & M_MANIPS) load_module(l, "manips");
  return l;
}
void boot_io(lisp_t l) {
  PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/cwd");
  PUSH_IO_CONTEXT(l, l->ochan, env_stdfile(1), "/cwd");
}
void io_down(lisp_t l) {
  POP_IO_CONTEXT(l, l->ichan);
  POP_IO_CONTEXT(l, l->ochan);
}
void shutdown_ctx(lisp_t l, const char* what) {
  slab_t slab = l->slab;
  module_fini(l);
  lisp_delete(l);
  if (slab->n_alloc != slab->n_free || n_live != 0) msym_fail(what);
  slab_delete(slab);
}

static atom_t collected;
static void collect(const lisp_t l, const atom_t c) { collected = lisp_append(l, collected, c); }
atom_t parse_all(lisp_t l, const char* text, size_t n) {
  char* b = malloc(n + 1);
  memcpy(b, text, n);
  b[n] = 0;
  collected = lisp_make_nil(l);
  lexer_t x = lexer_create(l, collect);
  lexer_parse(x, b, n, true);
  lexer_destroy(x);
  free(b);
  return collected;
}
atom_t parse1(lisp_t l, const char* text) {
  atom_t all = parse_all(l, text, strlen(text));
  atom_t r = lisp_car(l, all);
  X(l, all);
  return r;
}
atom_t eval_text(lisp_t l, const char* text) {
  atom_t all = parse_all(l, text, strlen(text));
  atom_t nil = lisp_make_nil(l), r = lisp_make_nil(l);
  for (atom_t p = all; IS_PAIR(p); p = CDR(p)) { X(l, r); r = lisp_eval(l, nil, UP(CAR(p))); }
  X(l, nil);
  X(l, all);
  return r;
}
void run_text(lisp_t l, const char* text) { atom_t r = eval_text(l, text); X(l, r); }
void set_global(lisp_t l, const char* name, atom_t v) {
  atom_t kv = lisp_cons(l, mk_sym(l, name), v);
  l->globals = lisp_setq(l, l->globals, kv);
}
atom_t mk_num(lisp_t l, int64_t n) { return lisp_make_number(l, n); }
atom_t mk_nil(lisp_t l) { return lisp_make_nil(l); }
atom_t mk_t(lisp_t l) { return lisp_make_true(l); }
atom_t mk_sym(lisp_t l, const char* s) { MAKE_SYMBOL_STATIC(y, s); return lisp_make_symbol(l, y); }
atom_t mk_str(lisp_t l, const char* s, size_t n) {
  atom_t r = lisp_make_nil(l);
  for (size_t i = n; i > 0; i--) r = lisp_cons(l, lisp_make_char(l, s[i - 1]), r);
  return r;
}
atom_t mk_list_(lisp_t l, int n, atom_t* e) {
  atom_t r = lisp_make_nil(l);
  for (int i = n; i > 0; i--) r = lisp_cons(l, e[i - 1], r);
  return r;
}
atom_t sym_num(lisp_t l, const char* name) { int64_t v; msym_make(&v, 8, name); return lisp_make_number(l, v); }
atom_t sym_char(lisp_t l, const char* name) { char c; msym_make(&c, 1, name); return lisp_make_char(l, c); }
atom_t sym_sym(lisp_t l, const char* name, int n) {
  union symbol s; s.tag = NULL_TAG;
  for (int i = 0; i < n; i++) { msym_make(&s.val[i], 1, name); msym_assume(msym_and(s.val[i] > 32, s.val[i] < 127)); }
  return lisp_make_symbol(l, &s);
}
atom_t any_leaf(lisp_t l, const char* name) {
  switch (msym_choice(6, name)) {
    case 0: return lisp_make_nil(l);
    case 1: return lisp_make_true(l);
    case 2: return sym_num(l, name);
    case 3: return sym_char(l, name);
    case 4: return sym_sym(l, name, 2);
    default: return lisp_make_wildcard(l);
  }
}
atom_t any_value(lisp_t l, int depth, const char* name) {
  if (depth <= 0) return any_leaf(l, name);
  if (msym_choice(2, name) == 0) return any_leaf(l, name);
  atom_t a = any_value(l, depth - 1, name);
  atom_t d = any_value(l, depth - 1, name);
  return lisp_cons(l, a, d);
}
atom_t any_list(lisp_t l, int max, int depth, const char* name) {
  int n = msym_choice(max + 1, name);
  atom_t r = lisp_make_nil(l);
  for (int i = 0; i < n; i++) r = lisp_cons(l, any_value(l, depth, name), r);
  return r;
}
int same_expr(atom_t a, atom_t b) {
  if (a->type != b->type) return 0;
  switch (a->type) {
    case T_CHAR: case T_NUMBER: return a->number == b->number;
    case T_SYMBOL: return memcmp(a->symbol.val, b->symbol.val, LISP_SYMBOL_LENGTH) == 0;
    case T_PAIR: return msym_and(same_expr(CAR(a), CAR(b)), same_expr(CDR(a), CDR(b)));
    default: return 1;
  }
}
int same(atom_t a, atom_t b) { return msym_decide(same_expr(a, b)); }
int is_sym(atom_t a, const char* s) {
  if (a->type != T_SYMBOL) return 0;
  char b[LISP_SYMBOL_LENGTH] = { 0 };
  for (int i = 0; i < LISP_SYMBOL_LENGTH && s[i]; i++) b[i] = s[i];
  return memcmp(a->symbol.val, b, LISP_SYMBOL_LENGTH) == 0;
}
int is_num(atom_t a, int64_t n) { if (a->type != T_NUMBER) return 0; return a->number == n; }
atom_t copy_of(lisp_t l, atom_t a) {
  switch (a->type) {
    case T_PAIR: { atom_t x = copy_of(l, CAR(a)), y = copy_of(l, CDR(a)); return lisp_cons(l, x, y); }
    case T_NUMBER: return lisp_make_number(l, a->number);
    case T_CHAR: { atom_t r = lisp_make_char(l, 0); r->number = a->number; return r; }
    case T_SYMBOL: return lisp_make_symbol(l, &a->symbol);
    case T_TRUE: return lisp_make_true(l);
    case T_WILDCARD: return lisp_make_wildcard(l);
    default: return lisp_make_nil(l);
  }
}
void drop(lisp_t l, atom_t a) { X(l, a); }
void well_formed(atom_t a) {
  if (!msym_valid(a, sizeof(struct atom))) { msym_fail("the value refers to a cell that is not an atom"); msym_discard(); }
  if (a->type < T_NIL || a->type > T_WILDCARD) { msym_fail("the value contains an atom of unknown type"); msym_discard(); }
  if (a->refs == 0) { msym_fail("the value refers to an atom with no references"); msym_discard(); }
  if (a->type == T_PAIR) { well_formed(CAR(a)); well_formed(CDR(a)); }
}
