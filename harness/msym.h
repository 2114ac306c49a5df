/* Interface between the harnesses and the symbolic executor (or the native replay runtime). */
#pragma once
#include <stddef.h>
#include <stdint.h>

void msym_make(void* p, size_t n, const char* name); /* n fresh symbolic bytes (1,2,4,8: one variable) */
void msym_assume(int c);
void msym_assert(int c, const char* msg);
void msym_fail(const char* msg);
void msym_reach(const char* tag);
int msym_choice(int n, const char* name);            /* forks: 0..n-1 */
uint64_t msym_ite(int c, uint64_t a, uint64_t b);    /* no fork */
int64_t msym_arg(int i);
uint64_t msym_concretize(uint64_t v);
int msym_is_symbolic(uint64_t v);
int msym_decide(int c);                              /* fork on c, returns concrete 0/1 */
int msym_must(int c);
int msym_may(int c);
int msym_and(int a, int b);                          /* no fork */
int msym_or(int a, int b);
void msym_slab_mark(const void* p, size_t n, int live);
int msym_slab_live(const void* p, size_t n);
void msym_slab_enter(void);
void msym_slab_leave(void);
void msym_end(void);
void msym_discard(void);
int64_t msym_heap_live(void);
int msym_valid(const void* p, size_t n);
void msym_print(const char* msg, int64_t v);
void* msym_dlsym(const char* mod, const char* sym);
