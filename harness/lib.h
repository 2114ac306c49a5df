/* Harness library: a context over the real code, lazily symbolic values, an independent comparison,
 * and accounting of atoms. */
#pragma once
#include "env.h"
#include "msym.h"
#include <mnml/lexer.h>
#include <mnml/lisp.h>
#include <mnml/module.h>
#include <mnml/slab.h>
#include <mnml/tree.h>
#include <mnml/types.h>
#include <mnml/utils.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

#define M_STD 1
#define M_LOGIC 2
#define M_MATH 4
#define M_IO 8
#define M_SYS 16
#define M_UNIX 32
#define M_ITERATORS 64
#define M_MANIPS 128
#define M_BASE (M_STD | M_LOGIC | M_MATH)

#define CHECK(c, m) msym_assert((int)(c), m)

lisp_t boot(unsigned mods);              /* context with the modules' functions bound, NIL io channels */
void boot_io(lisp_t l);                  /* push stdin/stdout channels as the interpreter does */
void io_down(lisp_t l);
void shutdown_ctx(lisp_t l, const char* what); /* tear down and require every atom back */
size_t live_atoms(lisp_t l);
extern size_t peak_live, peak_stack;     /* high-water marks since peak_reset */
void peak_reset(void);

atom_t parse_all(lisp_t l, const char* text, size_t n); /* list of expressions */
atom_t parse1(lisp_t l, const char* text);
atom_t eval_text(lisp_t l, const char* text);           /* evaluate every expression, value of the last */
void run_text(lisp_t l, const char* text);
void set_global(lisp_t l, const char* name, atom_t v);  /* consumes v */

atom_t mk_num(lisp_t l, int64_t n);
atom_t mk_sym(lisp_t l, const char* s);
atom_t mk_nil(lisp_t l);
atom_t mk_t(lisp_t l);
atom_t mk_str(lisp_t l, const char* s, size_t n);       /* exact characters, no escape processing */
atom_t mk_list_(lisp_t l, int n, atom_t* e);            /* consumes the elements */
#define mk_list(l, n, ...) mk_list_(l, n, (atom_t[]){ __VA_ARGS__ })
atom_t sym_num(lisp_t l, const char* name);             /* any 64-bit number */
atom_t sym_char(lisp_t l, const char* name);            /* any character */
atom_t sym_sym(lisp_t l, const char* name, int n);      /* any symbol of n printable characters */
atom_t any_leaf(lisp_t l, const char* name);            /* NIL T _ char number symbol */
atom_t any_value(lisp_t l, int depth, const char* name);
atom_t any_list(lisp_t l, int max, int depth, const char* name); /* proper list, 0..max any values */

int same(atom_t a, atom_t b);            /* structural identity, forks on symbolic payloads only when needed */
int same_expr(atom_t a, atom_t b);       /* as a formula, no fork (shapes are concrete) */
int is_sym(atom_t a, const char* s);
int is_num(atom_t a, int64_t n);         /* formula */
atom_t copy_of(lisp_t l, atom_t a);      /* deep copy of the shape */
void drop(lisp_t l, atom_t a);
void well_formed(atom_t a);              /* every reachable atom is live and has a known type */
