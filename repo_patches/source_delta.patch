From 0726c5f2173eeccd2e0126f3e43fdd2173f53f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 01/55] fix: keep the output already buffered when a NIL is
 printed symbolically

lisp_prin_atom() returns the number of bytes held in the output buffer. For a
NIL printed without S-expression syntax it returned 0, so everything printed
before the NIL since the last flush was dropped: (prin (list 1 NIL 2)) wrote
"2" instead of "12".
---
 lib/core/print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..62c3fb3 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
@@ -123,7 +123,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
     case T_WILDCARD:
       return lisp_write(handle, buf, idx, "_", 1);
     default:
-      return 0;
+      return idx;
   }
 }
 
-- 
2.43.0


From 0070f0a1791d8ab5647a9201bde26fb1abc14153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 02/55] fix: print the backslash character the way the reader
 accepts it

The reader only accepts ^\\ for a backslash; print emitted ^\ which is a parse
error (or swallows the next character), so a printed value holding a backslash
could not be read back.
---
 lib/core/print.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/print.c b/lib/core/print.c
index 62c3fb3..4d471e0 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -89,6 +89,9 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
           case '\t':
             nxt = lisp_write(handle, buf, nxt, "\\t", 2);
             break;
+          case '\\':
+            nxt = lisp_write(handle, buf, nxt, "\\\\", 2);
+            break;
           default:
             nxt = lisp_write(handle, buf, nxt, &c, 1);
             break;
-- 
2.43.0


From e7ef7aeb6d7e4de7f9c949eb36fa624dcf779ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 03/55] fix: division and modulo by 0 or -1 must not kill the
 interpreter

(/ x 0) and (% x 0) raised SIGFPE and took the whole process down, and so did
both operators on the smallest number and -1. A division by zero now yields
NIL, and a division by -1 is a negation (with remainder 0).
---
 lib/mnml/math/div.c | 20 +++++++++++++++++++-
 lib/mnml/math/mod.c | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/math/div.c b/lib/mnml/math/div.c
index e105512..8b5a8f1 100644
--- a/lib/mnml/math/div.c
+++ b/lib/mnml/math/div.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(div, /, X, Y);
+static atom_t USED
+lisp_function_div(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * There is no quotient by zero.
+   */
+  if (Y->number == 0) {
+    return lisp_make_nil(lisp);
+  }
+  /*
+   * The division of the smallest number by -1 traps, so negate instead.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(lisp, (int64_t)(0 - (uint64_t)X->number));
+  }
+  return lisp_make_number(lisp, X->number / Y->number);
+}
+
 LISP_MODULE_SETUP(div, /, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
diff --git a/lib/mnml/math/mod.c b/lib/mnml/math/mod.c
index fdea586..1feeabc 100644
--- a/lib/mnml/math/mod.c
+++ b/lib/mnml/math/mod.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(mod, %, X, Y);
+static atom_t USED
+lisp_function_mod(const lisp_t lisp, const atom_t closure)
+{
+  LISP_ARGS(closure, C, X, Y);
+  /*
+   * There is no remainder by zero.
+   */
+  if (Y->number == 0) {
+    return lisp_make_nil(lisp);
+  }
+  /*
+   * The division of the smallest number by -1 traps, and its remainder is 0.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(lisp, 0);
+  }
+  return lisp_make_number(lisp, X->number % Y->number);
+}
+
 LISP_MODULE_SETUP(mod, %, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
-- 
2.43.0


From 3e9c2c99c02f70049d3a509c377e58c180353215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:39 +0000
Subject: [PATCH 04/55] fix: <- returns the previous value and releases what it
 holds

For a global symbol <- returned the pair (symbol . old value) instead of the
previous value, as it does for a local one. It also leaked its argument list on
every call, and for an unknown symbol it leaked a pair whose symbol and value
it had released.
---
 lib/mnml/std/set.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..e1d6388 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -40,14 +41,15 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
-  X(lisp, res);
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
-  return lisp_make_nil(lisp);
+  X(lisp, elt);
+  return res;
 }
 
 /* clang-format off */
-- 
2.43.0


From 8efd2d76603d53950dfb004f95b5020177e0463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 05/55] fix: def with an empty body must not crash, and must
 not leak its name

(def f ()) dereferenced the missing last expression of the body while marking
tail calls. A name that is not a symbol was leaked.
---
 lib/core/utils.c   | 6 ++++++
 lib/mnml/std/def.c | 1 +
 2 files changed, 7 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..ec9573a 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -524,6 +524,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * There is no tail in an empty body.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From c3be5355562a42fa257ca139150dec50f82503cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:22 +0000
Subject: [PATCH 06/55] fix: only the last expression of when and unless is a
 tail

The first expression after the condition was marked as a tail call, so a
recursive call followed by other expressions was never performed. A list whose
head is not a symbol is not a call of the function either.
---
 lib/core/utils.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index ec9573a..553be3e 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -492,7 +492,16 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
           lisp_symbol_equal(CAR(cell), "when")) {
         atom_t cd0 = lisp_cdr(lisp, cell);
         atom_t cd1 = lisp_cdr(lisp, cd0);
-        res = lisp_collect_tails(lisp, lisp_car(lisp, cd1));
+        if (!IS_PAIR(cd1)) {
+          X(lisp, cell, cd0);
+          res = cd1;
+          break;
+        }
+        FOREACH(cd1, p)
+        {
+          NEXT(p);
+        }
+        res = lisp_collect_tails(lisp, UP(p->car));
         X(lisp, cell, cd0, cd1);
         break;
       }
@@ -549,7 +558,8 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   FOREACH(tails, pt)
   {
     if (IS_PAIR(pt->car)) {
-      if (lisp_symbol_match(CAR(pt->car), &symb->symbol)) {
+      if (IS_SYMB(CAR(pt->car)) &&
+          lisp_symbol_match(CAR(pt->car), &symb->symbol)) {
         if (lisp_may_apply(args, CDR(pt->car))) {
           SET_TAIL_CALL(CAR(pt->car));
         }
-- 
2.43.0


From f9c7d40dd3bab5a0d43d4239aede970d9801ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 07/55] fix: a tail call must run the function it calls,
 whatever its name

A call in tail position was handed back as (symbol . arguments) and only resumed
by an evaluation going by the same symbol. When the function ran under another
name (an alias, a function argument, a curried application) that list leaked
out as the result: with (def cnt (n) (if (= n 0) 77 (cnt (- n 1)))) both
(map cnt (quote 2)) and ((f 3) 4) returned garbage. When the symbol was bound to
something else, the wrong body was run. Hand back the callee itself, and do not
treat the function applied by |> as a call.
---
 lib/core/eval.c  | 29 ++++++++++++++++++++---------
 lib/core/utils.c |  6 +++---
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 7e243a1..616aca1 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -139,12 +139,12 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
       X(lisp, body, narg, clos);
     }
     /*
-     * Return the (SYMB, BSCL) tail-call for further evaluation.
+     * Return the (BODY DSCL . BSCL) tail-call for further evaluation.
      */
     else if (IS_TAIL_CALL(symb)) {
-      rslt = lisp_cons(lisp, UP(symb), bscl);
+      rslt = lisp_cons(lisp, body, lisp_cons(lisp, dscl, bscl));
       SET_TAIL_CALL(rslt);
-      X(lisp, body, dscl, narg);
+      X(lisp, narg);
     }
     /*
      * Evaluate the lisp function.
@@ -154,7 +154,6 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
        * Merge the definition-site closure first.
        */
       atom_t cls0 = lisp_merge(lisp, lisp_dup(lisp, closure), dscl);
-      X(lisp, dscl);
       /*
        * Tail-call evaluation loop.
        */
@@ -167,25 +166,37 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
          * Evaluate the function's body.
          */
         atom_t res = lisp_prog(lisp, cls1, UP(body), lisp_make_nil(lisp));
-        X(lisp, cls1);
         /*
          * If the result is not a tail call, stop the evaluation.
          */
-        if (!IS_TAIL_CALL(res) || !lisp_symbol_match(CAR(res), &symb->symbol)) {
+        if (!IS_PAIR(res) || !IS_TAIL_CALL(res)) {
+          X(lisp, cls1);
           rslt = res;
           break;
         }
         /*
-         * If it's a tail call, evaluate the function with the new arguments.
+         * If it's a tail call to another function (the symbol called may not be
+         * bound to the current one), switch to that function.
+         */
+        if (CAR(res) != body || CAR(CDR(res)) != dscl) {
+          X(lisp, body, dscl, cls0);
+          body = UP(CAR(res));
+          dscl = UP(CAR(CDR(res)));
+          cls0 = lisp_merge(lisp, cls1, dscl);
+        } else {
+          X(lisp, cls1);
+        }
+        /*
+         * Evaluate the function with the new arguments.
          */
         X(lisp, bscl);
-        bscl = lisp_cdr(lisp, res);
+        bscl = UP(CDR(CDR(res)));
         X(lisp, res);
       }
       /*
        * Done.
        */
-      X(lisp, body, bscl, narg, cls0);
+      X(lisp, body, dscl, bscl, narg, cls0);
     }
   }
   /*
diff --git a/lib/core/utils.c b/lib/core/utils.c
index 553be3e..d279bab 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -472,10 +472,10 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
         break;
       }
       /*
-       * Check for PROG and STREAM constructs.
+       * Check for PROG constructs. The last expression of a STREAM is the
+       * function that is applied, not the call.
        */
-      if (lisp_symbol_equal(CAR(cell), "prog") ||
-          lisp_symbol_equal(CAR(cell), "|>")) {
+      if (lisp_symbol_equal(CAR(cell), "prog")) {
         FOREACH(cell, p)
         {
           NEXT(p);
-- 
2.43.0


From 58950cf0c9f34289eb743fbe3fe63ae3fad5db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:11 +0000
Subject: [PATCH 08/55] fix: match evaluates its subject in the closure of the
 caller

The subject was evaluated in a closure that holds the arguments of match itself,
so a variable named ANY evaluated to the whole argument list.
---
 lib/mnml/std/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/std/match.c b/lib/mnml/std/match.c
index dc05375..b7674f2 100644
--- a/lib/mnml/std/match.c
+++ b/lib/mnml/std/match.c
@@ -64,7 +64,7 @@ static atom_t USED
 lisp_function_match(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, ANY));
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   return lisp_match(lisp, C, car, cdr);
 }
-- 
2.43.0


From 11bef095d86d6c1fa79db0e25bc18c85b27e2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 09/55] fix: conc of something that is not a list is NIL

As documented. It returned the second list.
---
 lib/mnml/std/conc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mnml/std/conc.c b/lib/mnml/std/conc.c
index 2877a33..73a3b18 100644
--- a/lib/mnml/std/conc.c
+++ b/lib/mnml/std/conc.c
@@ -6,6 +6,9 @@ static atom_t USED
 lisp_function_conc(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, X, Y);
+  if (unlikely(!IS_LIST(X))) {
+    return lisp_make_nil(lisp);
+  }
   return lisp_conc(lisp, UP(X), UP(Y));
 }
 
-- 
2.43.0


From e4ebcf30c4b6d2e44ad17e246226ba9ba32b65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:27 +0000
Subject: [PATCH 10/55] fix: cond evaluates its subject once

The subject expression was evaluated again for every predicate, so its side
effects were repeated for every clause that did not match.
---
 lib/mnml/std/cond.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/std/cond.c b/lib/mnml/std/cond.c
index e31f1f3..9be2436 100644
--- a/lib/mnml/std/cond.c
+++ b/lib/mnml/std/cond.c
@@ -57,7 +57,11 @@ static atom_t USED
 lisp_function_cond(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_car(lisp, ANY);
+  /*
+   * Evaluate the subject, once. The predicates get it quoted.
+   */
+  atom_t val = lisp_eval(lisp, C, lisp_car(lisp, ANY));
+  atom_t car = lisp_cons(lisp, lisp_make_quote(lisp), val);
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t res = lisp_cond(lisp, C, car, cdr);
   return res;
-- 
2.43.0


From eb0b63163b7eeb18b9a4aabee5f478ebb559bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 11/55] fix: rotate the right node when an insertion turns the
 tree

---
 lib/core/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 72c6d26..9946dab 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -285,7 +285,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == RIGHT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_lrot(next, node);
+          next = lisp_tree_lrot(next, x);
         }
         /*
          * Case 3.
@@ -310,7 +310,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == LEFT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_rrot(next, node);
+          next = lisp_tree_rrot(next, x);
         }
         /*
          * Case 3.
-- 
2.43.0


From 9ebb87b822f8f8086df93edb42cfe4ca391dcaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 12/55] fix: a token longer than what is left of the read
 buffer is one token

---
 lib/core/read.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index 4dd83f8..5f7e22e 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -58,15 +58,34 @@ lisp_read(const lisp_t lisp, const atom_t cell)
   FILE* handle = (FILE*)hnd->number;
   /*
    */
-  char buffer[RBUFLEN] = { 0 };
+  size_t cap = RBUFLEN;
+  char* buffer = (char*)malloc(cap);
   do {
-    char* p = fgets(buffer + lexer->rem, RBUFLEN - lexer->rem, handle);
+    /*
+     * Make room if the pending token fills the buffer.
+     */
+    if (lexer->rem + 1 >= cap) {
+      cap <<= 1;
+      const size_t off = lexer->te - lexer->ts;
+      char* next = (char*)realloc(buffer, cap);
+      lexer->te = next + off;
+      lexer->ts = next;
+      buffer = next;
+    }
+    /*
+     * A token may only stop at the end of a line or at the end of the file.
+     */
+    char* p = fgets(buffer + lexer->rem, (int)(cap - lexer->rem), handle);
     if (p == NULL) {
+      if (lexer->rem > 0) {
+        lexer_parse(lexer, buffer, lexer->rem, true);
+      }
       break;
     }
-    size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN);
+    size_t len = lexer->rem + strlen(p);
+    lexer_parse(lexer, buffer, len, len + 1 < cap || buffer[len - 1] == '\n');
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
+  free(buffer);
   /*
    * Grab the result and return it.
    */
-- 
2.43.0


From 83096fec0f73e1c44792cc997fc9de4bda20458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 13/55] fix: release what the parser holds when the input is
 malformed or incomplete

---
 lib/grammar/parser.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 49b2e72..7311e34 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -6,6 +6,13 @@
 %type prefix { atom_t }
 %type item  { atom_t }
 
+%destructor list   { X(lexer->lisp, $$); }
+%destructor items  { X(lexer->lisp, $$); }
+%destructor prefix { X(lexer->lisp, $$); }
+%destructor item   { X(lexer->lisp, $$); }
+%destructor STRING { free($$); }
+%destructor SYMBOL { free($$); }
+
 %include
 {
 #include <mnml/lisp.h>
-- 
2.43.0


From f2db27d571d19076e4b03c8653c2cc193e920ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:09 +0000
Subject: [PATCH 14/55] fix: curried arguments shadow the symbols captured by
 the function

---
 lib/core/eval.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 616aca1..6949f99 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -203,7 +203,20 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
    * Else handle partial application.
    */
   else {
-    atom_t clos = lisp_conc(lisp, bscl, dscl);
+    atom_t clos;
+    /*
+     * Binary functions expect their arguments in order.
+     */
+    if (IS_NUMB(body)) {
+      clos = lisp_conc(lisp, bscl, dscl);
+    }
+    /*
+     * The bound arguments shadow the captured symbols, so they go last.
+     */
+    else {
+      clos = lisp_conc(lisp, lisp_dup(lisp, dscl), bscl);
+      X(lisp, dscl);
+    }
     atom_t con0 = lisp_cons(lisp, clos, body);
     rslt = lisp_cons(lisp, narg, con0);
   }
-- 
2.43.0


From f059546a3148e822cf6c939225f87e504d7609e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 15/55] fix: only string literals have escape sequences

---
 lib/core/lisp.c      | 2 +-
 lib/grammar/parser.y | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/core/lisp.c b/lib/core/lisp.c
index f0e254c..b7a6e8c 100644
--- a/lib/core/lisp.c
+++ b/lib/core/lisp.c
@@ -81,7 +81,7 @@ lisp_make_string(const lisp_t lisp, const char* const str, const size_t len)
     atom_t c = lisp_make_char(lisp, str[len - i - 1]);
     res = lisp_cons(lisp, c, res);
   }
-  return lisp_process_escapes(lisp, res, false, lisp_make_nil(lisp));
+  return res;
 }
 
 /*
diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 7311e34..12d8cf6 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -99,7 +99,8 @@ item(A) ::= CHAR(B).
 
 item(A) ::= STRING(B).
 {
-  A = lisp_make_string(lexer->lisp, B, strlen(B));
+  atom_t S = lisp_make_string(lexer->lisp, B, strlen(B));
+  A = lisp_process_escapes(lexer->lisp, S, false, lisp_make_nil(lexer->lisp));
   free(B);
 }
 
-- 
2.43.0


From 70a8a25ff3f253a942b8b14d9dd1facaa5111ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 16/55] fix: readline only removes the newline at the end of a
 line

---
 lib/mnml/io/readline.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..8961c7e 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -3,6 +3,7 @@
 #include <mnml/slab.h>
 #include <mnml/utils.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 static atom_t USED
 lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
@@ -15,13 +16,14 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
+  if (len > 0 && line[len - 1] == '\n') {
     line[len - 1] = 0;
     len -= 1;
   }
-- 
2.43.0


From 65c395c7de428649c0d1019e3a5a9a0452b7dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 17/55] fix: out rejects a list that is not a string

---
 lib/mnml/io/out.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..36b2818 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -38,6 +38,12 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       fd = dup((int)CHAN->number);
       break;
     case T_PAIR:
+      /*
+       * That argument must be a string.
+       */
+      if (!lisp_is_string(CHAN)) {
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
-- 
2.43.0


From 9101f6ffe8518df0a3dc4f994fda9a4496dbf87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 18/55] fix: printl and prinl flush their newline

---
 lib/mnml/io/prinl.c  | 4 +++-
 lib/mnml/io/printl.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/io/prinl.c b/lib/mnml/io/prinl.c
index 2a3fbd5..5772c14 100644
--- a/lib/mnml/io/prinl.c
+++ b/lib/mnml/io/prinl.c
@@ -33,7 +33,9 @@ lisp_function_prinl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_prinl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
diff --git a/lib/mnml/io/printl.c b/lib/mnml/io/printl.c
index 40917b2..d1373f6 100644
--- a/lib/mnml/io/printl.c
+++ b/lib/mnml/io/printl.c
@@ -36,7 +36,9 @@ lisp_function_printl(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
   atom_t res = lisp_printl_all(lisp, C, UP(ANY), lisp_make_nil(lisp));
-  fwrite("\n", 1, 1, (FILE*)CAR(CAR(lisp->ochan))->number);
+  FILE* handle = (FILE*)CAR(CAR(lisp->ochan))->number;
+  fwrite("\n", 1, 1, handle);
+  fflush(handle);
   return res;
 }
 
-- 
2.43.0


From 1b18bb73c3e632069a7696d4a6eb884a4e118e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 19/55] fix: out does without the PWD variable

---
 lib/mnml/io/out.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index 36b2818..35b800d 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,12 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  const char* const pwd = getenv("PWD");
+  if (pwd != NULL && strlen(pwd) < PATH_MAX) {
+    strcpy(dirn_buf, pwd);
+  } else if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
-- 
2.43.0


From c96b59b99a34b942c7b2645c3fb75033a65b5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 20/55] fix: leave room for the terminator of C strings

---
 lib/core/debug.c        | 2 +-
 lib/mnml/io/in.c        | 5 +++--
 lib/mnml/unix/connect.c | 4 ++--
 lib/mnml/unix/unlink.c  | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index e28d98f..b4c12e4 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -93,7 +93,7 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
        */
       if (!IS_NULL(atom) && lisp_is_string(atom)) {
         char buffer[1024];
-        size_t len = lisp_make_cstring(atom, buffer, 1024, 0);
+        size_t len = lisp_make_cstring(atom, buffer, 1023, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
         break;
       }
diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 2a15749..014dd4a 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -25,7 +25,8 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
   /*
    * Get the working directory for the current lisp->ichan.
    */
-  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX, 0);
+  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX - 1,
+                    0);
   /*
    * Process the CHAN.
    */
@@ -46,7 +47,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index ccca91e..5e5dc18 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -27,7 +27,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char address[1024];
-  size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
+  size_t len = lisp_make_cstring(ADDRESS, address, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert address to a C string");
     return lisp_make_nil(lisp);
@@ -36,7 +36,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char service[1024];
-  len = lisp_make_cstring(PORT, service, 1024, 0);
+  len = lisp_make_cstring(PORT, service, 1023, 0);
   if (len == 0) {
     TRACE("Cannot convert service to a C string");
     return lisp_make_nil(lisp);
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 4d47dfa..20a2b13 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -18,7 +18,7 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
    * Convert the argument.
    */
   char name_buf[PATH_MAX];
-  lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
+  lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
   /*
    * Call unlink().
    */
-- 
2.43.0


From d1d40f08ae5f8c18b19a61bbc31c76668ba49ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 21/55] fix: names of modules overflow the buffer of their
 library name

---
 lib/core/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..6a295d1 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -109,8 +109,8 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /* LIB NAME .DYLIB\0 = 3 + STRLEN(NAME) + 7 */
   const size_t lib_name_len = strlen(name) + 10;
 #else
-  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 3 */
-  const size_t lib_name_len = strlen(name) + 6;
+  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 4 */
+  const size_t lib_name_len = strlen(name) + 7;
 #endif
   char* const lib_name = alloca(lib_name_len);
   memset(lib_name, 0, lib_name_len);
-- 
2.43.0


From 0323d1c7cb4794180f55d94c3f87d57403557bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 22/55] fix: do without a home directory, skip module
 directories whose path is too long

---
 lib/core/module.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index 6a295d1..5812c00 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -43,8 +43,11 @@ lisp_usercache_prefix()
   static bool is_set = false;
   static char buffer[PATH_MAX];
   if (!is_set) {
-    strcpy(buffer, getenv("HOME"));
-    strcat(buffer, "/.mnml");
+    const char* home = getenv("HOME");
+    int len = snprintf(buffer, PATH_MAX, "%s/.mnml", home ? home : "");
+    if (home == NULL || len >= PATH_MAX) {
+      return NULL;
+    }
     is_set = true;
   }
   return buffer;
@@ -66,12 +69,16 @@ module_paths()
     /*
      * Then, append the user cache path.
      */
-    strcat(buffer, ":");
-    strcat(buffer, lisp_usercache_prefix());
+    if (lisp_usercache_prefix() != NULL) {
+      strcat(buffer, ":");
+      strcat(buffer, lisp_usercache_prefix());
+    }
     /*
      * Append the user-defined variable.
      */
-    if (getenv("MNML_MODULE_PATH") != NULL) {
+    if (getenv("MNML_MODULE_PATH") != NULL &&
+        strlen(buffer) + strlen(getenv("MNML_MODULE_PATH")) + 2 <
+          sizeof(buffer)) {
       strcat(buffer, ":");
       strcat(buffer, getenv("MNML_MODULE_PATH"));
     }
@@ -94,6 +101,13 @@ module_find_at_path(const char* const dirpath, const char* const name,
                     char* const path)
 {
   TRACE_MODL("Searching module %s in %s", name, dirpath);
+  /*
+   * Ignore the directory if the path of the library would not fit.
+   */
+  if (strlen(dirpath) + strlen(name) + 16 > PATH_MAX) {
+    ERROR("path too long: %s", dirpath);
+    return false;
+  }
   /*
    * Open the directory pointed by entry.
    */
@@ -416,6 +430,12 @@ module_init(const lisp_t lisp)
    * Reset the MODULES variable.
    */
   lisp->modules = lisp_make_nil(lisp);
+  /*
+   * There is no user cache without a home directory.
+   */
+  if (lisp_usercache_prefix() == NULL) {
+    return true;
+  }
   /*
    * Try to create the user cache directory.
    */
-- 
2.43.0


From 4578116183e228867015dff24a45ea91a301ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 23/55] fix: release the handle and the symbols of a module
 that fails to load

---
 lib/core/module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index 5812c00..aa8ad07 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -212,6 +212,7 @@ module_load_at_path(const char* const path, const char* const name)
   const char* (*get_name)() = dlsym(handle, "lisp_module_name");
   if (get_name == NULL) {
     ERROR("%s is not a module", path);
+    dlclose(handle);
     return NULL;
   }
   /*
@@ -381,6 +382,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -393,6 +395,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
    */
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
+    X(lisp, symbols);
     DLCLOSE(add_to_cache, handle);
     return lisp_make_nil(lisp);
   }
-- 
2.43.0


From 1269ab20b31d71618461ef1cbae864243e77e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 24/55] fix: paths that do not fit or have no directory
 overflow the path buffers

---
 lib/core/utils.c | 58 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index d279bab..7047a7a 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -599,32 +599,38 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
 {
   char expn_buf[PATH_MAX];
   char absl_buf[PATH_MAX];
+  int len;
   /*
    * Expand the path.
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
+                     &filepath[4]);
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
+                     &filepath[4]);
     }
-    strcat(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("HOME"), &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    len = snprintf(expn_buf, PATH_MAX, "%s", filepath);
+  }
+  if (len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
   if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s/%s", cwd, expn_buf);
   } else {
-    strcpy(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s", expn_buf);
+  }
+  if (len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * Get the fullpath.
@@ -637,13 +643,17 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    * If the last entry does not exist yet, realpath is going to fail.
    * So we remove it and try to resolve the directory path.
    */
-  char *last = absl_buf, *p;
-  while ((p = strstr(last, "/"))) {
-    last = p + 1;
+  char* const sep = strrchr(absl_buf, '/');
+  const char* const last = sep == NULL ? absl_buf : sep + 1;
+  if (sep == NULL) {
+    path = realpath(".", buffer);
+  } else if (sep == absl_buf) {
+    path = realpath("/", buffer);
+  } else {
+    *sep = '\0';
+    path = realpath(absl_buf, buffer);
+    *sep = '/';
   }
-  *(last - 1) = '\0';
-  path = realpath(absl_buf, buffer);
-  *(last - 1) = '/';
   if (path == NULL) {
     ERROR("Cannot get realpath for %s", absl_buf);
     return NULL;
@@ -651,7 +661,15 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
-  strcat(buffer, (last - 1));
+  const size_t dirlen = strlen(buffer);
+  if (dirlen + strlen(last) + 1 >= PATH_MAX) {
+    ERROR("Path too long: %s", absl_buf);
+    return NULL;
+  }
+  if (buffer[dirlen - 1] != '/') {
+    strcat(buffer, "/");
+  }
+  strcat(buffer, last);
   return path;
 }
 
@@ -666,9 +684,9 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    absl_buf[0] = '\0';
   } else {
-    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
+    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
   /*
    * Get the fullpath for the file.
-- 
2.43.0


From 9797bec26420a110383013517249f41f99de67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 25/55] fix: out truncates the file it writes, and appends with
 a leading +

---
 lib/mnml/io/out.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index 35b800d..0d27834 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -50,13 +50,15 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
         return lisp_make_nil(lisp);
       }
       /*
-       * Get the filepath.
+       * Get the filepath. A leading + appends to an existing file.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
+      const int append = file_buf[0] == '+' ? 1 : 0;
       /*
        * Get the fullpath for the file.
        */
-      const char* path = lisp_get_fullpath(lisp, dirn_buf, file_buf, path_buf);
+      const char* path =
+        lisp_get_fullpath(lisp, dirn_buf, &file_buf[append], path_buf);
       if (path == NULL) {
         ERROR("Cannot get the full path for %s", file_buf);
         return lisp_make_nil(lisp);
@@ -64,7 +66,8 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Open the file.
        */
-      fd = open(path, O_WRONLY | O_CREAT | O_APPEND, S_IRUSR | S_IWUSR);
+      fd = open(path, O_WRONLY | (append ? O_APPEND : O_CREAT | O_TRUNC),
+                S_IRUSR | S_IWUSR);
       if (fd >= 0) {
         break;
       }
-- 
2.43.0


From aa16ea50c7d2fd24d75bf24e9d73d8e71f22f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 26/55] fix: close only closes the descriptors it is given

---
 lib/mnml/unix/close.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/unix/close.c b/lib/mnml/unix/close.c
index beda205..63e1ce6 100644
--- a/lib/mnml/unix/close.c
+++ b/lib/mnml/unix/close.c
@@ -1,6 +1,7 @@
 #include <mnml/lisp.h>
 #include <mnml/module.h>
 #include <mnml/slab.h>
+#include <limits.h>
 #include <unistd.h>
 
 static bool
@@ -10,7 +11,10 @@ lisp_close(const lisp_t lisp, const atom_t closure, const atom_t cell,
   if (!IS_NULL(cell)) {
     atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, cell));
     atom_t cdr = lisp_cdr(lisp, cell);
-    int s = close((int)car->number);
+    int s = -1;
+    if (IS_NUMB(car) && car->number >= 0 && car->number <= INT_MAX) {
+      s = close((int)car->number);
+    }
     X(lisp, car, cell);
     return lisp_close(lisp, closure, cdr, res && s == 0);
   }
-- 
2.43.0


From 91fdf78d8fc321de005aeee9c1dec2f9b32149d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 27/55] fix: dup only duplicates the descriptors it is given

---
 lib/mnml/unix/dup.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/mnml/unix/dup.c b/lib/mnml/unix/dup.c
index e30e8b6..7d0b443 100644
--- a/lib/mnml/unix/dup.c
+++ b/lib/mnml/unix/dup.c
@@ -3,8 +3,15 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 #include <errno.h>
+#include <limits.h>
 #include <unistd.h>
 
+static bool
+is_descriptor(const atom_t cell)
+{
+  return IS_NUMB(cell) && cell->number >= 0 && cell->number <= INT_MAX;
+}
+
 static atom_t USED
 lisp_function_dup(const lisp_t lisp, const atom_t closure)
 {
@@ -16,6 +23,13 @@ lisp_function_dup(const lisp_t lisp, const atom_t closure)
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t tgt = lisp_eval(lisp, C, lisp_car(lisp, cdr));
   X(lisp, cdr);
+  /*
+   * Make sure the descriptors are valid.
+   */
+  if (!is_descriptor(car) || !(IS_NULL(tgt) || is_descriptor(tgt))) {
+    X(lisp, tgt, car);
+    return lisp_make_nil(lisp);
+  }
   /*
    * Call DUP if target is NIL.
    */
-- 
2.43.0


From 38bc9eae8762fe0deadbd06cb8d27a1e91da9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 28/55] fix: wait only waits for the process it is given

---
 lib/mnml/unix/wait.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mnml/unix/wait.c b/lib/mnml/unix/wait.c
index fc9c59c..d1c525c 100644
--- a/lib/mnml/unix/wait.c
+++ b/lib/mnml/unix/wait.c
@@ -2,12 +2,19 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 #include <errno.h>
+#include <limits.h>
 #include <sys/wait.h>
 
 static atom_t USED
 lisp_function_wait(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, X);
+  /*
+   * Make sure the PID is valid.
+   */
+  if (!IS_NUMB(X) || X->number < INT_MIN || X->number > INT_MAX) {
+    return lisp_make_nil(lisp);
+  }
   /*
    * Get the PID.
    */
-- 
2.43.0


From 520792d85ad796958e9918cd87617d108089c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 29/55] fix: listen accepts port 65535

---
 lib/mnml/unix/listen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/unix/listen.c b/lib/mnml/unix/listen.c
index 9dee8a1..83a18c6 100644
--- a/lib/mnml/unix/listen.c
+++ b/lib/mnml/unix/listen.c
@@ -19,7 +19,7 @@ lisp_function_listen(UNUSED const lisp_t lisp, const atom_t closure)
   /*
    * Make sure the port is valid.
    */
-  if (!IS_NUMB(PORT) || PORT->number < 0 || PORT->number >= UINT16_MAX) {
+  if (!IS_NUMB(PORT) || PORT->number < 0 || PORT->number > UINT16_MAX) {
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 37479efa246793d69e473a5afc0ece942bc8e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 30/55] fix: select ignores what is not a descriptor it can
 watch

---
 lib/mnml/unix/select.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..d16a82a 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -5,6 +5,12 @@
 #include <sys/select.h>
 #include <unistd.h>
 
+static bool
+is_descriptor(const atom_t cell)
+{
+  return IS_NUMB(cell) && cell->number >= 0 && cell->number < FD_SETSIZE;
+}
+
 static int
 convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
 {
@@ -18,12 +24,10 @@ convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
   /*
    * Add CAR in the result set if valid.
    */
-  if (IS_NUMB(CAR(fds))) {
-    if (CAR(fds)->number >= 0 && CAR(fds)->number < UINT32_MAX) {
-      FD_SET(CAR(fds)->number, rset);
-      FD_SET(CAR(fds)->number, eset);
-      cur = CAR(fds)->number;
-    }
+  if (is_descriptor(CAR(fds))) {
+    FD_SET(CAR(fds)->number, rset);
+    FD_SET(CAR(fds)->number, eset);
+    cur = CAR(fds)->number;
   }
   /*
    * Process the rest of the list.
@@ -55,7 +59,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     /*
      * Call the callback if it is set.
      */
-    if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
+    if (is_descriptor(CAR(fds)) && FD_ISSET(CAR(fds)->number, set) &&
+        !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
       atom_t cn1 = lisp_cons(lisp, UP(cb), cn0);
@@ -88,7 +93,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (is_descriptor(CAR(fds))) {
+        close(CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
-- 
2.43.0


From 26ff194f87e140a70d0ff874d9d499ff4ea17335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 31/55] fix: exec passes all of its arguments whole, and only
 strings

---
 lib/mnml/unix/exec.c | 62 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..1894301 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -4,8 +4,8 @@
 #include <mnml/slab.h>
 #include <mnml/utils.h>
 #include <errno.h>
-#include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <unistd.h>
 
 extern char** environ;
@@ -14,26 +14,35 @@ extern char** environ;
  * (exec "PROG" ("ARG0" ...) ("ENV0" ...))
  */
 
-#define MAX_ARGS 128
+static bool
+is_strings(const atom_t cell)
+{
+  if (!IS_PAIR(cell)) {
+    return IS_NULL(cell);
+  }
+  return lisp_is_string(CAR(cell)) && is_strings(CDR(cell));
+}
 
-static size_t
-lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
-                       const size_t len, const size_t idx)
+static char*
+lisp_exec_make_string(const atom_t cell)
 {
-  if (IS_NULL(cell) || idx == len) {
-    X(lisp, cell);
-    array[idx] = NULL;
-    return idx;
+  const size_t len = lisp_len(cell);
+  char* const str = malloc(len + 1);
+  lisp_make_cstring(cell, str, len, 0);
+  return str;
+}
+
+static char**
+lisp_exec_make_strings(const atom_t cell, const size_t idx)
+{
+  if (IS_NULL(cell)) {
+    return calloc(idx + 1, sizeof(char*));
   }
   /*
    */
-  char buffer[PATH_MAX + 1];
-  atom_t car = lisp_car(lisp, cell);
-  atom_t cdr = lisp_cdr(lisp, cell);
-  X(lisp, cell);
-  lisp_make_cstring(car, buffer, PATH_MAX, 0);
-  array[idx] = strdup(buffer);
-  return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
+  char** const array = lisp_exec_make_strings(CDR(cell), idx + 1);
+  array[idx] = lisp_exec_make_string(CAR(cell));
+  return array;
 }
 
 static atom_t USED
@@ -45,25 +54,26 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    */
   LISP_ARGS(closure, C, PATH, ARGS, ENVP);
   /*
-   * Build the path string.
+   * Make sure the arguments are strings.
    */
-  char buffer[PATH_MAX + 1];
-  lisp_make_cstring(PATH, buffer, PATH_MAX, 0);
-  TRACE_EVAL("%s", buffer);
+  if (!lisp_is_string(PATH) || !is_strings(ARGS) || !is_strings(ENVP)) {
+    printf("%s\n", strerror(EINVAL));
+    exit(EINVAL);
+  }
   /*
-   * Build the argument list.
+   * Build the path string and the argument list.
    */
-  char* arg_str[MAX_ARGS + 1] = { [0] = strdup(buffer) };
-  lisp_exec_make_strings(lisp, UP(ARGS), arg_str, MAX_ARGS - 1, 1);
+  char** arg_str = lisp_exec_make_strings(ARGS, 1);
+  arg_str[0] = lisp_exec_make_string(PATH);
+  TRACE_EVAL("%s", arg_str[0]);
   /*
    * Build the environment.
    */
-  char* env_str[MAX_ARGS + 1];
-  size_t len = lisp_exec_make_strings(lisp, UP(ENVP), env_str, MAX_ARGS, 0);
+  char** env_str = IS_NULL(ENVP) ? environ : lisp_exec_make_strings(ENVP, 0);
   /*
    * Call execve.
    */
-  execve(buffer, arg_str, len == 0 ? environ : env_str);
+  execve(arg_str[0], arg_str, env_str);
   printf("%s\n", strerror(errno));
   exit(errno);
 }
-- 
2.43.0


From 502729f29a4d70665db29509dc0106bbfc90853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:46 +0000
Subject: [PATCH 32/55] fix: select takes its descriptors and callbacks from
 the right arguments

---
 lib/mnml/unix/select.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index d16a82a..479934d 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -109,10 +109,11 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
 
 static atom_t
 process(const lisp_t lisp, const atom_t closure, const atom_t fds,
-        const char* const cb_name, const fd_set* const set)
+        const atom_t cb, const char* const cb_name, const fd_set* const set)
 {
   MAKE_SYMBOL_STATIC(cb_s, cb_name);
-  atom_t cbk = lisp_make_symbol(lisp, cb_s);
+  atom_t cbk =
+    IS_NULL(cb) ? lisp_make_nil(lisp) : lisp_make_symbol(lisp, cb_s);
   atom_t res = process_r(lisp, closure, fds, cbk, set);
   X(lisp, cbk);
   return res;
@@ -121,7 +122,7 @@ process(const lisp_t lisp, const atom_t closure, const atom_t fds,
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
   /*
    * Check that the fds argument is a list.
    */
@@ -146,8 +147,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process(lisp, closure, FDS, ON_READ, "ON_READ", &rset);
+  atom_t eres = process(lisp, closure, FDS, ON_ERROR, "ON_ERROR", &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From 358317f53eed56c1e7eefb79af0ddcbb2d6d0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 33/55] fix: closures of transpiled functions are not reused by
 functions that need larger ones

---
 include/mnml/closure.h | 1 +
 lib/core/closure.c     | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mnml/closure.h b/include/mnml/closure.h
index bc76822..eaac3c5 100644
--- a/include/mnml/closure.h
+++ b/include/mnml/closure.h
@@ -20,6 +20,7 @@ typedef union value
 typedef struct closure
 {
   struct closure* C;
+  size_t N;
   value_t V[];
 }* closure_t;
 
diff --git a/lib/core/closure.c b/lib/core/closure.c
index 5554ff3..51b47b1 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -3,20 +3,22 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MALLOC_SIZE(_N) (sizeof(closure_t) + (_N) * sizeof(atom_t))
+#define MALLOC_SIZE(_N) (sizeof(struct closure) + (_N) * sizeof(value_t))
 
 closure_t
 lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
 {
   closure_t result;
   /*
-   * Allocate the new closure, preferably from the cache.
+   * Allocate the new closure, preferably from the cache. The functions of a
+   * module share the cache, and their closures do not have the same size.
    */
-  if (*$ != NULL) {
+  if (*$ != NULL && (*$)->N >= N) {
     result = *$;
     *$ = result->C;
   } else {
     result = (closure_t)malloc(MALLOC_SIZE(N));
+    result->N = N;
   }
   /*
    * Return the closure.
-- 
2.43.0


From 1bb43896010bbff22a2d44dc2138334e6cc9c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:37 +0000
Subject: [PATCH 34/55] fix: transpiled predicates release the value they test

---
 share/mnml/cc.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 68916f2..74f34f6 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -90,7 +90,8 @@
 								(prin "IS_NULL(")
 								(cc:value:atm ARGS kvar arg)
 								(prinl ") };")))
-			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))))
+			(_	 . (prinl " 0 }; /* Unsupported predicate " op " */")))
+		(when (= kvar arg) (cc:gen:x ARGS kvar arg))))
 
 (def cc:op:num:one (ARGS TYPES kvar body)
 	"Generate C code for binary numeric operations."
-- 
2.43.0


From 7d0e3f79fece3010ecfdad2046004d7dcd797965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 35/55] fix: compiled functions release the placeholders of
 branches they did not take

The clean-up of a branch released the placeholders of its sibling too: values
never saved, so a stale or uninitialized pointer (two branches that each keep a
list while they compute another one).
---
 lib/core/closure.c |  4 +++-
 share/mnml/cc.l    | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/core/closure.c b/lib/core/closure.c
index 51b47b1..7ee64d5 100644
--- a/lib/core/closure.c
+++ b/lib/core/closure.c
@@ -21,9 +21,11 @@ lisp_closure_get(closure_t* const $, const closure_t C, const size_t N)
     result->N = N;
   }
   /*
-   * Return the closure.
+   * Return the closure. Its values are cleared, as the branch of a function may
+   * not save all of them.
    */
   result->C = C;
+  memset(result->V, 0, N * sizeof(value_t));
   return result;
 }
 
diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 74f34f6..b1f648f 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -283,6 +283,14 @@
 	"Generate X(REF)."
 	(prin (o|) "X(lisp, ") (cc:value:atm ARGS kvar ref) (prinl ");"))
 
+(def cc:gen:xif (ARGS ref)
+	"Generate X(REF) for a REF that the current branch may not have saved."
+	(if (cc:arg:idx ARGS ref 0)
+		(cc:gen:x ARGS NIL ref)
+		(prog
+			(prin (o|) "if (") (cc:value:atm ARGS NIL ref) (prin " != NULL) { ")
+			(prin "X(lisp, ") (cc:value:atm ARGS NIL ref) (prinl "); }"))))
+
 (def cc:value:get (ARGS kvar arg)
 	"Generate the C code for the ref R-value ARG."
 	(cond arg
@@ -335,7 +343,7 @@
 																			 (and (>= idx cnt) (< idx pos)))))
 					(filter (\ ((arg . _		)) (<> 'ATOM (assoc arg TYPES))))
 					(filter (\ ((arg . _		)) (not (cc:ref:idx ARGS arg))))
-					(iter	 (\ ((arg . _		)) (cc:gen:x ARGS NIL arg))))
+					(iter	 (\ ((arg . _		)) (cc:gen:xif ARGS arg))))
 			(/**/ "Clean-up the closure.")
 			(prinl (o|) "lisp_closure_put(&cache, C);"))))
 
-- 
2.43.0


From 332bd35722596f39cd5b2ca3d901d8e1f14f5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:45 +0000
Subject: [PATCH 36/55] fix: the transpiler accepts calls with repeated,
 literal and freely named arguments

The C variables of a call were named after its arguments: a call with the same
argument twice, with a number, or of a function whose name is not a C
identifier did not compile.
---
 share/mnml/cc.l | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index b1f648f..f572d16 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -204,22 +204,22 @@
 	"Generate C code for external function calls."
 	(let ((nvar			. (last args))
 				(effargs	. (cc:arg:get args))
-				(genquot	. (\ (arg)
+				(genquot	. (\ (idx arg)
 											(prog
-												(prin (o|) "atom_t " arg " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
+												(prin (o|) "atom_t _A" idx " = lisp_cons(lisp, lisp_make_quote(lisp), UP(")
 												(cc:value:atm ARGS kvar arg)
 												(prinl "));")
 												(when (= kvar arg) (cc:gen:x ARGS kvar arg))
 												)))
-				(gensymb	. (\ (arg)
-											(prinl (o|) "MAKE_SYMBOL_STATIC(s_" arg ", \"" arg "\");")
-											(prinl (o|) "atom_t " arg " = lisp_make_symbol(lisp, s_" arg ");")
+				(gensymb	. (\ (idx arg)
+											(prinl (o|) "MAKE_SYMBOL_STATIC(_S" idx ", \"" arg "\");")
+											(prinl (o|) "atom_t _A" idx " = lisp_make_symbol(lisp, _S" idx ");")
 											))
-				(genargs	. (\ (arg)
-											(let ((type . (assoc arg TYPES)))
+				(genargs	. (\ (idx arg)
+											(let ((type . (if (num? arg) 'NUMBER (assoc arg TYPES))))
 												(match type
 													(NUMBER . (prog
-																			(prin (o|) "atom_t " arg " = lisp_make_number(lisp, ")
+																			(prin (o|) "atom_t _A" idx " = lisp_make_number(lisp, ")
 																			(cc:value:num ARGS kvar arg)
 																			(prinl ");")))
 													#
@@ -228,23 +228,23 @@
 													# immediate values and not symbols.
 													#
 													(ATOM . (if (cc:ref:idx ARGS arg)
-																		(genquot arg)
-																		(gensymb arg)))
+																		(genquot idx arg)
+																		(gensymb idx arg)))
 													#
 													# NOTE If no type was found for the ATOM, assume it's
 													# a function symbol.
 													#
-													(NIL	. (gensymb arg))
-													(_		. (prinl (o|) "atom_t " arg " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
+													(NIL	. (gensymb idx arg))
+													(_		. (prinl (o|) "atom_t _A" idx " = lisp_make_nil(lisp); /* Unsupported type " (str type) " */"))
 													))))
-				(gencall	. (\ (arg)
-											(prinl (o|) "_T = lisp_cons(lisp, " arg ", _S);")
+				(gencall	. (\ (idx _)
+											(prinl (o|) "_T = lisp_cons(lisp, _A" idx ", _S);")
 											(prinl (o|) "_S = _T;")))
 				(type			. (assoc nvar TYPES)))
-		(iter genargs effargs)
+		(foldl (\ (idx arg) (genargs idx arg) (+ idx 1)) 0 effargs)
 		(/**/ "Build the expression to evaluate.")
 		(prinl (o|) "atom_t _S = lisp_make_nil(lisp), _T;")
-		(iter gencall (rev effargs))
+		(foldl (\ (idx arg) (gencall idx arg) (- idx 1)) (- (len effargs) 1) effargs)
 		(/**/ "Evaluate the expression.")
 		(prinl (o|) "atom_t _R = lisp_eval(lisp, E, _S);")
 		(/**/ "Convert the atom_t result to value_t.")
-- 
2.43.0


From 3e452d88aff440e2bbf824c586edb3608073cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 37/55] fix: append evaluates its arguments in the caller's
 scope

The list arguments of append were evaluated with its own parameters and
those of foldl's callbacks visible: a variable of the caller called x,
acc0, e0, lst or acc was captured.
---
 share/mnml/append.l | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/share/mnml/append.l b/share/mnml/append.l
index f79bd01..e4c2266 100644
--- a/share/mnml/append.l
+++ b/share/mnml/append.l
@@ -1,10 +1,12 @@
-(load "iterators.l" '(std \ eval cons))
+(load "iterators.l" '(std \ car cdr cons eval if))
 
-(def append (x . @)
+(def append (append:lst . append:any)
 	"Non-destructively concatenate multiple strings."
-	(foldl (\ (acc0 e0)
-					 (foldr (\ (e1 acc1) (cons e1 acc1)) acc0 (eval e0)))
-		x @))
+	(if append:any
+		(eval (cons 'append
+								(cons (cons 'quote (foldr cons append:lst (eval (car append:any))))
+											(cdr append:any))))
+		append:lst))
 
 (def $+ (x y)
 	"Non-destructively concatenate two strings."
-- 
2.43.0


From 1ecc8d13d927e020c28f549d2c44487a43860123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 38/55] fix: iter2 loads let, which it uses

---
 share/mnml/iter2.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/iter2.l b/share/mnml/iter2.l
index e9de0a5..bcae806 100644
--- a/share/mnml/iter2.l
+++ b/share/mnml/iter2.l
@@ -1,4 +1,4 @@
-(load '(logic and) '(std if car cdr))
+(load '(logic and) '(std if let car cdr))
 
 (def iter2 (fun lst1 lst2)
 	"Iterate over list LST1 and LST1 and call FUN on each pair of item."
-- 
2.43.0


From e4356617cc20eb0a7c16ede1d0f251be05b5968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 39/55] fix: last does not stop at a NIL element

---
 share/mnml/manips.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/manips.l b/share/mnml/manips.l
index 269b80f..75e9d0b 100644
--- a/share/mnml/manips.l
+++ b/share/mnml/manips.l
@@ -37,7 +37,7 @@
 
 (def last (lst)
 	"Return the last item of LST."
-	(if (nil? (cadr lst))
+	(if (nil? (cdr lst))
 		(car lst)
 		(last (cdr lst))))
 
-- 
2.43.0


From 096e859bb07f0878c783942c2141d481abf2f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 40/55] fix: ntoa converts negative numbers

---
 share/mnml/ntoa.l | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/share/mnml/ntoa.l b/share/mnml/ntoa.l
index 96e96c0..6ebe20e 100644
--- a/share/mnml/ntoa.l
+++ b/share/mnml/ntoa.l
@@ -1,9 +1,14 @@
-(load '(logic =) '(math + % /) '(std let \ if cons chr))
+(load '(logic =) '(math + - < % /) '(std let \ if cons chr))
 
 (def ntoa (n)
 	"Convert a number N into a list of character."
-	(let ((descend . (\ (n res)
+	(let ((digit	 . (\ (n) (chr (+ (if (< n 0) (- 0 n) n) ^0))))
+				(descend . (\ (n res)
 										 (if (= n 0)
 											 res
-											 (descend (/ n 10) (cons (chr (+ (% n 10) ^0)) res))))))
-		(if (= n 0) "0" (descend n NIL))))
+											 (descend (/ n 10) (cons (digit (% n 10)) res))))))
+		(if (= n 0)
+			"0"
+			(if (< n 0)
+				(cons ^- (descend n NIL))
+				(descend n NIL)))))
-- 
2.43.0


From 273f4acab71f0e0d90ee3b579a013046ff5bde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 41/55] fix: whitespace? decides instead of currying or

or is variadic and is never curried: (or x) piped into itself made
every character a white space, and trim never terminated.
---
 share/mnml/trim.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/trim.l b/share/mnml/trim.l
index 84a6b3c..cc7dfc2 100644
--- a/share/mnml/trim.l
+++ b/share/mnml/trim.l
@@ -6,7 +6,7 @@
 
 (def whitespace? (chr)
 	"Return T if CHR is a white space."
-	(|> (= chr ^ ) (or (= chr ^\t)) (or (= chr ^\n)) (or (= chr ^\r))))
+	(or (= chr ^ ) (or (= chr ^\t) (or (= chr ^\n) (= chr ^\r)))))
 
 (def triml (strn)
 	"Trim STRN of leading white spaces."
-- 
2.43.0


From 865fc22a362d4413a01827c0262f071598b78ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 42/55] fix: http/serve listens on the port it is given

---
 share/mnml/http.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e5ac621..9453925 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -122,7 +122,7 @@
 
 (def http/serve (port cb)
 	"Start a HTTP server on PORT, using CB as a request handler."
-	(let ((srv . (listen 8080))
+	(let ((srv . (listen port))
 				(fds . (list srv))
 				(run . T))
 		(while run
-- 
2.43.0


From 9bca679dcde6e4ff8ce047d60c5754d9e41ed06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 43/55] fix: http headers keep the colons of their values

A header value that holds two colons in a row lost one of them through
split and join; split the line at its first colon only.
---
 share/mnml/http.l | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 9453925..6e88444 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -2,6 +2,7 @@
 	"@lib/append.l"
 	"@lib/iter.l"
 	"@lib/join.l"
+	"@lib/rev.l"
 	"@lib/split.l"
 	"@lib/trim.l"
 	'(io in out prinl printl readline)
@@ -9,23 +10,25 @@
 	'(manips cadr caddr cddr)
 	'(logic = or)
 	'(math >)
-	'(std \ <- car cons if len let list match nil? prog unless when while)
+	'(std \ <- car cdr cons if len let list match nil? prog unless when while)
 	'(unix accept close connect listen select))
 
 #
 # HTTP methods.
 #
 
+(def http/header (name line)
+	"Split LINE at its first colon into the header NAME and its value."
+	(if (or (nil? line) (= (car line) ^:))
+		(cons (trim (rev name)) (trim (cdr line)))
+		(http/header (cons (car line) name) (cdr line))))
+
 (def http/headers (result)
 	"Parse all HTTP headers."
 	(let ((line . (readline))
 				(tlne . (trim line)))
 		(if (or (nil? tlne) (= line 'EOF))
-			(foldl (\ (acc e) 
-							 (let (((hd . tl) . (split e ^:))
-										 (rem . (join tl ^:)))
-								 (cons (cons (trim hd) (trim rem)) acc)))
-				NIL result)
+			(foldl (\ (acc e) (cons (http/header NIL e) acc)) NIL result)
 			(http/headers (cons tlne result))
 			)))
 
-- 
2.43.0


From 7cbce0e12683701d2d3af77ca146dd6fd3102171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 44/55] fix: -e evaluates every expression of its text

The loop took a NIL expression for the end of the list and dropped the
expressions after it.
---
 bin/mnml.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bin/mnml.c b/bin/mnml.c
index a862ae2..a122433 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -356,13 +356,9 @@ main(const int argc, char** const argv)
      * Evaluate the parsed expressions.
      */
     result = lisp_make_nil(lisp);
-    while (keep_running) {
+    while (keep_running && !IS_NULL(PAIRS)) {
       atom_t nil = lisp_make_nil(lisp);
       atom_t car = lisp_pop(lisp);
-      if (IS_NULL(car)) {
-        X(lisp, nil, car);
-        break;
-      }
       X(lisp, result);
       result = lisp_eval(lisp, nil, car);
       X(lisp, nil);
-- 
2.43.0


From 30a3133fe2b51d15f138757976e852167a40c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 45/55] fix: the usage of a test suite names its script, not
 its first option

---
 share/mnml/test.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/test.l b/share/mnml/test.l
index 66d5443..a363597 100644
--- a/share/mnml/test.l
+++ b/share/mnml/test.l
@@ -13,7 +13,7 @@
 
 (def usage ()
   "Print out a usage string for the testsuite."
-  (let ((arg0 . (car (cdr ARGV)))
+  (let ((arg0 . (car ARGV))
         (prgn . (car (rev (split arg0 ^/)))))
     (prinl "Usage: " prgn " [-l|-t test1,test2,...|-h] ")
     (prinl)
-- 
2.43.0


From d687f31d6201493273026ba7dbe5a1273931de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:24 +0000
Subject: [PATCH 46/55] fix: list evaluates its arguments from left to right

---
 lib/mnml/std/list.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/std/list.c b/lib/mnml/std/list.c
index b2be3aa..144a47f 100644
--- a/lib/mnml/std/list.c
+++ b/lib/mnml/std/list.c
@@ -16,10 +16,11 @@ lisp_list(const lisp_t lisp, const atom_t closure, const atom_t cell)
     atom_t cdr = lisp_cdr(lisp, cell);
     X(lisp, cell);
     /*
-     * Recursively get the result.
+     * Evaluate CAR first: arguments are evaluated from left to right. Then
+     * recursively get the result.
      */
-    atom_t res = lisp_list(lisp, closure, cdr);
     atom_t evl = lisp_eval(lisp, closure, car);
+    atom_t res = lisp_list(lisp, closure, cdr);
     return lisp_cons(lisp, evl, res);
   }
   /*
-- 
2.43.0


From 50e805654e9408817fdb7dc22af61879f1224db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:24 +0000
Subject: [PATCH 47/55] fix: removing a name from a tree keeps the others and
 the balance

---
 lib/core/tree.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 9946dab..e18e0e0 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -480,6 +480,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
+        SET_COLOR(p);
         next = lisp_tree_lrot(next, p);
         w = RIGHT(p);
       }
@@ -509,7 +510,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(RIGHT(w));
-        x = lisp_tree_lrot(next, p);
+        x = next = lisp_tree_lrot(next, p);
       }
     }
     /*
@@ -522,7 +523,8 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
-        next = lisp_tree_rrot(next, PARENT(x));
+        SET_COLOR(p);
+        next = lisp_tree_rrot(next, p);
         w = LEFT(p);
       }
       /*
@@ -551,13 +553,14 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(LEFT(w));
-        x = lisp_tree_rrot(next, p);
+        x = next = lisp_tree_rrot(next, p);
       }
     }
   }
   /*
-   * Return the new root.
+   * Clear the color of X and return the new root.
    */
+  CLR_COLOR(x);
   return next;
 }
 
-- 
2.43.0


From 08379985d3c4e5931a41c539998f4f424aea5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 48/55] fix: a connection lost before accept does not close the
 server's socket

---
 share/mnml/http.l | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 6e88444..5a2415d 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -105,8 +105,11 @@
 	"On-read server callback."
 	(if (= srv fd)
 		(let (((fd . (host . port)) . (accept fd)))
-			(prinl "Accepting connection from " host ":" port)
-			fd)
+			(if fd
+				(prog
+					(prinl "Accepting connection from " host ":" port)
+					fd)
+				T))
 		(in fd
 			(let (((op path hdrs body) . (http/request)))
 				(when op
-- 
2.43.0


From e5bc3e139195dc5911cecbab62829f79f4116f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 49/55] fix: http/serve reports a port it cannot listen on
 instead of waiting forever

---
 share/mnml/http.l | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 5a2415d..3f3cde7 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -131,8 +131,11 @@
 	(let ((srv . (listen port))
 				(fds . (list srv))
 				(run . T))
-		(while run
-			(let (((r e) . (select fds (http/ingress srv cb) NIL)))
-				(<- 'fds r)
-				(<- 'run (> (len fds) 1))
-				))))
+		(if srv
+			(while run
+				(let (((r e) . (select fds (http/ingress srv cb) NIL)))
+					(<- 'fds r)
+					(<- 'run (> (len fds) 1))
+					))
+			(prinl "Listening on port " port " failed")
+			)))
-- 
2.43.0


From 524c37b11f7cdd741d25e1fff1c481a7fe443223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 50/55] fix: http/serve closes its socket when it ends

---
 share/mnml/http.l | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index 3f3cde7..954d7a4 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -132,10 +132,12 @@
 				(fds . (list srv))
 				(run . T))
 		(if srv
-			(while run
-				(let (((r e) . (select fds (http/ingress srv cb) NIL)))
-					(<- 'fds r)
-					(<- 'run (> (len fds) 1))
-					))
+			(prog
+				(while run
+					(let (((r e) . (select fds (http/ingress srv cb) NIL)))
+						(<- 'fds r)
+						(<- 'run (> (len fds) 1))
+						))
+				(close srv))
 			(prinl "Listening on port " port " failed")
 			)))
-- 
2.43.0


From f1100e392a08f1786654fa3fdc4d399e938c5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:35 +0000
Subject: [PATCH 51/55] fix: in with a descriptor does not lose what it read
 ahead

---
 lib/mnml/io/in.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 014dd4a..3dbb1f1 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -78,6 +78,13 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
     close(fd);
     return lisp_make_nil(lisp);
   }
+  /*
+   * The descriptor remains in use after this call. Do not read ahead, as what
+   * is left in the buffer would be lost.
+   */
+  if (!IS_PAIR(CHAN)) {
+    setvbuf(handle, NULL, _IONBF, 0);
+  }
   /*
    * Push the context, eval the prog, pop the context.
    */
-- 
2.43.0


From 4bfeb84ee88ff44ba0d85670a5845db53dac225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 52/55] fix: in and out refuse names longer than PATH_MAX
 instead of opening another file

---
 lib/mnml/io/in.c  | 4 ++--
 lib/mnml/io/out.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 3dbb1f1..ed08c08 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -15,7 +15,7 @@ static atom_t USED
 lisp_function_in(const lisp_t lisp, const atom_t closure)
 {
   int fd = 0;
-  char file_buf[PATH_MAX];
+  char file_buf[PATH_MAX + 1];
   char path_buf[PATH_MAX];
   char dirn_buf[PATH_MAX];
   /*
@@ -47,7 +47,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index 0d27834..54adf89 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -15,7 +15,7 @@ static atom_t USED
 lisp_function_out(const lisp_t lisp, const atom_t closure)
 {
   int fd;
-  char file_buf[PATH_MAX];
+  char file_buf[PATH_MAX + 2];
   char path_buf[PATH_MAX];
   char dirn_buf[PATH_MAX];
   /*
@@ -52,7 +52,7 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath. A leading + appends to an existing file.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX + 1, 0);
       const int append = file_buf[0] == '+' ? 1 : 0;
       /*
        * Get the fullpath for the file.
-- 
2.43.0


From b8dbf140073bb7065f9e9222a47542ef6cf5a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 53/55] fix: unlink and connect refuse names that do not fit
 instead of cutting them

---
 lib/mnml/unix/connect.c | 12 ++++++------
 lib/mnml/unix/unlink.c  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index 5e5dc18..4273315 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -26,18 +26,18 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
   /*
    * Convert the address to a C string.
    */
-  char address[1024];
-  size_t len = lisp_make_cstring(ADDRESS, address, 1023, 0);
-  if (len == 0) {
+  char address[1025];
+  size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
+  if (len == 0 || len > 1023) {
     TRACE("Cannot convert address to a C string");
     return lisp_make_nil(lisp);
   }
   /*
    * Convert the address to a C string.
    */
-  char service[1024];
-  len = lisp_make_cstring(PORT, service, 1023, 0);
-  if (len == 0) {
+  char service[1025];
+  len = lisp_make_cstring(PORT, service, 1024, 0);
+  if (len == 0 || len > 1023) {
     TRACE("Cannot convert service to a C string");
     return lisp_make_nil(lisp);
   }
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 20a2b13..22e7cb3 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -17,8 +17,8 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
   /*
    * Convert the argument.
    */
-  char name_buf[PATH_MAX];
-  lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
+  char name_buf[PATH_MAX + 1];
+  lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
   /*
    * Call unlink().
    */
-- 
2.43.0


From 17d9f98faadc14787128927ad06563bcc0038bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 54/55] fix: expressions nested 50 levels and deeper are read,
 and refused as syntax errors beyond the stack

---
 lib/grammar/parser.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 12d8cf6..4c4182f 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -1,5 +1,7 @@
 %extra_argument { lexer_t lexer }
 
+%stack_size 1024
+
 %token_type { void * }
 %type list  { atom_t }
 %type items { atom_t }
@@ -32,6 +34,11 @@ extern void syntax_error();
   syntax_error();
 }
 
+%stack_overflow
+{
+  syntax_error();
+}
+
 root ::= prefix(A).
 {
   lexer->consumer(lexer->lisp, A);
-- 
2.43.0


From ce37e966a39434758e6f40ae3533e96d04bbec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 55/55] fix: str of a value that is no symbol and chr of a
 value that is no code are NIL

---
 lib/mnml/std/chr.c | 6 ++++++
 lib/mnml/std/str.c | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/lib/mnml/std/chr.c b/lib/mnml/std/chr.c
index 5dc5524..9cd2bd2 100644
--- a/lib/mnml/std/chr.c
+++ b/lib/mnml/std/chr.c
@@ -7,6 +7,12 @@ static atom_t USED
 lisp_function_chr(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, X);
+  /*
+   * Check that the argument is a number or a character.
+   */
+  if (unlikely(!IS_NUMB(X) && !IS_CHAR(X))) {
+    return lisp_make_nil(lisp);
+  }
   char val = (char)X->number;
   return lisp_make_char(lisp, val);
 }
diff --git a/lib/mnml/std/str.c b/lib/mnml/std/str.c
index 2405d22..63daaba 100644
--- a/lib/mnml/std/str.c
+++ b/lib/mnml/std/str.c
@@ -7,6 +7,15 @@ static atom_t USED
 lisp_function_str(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, X);
+  /*
+   * Check that the argument is a symbol.
+   */
+  if (unlikely(!IS_SYMB(X))) {
+    return lisp_make_nil(lisp);
+  }
+  /*
+   * Process the symbol.
+   */
   char buffer[17] = { 0 };
   strncpy(buffer, X->symbol.val, LISP_SYMBOL_LENGTH);
   return lisp_make_string(lisp, buffer, strlen(buffer));
-- 
2.43.0

