/* C03: the global table as a map. arg0: mode 0 = table operations, 1 = through the language;
 * arg1: number of operations; arg2: 1 = all 16 bytes of each name free, 0 = two free bytes. */
#include "lib.h"
static union symbol keys[40];
static int64_t vals[40];
static int nk;

static void any_key(union symbol* s, int wide, int i) {
  memset(s, 0, sizeof *s);
  if (wide) { for (int j = 0; j < 16; j++) msym_make(&s->val[j], 1, "k"); }
  else { memcpy(s->val, "kkkkkkkkkkkkkkkk", 16); msym_make(&s->val[i % 2 ? 3 : 3], 1, "k"); msym_make(&s->val[15], 1, "k"); }
}
static int eq16(union symbol* a, union symbol* b) { return memcmp(a->val, b->val, 16) == 0; }
static int find(union symbol* k) { for (int i = nk - 1; i >= 0; i--) if (msym_decide(eq16(&keys[i], k))) return i; return -1; }

static atom_t prev; static int visited; static int ordered;
static bool visit(const atom_t k, const atom_t v) {
  if (prev) ordered = msym_and(ordered, memcmp(prev->symbol.val, k->symbol.val, 16) < 0);
  prev = k; visited++;
  (void)v;
  return false;
}
static int depth(atom_t n) { if (IS_NULL(n)) return 0; int a = depth(LEFT(n)), b = depth(RIGHT(n)); return 1 + (a > b ? a : b); }

/* the greatest depth of a red-black tree of n nodes */
static int deepest(int n) { return n < 2 ? n : n < 4 ? 2 : n < 6 ? 3 : n < 10 ? 4 : n < 14 ? 5 : n < 22 ? 6 : 7; }
static int stop_at;
static bool visit_until(const atom_t k, const atom_t v) { (void)k; (void)v; return visited++ == stop_at; }

static void table(int n, int wide) {
  lisp_t l = boot(0);
  atom_t root = lisp_make_nil(l);
  for (int i = 0; i < n; i++) {
    union symbol k; any_key(&k, wide, i);
    int64_t v; msym_make(&v, 8, "v");
    int at = find(&k);
    atom_t kv = lisp_cons(l, lisp_make_symbol(l, &k), lisp_make_number(l, v));
    if (i == n - 1) { /* the last operation is any of: add, update, lookup */
      int op = msym_choice(3, "op");
      if (op == 1) {
        atom_t r = lisp_tree_upd(l, root, kv);
        if (at >= 0) {
          CHECK(r->type == T_PAIR, "update of a name that is in the table succeeds");
          CHECK(CDR(r)->type == T_NUMBER && CDR(r)->number == vals[at], "update hands back the previous value");
          vals[at] = v; X(l, r);
        } else { CHECK(r->type == T_NIL, "update of a name that is not in the table changes nothing"); X(l, r, kv); }
        continue;
      }
      if (op == 2) {
        atom_t r = lisp_tree_get(l, root, &k);
        if (at >= 0) { CHECK(r->type == T_PAIR && CDR(r)->type == T_NUMBER && CDR(r)->number == vals[at], "lookup returns the value most recently stored"); }
        else CHECK(r->type == T_NIL, "lookup of an absent name finds nothing");
        X(l, r, kv);
        continue;
      }
    }
    root = lisp_tree_add(l, root, kv);
    if (at >= 0) vals[at] = v;
    else { keys[nk] = k; vals[nk] = v; nk++; }
  }
  for (int i = 0; i < nk; i++) {
    atom_t r = lisp_tree_get(l, root, &keys[i]);
    CHECK(r->type == T_PAIR, "a stored name is found");
    CHECK(CDR(r)->type == T_NUMBER && CDR(r)->number == vals[i], "a stored name keeps its value");
    X(l, r);
  }
  prev = NULL; visited = 0; ordered = 1;
  atom_t d = lisp_tree_dfs(l, root, visit);
  CHECK(visited == nk, "a traversal visits every name once");
  CHECK(ordered, "a traversal visits the names in order");
  CHECK(depth(root) <= (nk < 2 ? 1 : nk < 4 ? 2 : nk < 6 ? 3 : nk < 10 ? 4 : 5), "the table stays balanced");
  X(l, d, root);
  shutdown_ctx(l, "the table releases every atom");
  msym_reach("end");
}

/* setq, <- and lookups of arbitrary names, in any order; each name is one shared symbol atom, so that
 * what lookups remember about it is exercised */
static void language(int n, int wide) {
  lisp_t l = boot(M_STD);
  atom_t nil = mk_nil(l);
  atom_t sy[3]; int bound[3] = { 0 }; int64_t val[3];
  for (int i = 0; i < 3; i++) {
    union symbol k; any_key(&k, wide, i);
    /* not one of the default names: those hold k at other positions */
    if (wide) for (int j = 0; j < 16; j++) msym_assume(msym_and(k.val[j] >= 'A', k.val[j] <= 'Z'));
    sy[i] = lisp_make_symbol(l, &k);
    for (int j = 0; j < i; j++) msym_assume(!eq16(&sy[j]->symbol, &k));
  }
  for (int i = 0; i < n; i++) {
    int w = msym_choice(3, "who"), op = msym_choice(4, "op");
    int64_t v; msym_make(&v, 8, "v");
    if (op == 0) { /* (setq k v) */
      atom_t r = lisp_eval(l, nil, mk_list(l, 3, mk_sym(l, "setq"), UP(sy[w]), mk_num(l, v)));
      CHECK(is_num(r, v), "setq returns the value it binds");
      bound[w] = 1; val[w] = v; X(l, r);
    } else if (op == 1) { /* (<- 'k v) */
      atom_t q = lisp_cons(l, mk_sym(l, "quote"), UP(sy[w]));
      atom_t r = lisp_eval(l, nil, mk_list(l, 3, mk_sym(l, "<-"), q, mk_num(l, v)));
      if (bound[w]) { CHECK(is_num(r, val[w]), "<- returns the previous value"); val[w] = v; }
      else CHECK(r->type == T_NIL, "<- of an unbound name is NIL");
      X(l, r);
    } else if (op == 2) { /* k, through the shared atom */
      atom_t r = lisp_eval(l, nil, UP(sy[w]));
      if (bound[w]) CHECK(is_num(r, val[w]), "a name evaluates to the value most recently bound to it");
      else CHECK(r->type == T_NIL, "an unbound name evaluates to NIL");
      X(l, r);
    } else { /* k, through a new atom */
      atom_t r = lisp_eval(l, nil, lisp_make_symbol(l, &sy[w]->symbol));
      if (bound[w]) CHECK(is_num(r, val[w]), "a name evaluates to the value most recently bound to it");
      else CHECK(r->type == T_NIL, "an unbound name evaluates to NIL");
      X(l, r);
    }
  }
  for (int w = 0; w < 3; w++) {
    atom_t r = lisp_eval(l, nil, sy[w]);
    if (bound[w]) CHECK(is_num(r, val[w]), "a name evaluates to the value most recently bound to it");
    else CHECK(r->type == T_NIL, "an unbound name evaluates to NIL");
    X(l, r);
  }
  /* the default definitions are still there */
  atom_t c = eval_text(l, "car");
  CHECK(c->type == T_PAIR, "other definitions are left alone");
  X(l, c, nil);
  shutdown_ctx(l, "global bindings release every atom");
  msym_reach("end");
}
/* any additions, then any removals (of names that are there or not): every other name stays, with its value, in
 * order and in logarithmic depth. shape: 0 = names in any order, 1 = ascending, 2 = descending, 3 = from both ends */
static void removal(int n, int r, int shape, int again) {
  lisp_t l = boot(0);
  atom_t root = lisp_make_nil(l);
  for (int i = 0; i < n; i++) {
    union symbol k; memcpy(k.val, "kkkkkkkkkkkkkkkk", 16);
    msym_make(&k.val[15], 1, "k");
    for (int j = 0; j < nk; j++) msym_assume(k.val[15] != keys[j].val[15]);
    if (shape == 1 && i) msym_assume((unsigned char)k.val[15] > (unsigned char)keys[i - 1].val[15]);
    if (shape == 2 && i) msym_assume((unsigned char)k.val[15] < (unsigned char)keys[i - 1].val[15]);
    if (shape == 3 && i > 1) { /* alternately below and above all others */
      if (i % 2) msym_assume((unsigned char)k.val[15] > (unsigned char)keys[i - 2].val[15]);
      else msym_assume((unsigned char)k.val[15] < (unsigned char)keys[i - 2].val[15]);
    } else if (shape == 3 && i == 1) msym_assume((unsigned char)k.val[15] > (unsigned char)keys[0].val[15]);
    int64_t v; msym_make(&v, 8, "v");
    root = lisp_tree_add(l, root, lisp_cons(l, lisp_make_symbol(l, &k), lisp_make_number(l, v)));
    keys[nk] = k; vals[nk] = v; nk++;
  }
  for (int i = 0; i < r; i++) {
    union symbol k; memcpy(k.val, "kkkkkkkkkkkkkkkk", 16);
    msym_make(&k.val[15], 1, "gone");
    int at = find(&k);
    atom_t next = lisp_tree_rem(l, root, &k);
    if (at < 0) { CHECK(next->type == T_NIL, "removing a name that is not there is NIL"); X(l, next); }
    else {
      root = next;
      nk--; keys[at] = keys[nk]; vals[at] = vals[nk];
      CHECK(IS_NULL(root) == (nk == 0), "the table is empty after the last removal");
      atom_t g = lisp_tree_get(l, root, &k);
      CHECK(g->type == T_NIL, "a removed name is not found");
      X(l, g);
    }
    for (int j = 0; j < nk; j++) {
      atom_t g = lisp_tree_get(l, root, &keys[j]);
      CHECK(g->type == T_PAIR, "removing a name leaves the others");
      CHECK(CDR(g)->type == T_NUMBER && CDR(g)->number == vals[j], "removing a name leaves the values of the others");
      X(l, g);
    }
    prev = NULL; visited = 0; ordered = 1;
    atom_t d = lisp_tree_dfs(l, root, visit);
    CHECK(visited == nk, "a traversal visits every name once");
    CHECK(ordered, "a traversal visits the names in order");
    CHECK(depth(root) <= deepest(nk), "the table stays balanced");
    X(l, d);
  }
  /* the table goes on as before: one more name, or another value for a present one */
  if (again) {
    union symbol k; memcpy(k.val, "kkkkkkkkkkkkkkkk", 16);
    msym_make(&k.val[15], 1, "again");
    int at = find(&k);
    int64_t v; msym_make(&v, 8, "v");
    atom_t kv = lisp_cons(l, lisp_make_symbol(l, &k), lisp_make_number(l, v));
    if (at >= 0) {
      atom_t old = lisp_tree_upd(l, root, kv);
      CHECK(old->type == T_PAIR && CDR(old)->type == T_NUMBER && CDR(old)->number == vals[at], "update hands back the previous value");
      X(l, old); vals[at] = v;
    } else { root = lisp_tree_add(l, root, kv); keys[nk] = k; vals[nk] = v; nk++; }
    for (int j = 0; j < nk; j++) {
      atom_t g = lisp_tree_get(l, root, &keys[j]);
      CHECK(g->type == T_PAIR && CDR(g)->type == T_NUMBER && CDR(g)->number == vals[j], "an addition after a removal leaves the others");
      X(l, g);
    }
    CHECK(depth(root) <= deepest(nk), "the table stays balanced");
  }
  /* a traversal stops where it is told to */
  for (stop_at = 0; stop_at < nk; stop_at++) {
    visited = 0;
    atom_t d = lisp_tree_dfs(l, root, visit_until);
    CHECK(visited == stop_at + 1, "a traversal stops where it is told to");
    CHECK(d->type == T_PAIR, "a traversal that was stopped hands back where");
    X(l, d);
  }
  X(l, root);
  shutdown_ctx(l, "the table releases every atom");
  msym_reach("end");
}
/* the binding cell of a global survives redefinition of others: any insertion order */
void harness(void) {
  int mode = (int)msym_arg(0), n = (int)msym_arg(1), wide = (int)msym_arg(2);
  if (mode == 0) table(n, wide); else if (mode == 2) removal(n, wide, (int)msym_arg(3), (int)msym_arg(4)); else language(n, wide);
}
