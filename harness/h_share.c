/* C22, C23: the functions of share/mnml/*.l compute what they document, and keep no memory.
 * arg0: function, arg1..: sizes */
#include "share_fs.h"

static lisp_t l;
static int A(int i) { return (int)msym_arg(i); }
static atom_t q(atom_t v) { return lisp_cons(l, lisp_make_quote(l), v); }
static atom_t fn(const char* t) { return parse1(l, t); }
static atom_t rec(int n) { return n ? fn("(\\ (x y) (prog (setq H (cons (cons x y) H)) (list x y)))") : fn("(\\ (x) (prog (setq H (cons x H)) (list x)))"); }

static atom_t res;
/* evaluates (name args...), consumes the arguments */
static atom_t call(const char* name, int n, atom_t a, atom_t b, atom_t c, atom_t d) {
  atom_t v[5] = { mk_sym(l, name), a, b, c, d };
  atom_t nil = mk_nil(l);
  atom_t r = lisp_eval(l, nil, mk_list_(l, n + 1, v));
  X(l, nil);
  well_formed(r);
  return r;
}
#define C1(f, a) call(f, 1, a, 0, 0, 0)
#define C2(f, a, b) call(f, 2, a, b, 0, 0)
#define C3(f, a, b, c) call(f, 3, a, b, c, 0)
#define C4(f, a, b, c, d) call(f, 4, a, b, c, d)
static void expect(atom_t r, atom_t e, const char* m) { CHECK(same_expr(r, e), m); X(l, r); X(l, e); }
static void truth(atom_t r, int e, const char* m) {
  CHECK(IS_TRUE(r) || IS_NULL(r), "the result is T or NIL");
  CHECK(IS_TRUE(r) == !!e, m);
  X(l, r);
}

/* arrays of atoms, as lists that share them */
static atom_t lst(int n, atom_t* v) {
  atom_t r = mk_nil(l);
  for (int i = n; i-- > 0;) r = lisp_cons(l, UP(v[i]), r);
  return r;
}
static void freev(int n, atom_t* v) { for (int i = 0; i < n; i++) drop(l, v[i]); }
static atom_t val(int k, const char* nm) {
  if (k == 0) return sym_num(l, nm);
  switch (msym_choice(k == 2 ? 6 : 4, "kind")) {
    case 4: { atom_t x = sym_num(l, nm); return mk_list(l, 2, x, sym_num(l, nm)); }
    case 5: return mk_sym(l, msym_choice(2, "symbol") ? "ka" : "kb");
    case 0: return sym_num(l, nm);
    case 1: return mk_nil(l);
    case 2: return sym_char(l, nm);
    default: return mk_list(l, 1, sym_num(l, nm));
  }
}
static int fill(atom_t* v, int n, int k, const char* nm) { for (int i = 0; i < n; i++) v[i] = val(k, nm); return n; }
static int some(atom_t* v, int max, int k, const char* nm) { return fill(v, (int)msym_choice(max + 1, "length"), k, nm); }

/* a tree of numbers and NIL; its leaves as flatten sees them */
static atom_t tree_of(int d, const char* nm) {
  switch (msym_choice(d ? 3 : 2, "tree")) {
    case 0: return sym_num(l, nm);
    case 1: return mk_nil(l);
    default: { atom_t a = tree_of(d - 1, nm); return lisp_cons(l, a, tree_of(d - 1, nm)); }
  }
}
static int leaves(atom_t t, atom_t* v, int n) {
  if (!IS_PAIR(t)) { v[n++] = UP(t); return n; }
  while (IS_PAIR(t)) { n = leaves(CAR(t), v, n); t = CDR(t); }
  if (!IS_NULL(t)) v[n++] = UP(t);
  return n;
}
static int lt(atom_t a, atom_t b) { return a->number < b->number ? 1 : 0; }

static void lists(int f, int n, int m) {
  atom_t a[16], b[16], e[32];
  int na = 0, nb = 0, ne = 0;
  switch (f) {
    case 0: /* rev */
      na = some(a, n, 1, "a");
      for (int i = na; i-- > 0;) e[ne++] = UP(a[i]);
      expect(C1("rev", q(lst(na, a))), lst(ne, e), "rev reverses the list");
      break;
    case 1: { /* append, of expressions over any names */
      static const char* names[] = { "lst", "acc", "x", "e0", "fun", "acc0", "any" };
      atom_t c[4];
      int k1 = (int)msym_choice(7, "name1"), k2 = (int)msym_choice(7, "name2"), nc = 0;
      if (k1 == k2) msym_discard();
      na = some(a, n, 0, "a"); nb = some(b, n, 0, "b"); if (m > 2) nc = some(c, n, 0, "c");
      for (int i = 0; i < na; i++) e[ne++] = UP(a[i]);
      if (m > 1) for (int i = 0; i < nb; i++) e[ne++] = UP(b[i]);
      for (int i = 0; i < nc; i++) e[ne++] = UP(c[i]);
      set_global(l, names[k1], lst(nb, b)); set_global(l, names[k2], lst(nc, c));
      expect(call("append", m, q(lst(na, a)), m > 1 ? mk_sym(l, names[k1]) : 0, m > 2 ? mk_sym(l, names[k2]) : 0, 0), lst(ne, e), "append concatenates its arguments");
      freev(nc, c);
      break;
    }
    case 2: /* $+ */
      na = some(a, n, 1, "a"); nb = some(b, n, 1, "b");
      for (int i = 0; i < na; i++) e[ne++] = UP(a[i]);
      for (int i = 0; i < nb; i++) e[ne++] = UP(b[i]);
      expect(C2("$+", q(lst(na, a)), q(lst(nb, b))), lst(ne, e), "$+ concatenates its arguments");
      break;
    case 3: { /* has */
      na = some(a, n, m == 3 ? 2 : 1, "a"); nb = fill(b, 1, m == 3 ? 2 : 1, "x");
      int is = 0;
      for (int i = 0; i < na; i++) is |= same_expr(a[i], b[0]);
      truth(C2("has", q(lst(na, a)), q(UP(b[0]))), is, "has tells whether the value is in the list");
      break;
    }
    case 4: /* filter */
      na = some(a, n, 0, "a"); nb = 0;
      for (int i = 0; i < na; i++) if (!(a[i]->number < 10)) e[ne++] = UP(a[i]);
      expect(C2("filter", fn("(\\ (e) (< e 10))"), q(lst(na, a))), lst(ne, e), "filter removes exactly the elements that match");
      break;
    case 5: { /* flatten */
      na = nb = 0;
      atom_t t = tree_of(n, "t");
      if (IS_NULL(t)) e[ne++] = UP(t); else ne = leaves(t, e, 0);
      expect(C1("flatten", q(t)), lst(ne, e), "flatten keeps the leaves in order");
      break;
    }
    case 6: case 7: case 8: { /* erase, replc, assoc */
      na = nb = (int)msym_choice(n + 1, "length");
      fill(a, na, m == 3 ? 2 : 0, "key"); fill(b, nb, m == 3 ? 0 : 1, "value");
      atom_t k = val(m == 3 ? 2 : 0, "k"), v = val(m == 3 ? 0 : 1, "v"), al = mk_nil(l), hit = 0;
      for (int i = na; i-- > 0;) al = lisp_cons(l, lisp_cons(l, UP(a[i]), UP(b[i])), al);
      for (int i = 0; i < na; i++) {
        int is = same_expr(a[i], k) ? 1 : 0;
        if (is && !hit) hit = b[i];
        if (f == 7) e[ne++] = lisp_cons(l, UP(a[i]), UP(is ? v : b[i]));
        else if (f == 6 && !is) e[ne++] = lisp_cons(l, UP(a[i]), UP(b[i]));
      }
      if (f == 6) expect(C2("erase", q(UP(k)), q(al)), lst(ne, e), "erase removes the entries of the key");
      else if (f == 7) expect(C3("replc", q(UP(k)), q(UP(v)), q(al)), lst(ne, e), "replc replaces the values of the key");
      else expect(C2("assoc", q(UP(k)), q(al)), hit ? UP(hit) : mk_nil(l), "assoc yields the first value of the key");
      X(l, k, v);
      break;
    }
    case 9: { /* insert */
      na = some(a, n, 0, "a"); nb = fill(b, 1, 0, "x");
      int done = 0;
      for (int i = 0; i < na; i++) { if (!done && lt(b[0], a[i])) { e[ne++] = UP(b[0]); done = 1; } e[ne++] = UP(a[i]); }
      if (!done) e[ne++] = UP(b[0]);
      expect(C3("insert", mk_sym(l, "<"), q(UP(b[0])), q(lst(na, a))), lst(ne, e), "insert puts the value before the first greater one");
      break;
    }
    case 10: { /* isort: sorted, stable, nothing lost */
      na = some(a, n, 0, "key"); nb = 0;
      int ix[16];
      atom_t in = mk_nil(l);
      for (int i = na; i-- > 0;) in = lisp_cons(l, lisp_cons(l, UP(a[i]), mk_num(l, i)), in);
      for (int i = 0; i < na; i++) { int j = i; while (j > 0 && lt(a[i], a[ix[j - 1]])) { ix[j] = ix[j - 1]; j--; } ix[j] = i; }
      for (int i = 0; i < na; i++) e[ne++] = lisp_cons(l, UP(a[ix[i]]), mk_num(l, ix[i]));
      expect(C2("isort", fn("(\\ (a b) (< (car a) (car b)))"), q(in)), lst(ne, e), "isort sorts and keeps the order of equals");
      break;
    }
    case 11: { /* merge and dedup */
      atom_t c[16]; int nc = 0;
      na = some(a, n, 0, "a"); nb = some(b, m, 0, "b");
      for (int i = 1; i < nb; i++) msym_assume(b[i - 1]->number <= b[i]->number);
      for (int i = 0; i < nb; i++) c[nc++] = b[i];
      for (int i = 0; i < na; i++) {
        int p = 0;
        while (p < nc && !lt(a[i], c[p])) p++;
        for (int j = nc; j > p; j--) c[j] = c[j - 1];
        c[p] = a[i]; nc++;
      }
      /* equal numbers are kept once, successors replace */
      int kind = (int)msym_choice(3, "rule");
      for (int i = nc; i-- > 0;) {
        if (ne == 0) { e[ne++] = UP(c[i]); continue; }
        int eq = c[i]->number == e[ne - 1]->number ? 1 : 0;
        if (!eq || kind == 0) e[ne++] = UP(c[i]);
        else if (kind == 1) { X(l, e[ne - 1]); e[ne - 1] = mk_num(l, 7); }
      }
      for (int i = 0; i < ne / 2; i++) { atom_t t = e[i]; e[i] = e[ne - 1 - i]; e[ne - 1 - i] = t; }
      static const char* rule[] = { "(dedup (\\ (x y) (cons 'APPEND x)))", "(dedup (\\ (x y) (if (= x y) '(REPLACE . 7) (cons 'APPEND x))))", "(dedup (\\ (x y) (if (= x y) '(SKIP) (cons 'APPEND x))))" };
      expect(C4("merge", fn(rule[kind]), fn("(insert <)"), q(lst(na, a)), q(lst(nb, b))), lst(ne, e), "merge inserts every element and dedup follows its comparator");
      break;
    }
    case 12: /* last */
      na = some(a, n, 1, "a"); nb = 0;
      expect(C1("last", q(lst(na, a))), na ? UP(a[na - 1]) : mk_nil(l), "last yields the last element");
      break;
    case 13: { /* rep */
      na = 0; nb = fill(b, 1, 1, "value");
      atom_t c = sym_num(l, "count");
      msym_assume(c->number <= n);
      for (int i = 0; i < c->number; i++) e[ne++] = UP(b[0]);
      expect(C2("rep", c, q(UP(b[0]))), lst(ne, e), "rep repeats its value");
      break;
    }
    case 14: case 15: { /* truncl, truncr */
      na = some(a, n, 1, "a"); nb = 0;
      int k = (int)msym_choice(na + 1, "count");
      for (int i = 0; i < k; i++) e[ne++] = UP(a[f == 14 ? i : na - k + i]);
      expect(C2(f == 14 ? "truncl" : "truncr", mk_num(l, k), q(lst(na, a))), lst(ne, e), f == 14 ? "truncl keeps the first elements" : "truncr keeps the last elements");
      break;
    }
    case 16: case 17: { /* iter, iter2 */
      na = some(a, n, 1, "a"); nb = f == 17 ? some(b, n, 1, "b") : 0;
      int k = f == 17 && nb < na ? nb : na;
      for (int i = k; i-- > 0;) e[ne++] = f == 17 ? lisp_cons(l, UP(a[i]), UP(b[i])) : UP(a[i]);
      set_global(l, "H", mk_nil(l));
      atom_t h = mk_num(l, 0);
      set_global(l, "H", h);
      atom_t r = f == 17 ? C3("iter2", rec(1), q(lst(na, a)), q(lst(nb, b))) : C2("iter", rec(0), q(lst(na, a)));
      expect(r, k == 0 ? mk_nil(l) : f == 17 ? mk_list(l, 2, UP(a[k - 1]), UP(b[k - 1])) : mk_list(l, 1, UP(a[k - 1])), "the result of the iteration is that of its last call");
      atom_t w = mk_num(l, 0);
      for (int i = ne; i-- > 0;) w = lisp_cons(l, UP(e[i]), w);
      expect(eval_text(l, "H"), w, "the function is called once for each element, in order");
      break;
    }
    case 18: /* <|> */
      na = fill(a, 1, 1, "a"); nb = fill(b, 1, 1, "b");
      expect(C2("<|>", q(UP(a[0])), q(UP(b[0]))), UP(IS_NULL(a[0]) ? b[0] : a[0]), "<|> yields the first that is not NIL");
      break;
    case 19: case 20: { /* foldl, foldr */
      na = some(a, n, 1, "a"); nb = fill(b, 1, 1, "acc");
      atom_t w = UP(b[0]);
      if (f == 19) for (int i = 0; i < na; i++) w = mk_list(l, 2, w, UP(a[i]));
      else for (int i = na; i-- > 0;) w = mk_list(l, 2, UP(a[i]), w);
      expect(f == 19 ? C3("foldl", fn("(\\ (x y) (list x y))"), q(UP(b[0])), q(lst(na, a))) : C3("foldr", fn("(\\ (x y) (list x y))"), q(lst(na, a)), q(UP(b[0]))), w,
             f == 19 ? "foldl folds from the left" : "foldr folds from the right");
      break;
    }
    case 21: case 22: case 23: { /* map, map2, zip */
      na = some(a, n, 1, "a"); nb = f == 21 ? 0 : some(b, n, 1, "b");
      int k = f != 21 && nb < na ? nb : na;
      for (int i = 0; i < k; i++) e[ne++] = f == 21 ? mk_list(l, 1, UP(a[i])) : f == 22 ? mk_list(l, 2, UP(a[i]), UP(b[i])) : lisp_cons(l, UP(a[i]), UP(b[i]));
      set_global(l, "H", mk_num(l, 0));
      atom_t r = f == 21 ? C2("map", rec(0), q(lst(na, a))) : f == 22 ? C3("map2", rec(1), q(lst(na, a)), q(lst(nb, b))) : C2("zip", q(lst(na, a)), q(lst(nb, b)));
      atom_t w = mk_num(l, 0);
      if (f != 23) for (int i = 0; i < k; i++) w = lisp_cons(l, f == 21 ? UP(a[i]) : lisp_cons(l, UP(a[i]), UP(b[i])), w);
      expect(r, lst(ne, e), "the result holds one element for each element of the lists");
      expect(eval_text(l, "H"), w, "the function is called once for each element, in order");
      break;
    }
    case 24: { /* caar .. cadddr */
      static const struct { const char* n; const char* ops; } acc[] = { { "caar", "aa" }, { "cddr", "dd" }, { "cadar", "ada" }, { "caddr", "add" }, { "cadddr", "addd" }, { "cadr", "ad" }, { "cdar", "da" } };
      na = nb = 0;
      atom_t v = tree_of(n, "v"), w = UP(v);
      const char* o = acc[m].ops;
      for (int i = (int)strlen(o); i-- > 0;) { atom_t t = o[i] == 'a' ? lisp_car(l, w) : lisp_cdr(l, w); X(l, w); w = t; }
      expect(C1(acc[m].n, q(v)), w, "the accessor follows its letters");
      break;
    }
    default: na = nb = 0; msym_fail("no such function");
  }
  freev(na, a); freev(nb, b); freev(ne, e);
}

static int str(atom_t* v, int n, const char* nm) { for (int i = 0; i < n; i++) v[i] = sym_char(l, nm); return n; }
static int white(atom_t c) { return c->number == ' ' || c->number == '\t' || c->number == '\n' || c->number == '\r' ? 1 : 0; }

static void strings(int f, int n, int m) {
  atom_t a[32], b[32], e[64];
  int na = 0, nb = 0, ne = 0;
  switch (f) {
    case 0: { /* join: n strings of up to m characters */
      atom_t in = mk_nil(l), c = sym_char(l, "separator"), s[8];
      int k[8];
      for (int i = 0; i < n; i++) { k[i] = (int)msym_choice(m + 1, "length"); s[i] = mk_nil(l); }
      for (int i = n; i-- > 0;) {
        atom_t t[8];
        str(t, k[i], "c");
        X(l, s[i]); s[i] = lst(k[i], t);
        in = lisp_cons(l, UP(s[i]), in);
        freev(k[i], t);
      }
      for (int i = 0; i < n; i++) { if (i) e[ne++] = UP(c); for (atom_t p = s[i]; IS_PAIR(p); p = CDR(p)) e[ne++] = UP(CAR(p)); }
      expect(C2("join", q(in), UP(c)), lst(ne, e), "join puts the separator between the strings");
      freev(n, s); X(l, c);
      break;
    }
    case 1: { /* split */
      na = str(a, n, "c");
      atom_t c = sym_char(l, "separator");
      int open = 0;
      for (int i = 0; i < na; i++) {
        if (a[i]->number == c->number) { open = 0; continue; }
        if (open) { atom_t t = lisp_cons(l, UP(a[i]), mk_nil(l)); e[ne - 1] = lisp_conc(l, e[ne - 1], t); }
        else e[ne++] = mk_list(l, 1, UP(a[i]));
        open = 1;
      }
      expect(C2("split", q(lst(na, a)), UP(c)), lst(ne, e), "split yields the tokens between the separators");
      X(l, c);
      break;
    }
    case 2: case 3: case 4: { /* trim, triml, trimr */
      na = str(a, n, "c");
      int i = 0, j = na;
      if (f != 4) while (i < j && white(a[i])) i++;
      if (f != 3) while (i < j && white(a[j - 1])) j--;
      for (; i < j; i++) e[ne++] = UP(a[i]);
      expect(C1(f == 2 ? "trim" : f == 3 ? "triml" : "trimr", q(lst(na, a))), lst(ne, e), "white space is removed at the ends, and only there");
      break;
    }
    case 5: { /* strlt */
      na = str(a, n, "a"); nb = str(b, m, "b");
      int r = 0, i = 0;
      while (i < na && i < nb && a[i]->number == b[i]->number) i++;
      if (i < na && i < nb) r = a[i]->number < b[i]->number; else r = i < nb;
      truth(C2("strlt", q(lst(na, a)), q(lst(nb, b))), r, "strlt is the lexicographic order");
      break;
    }
    case 6: { /* ntoa: numbers of n digits */
      int neg = (int)msym_choice(2, "negative");
      int64_t v = 0;
      for (int i = 0; i < n; i++) {
        int64_t d; msym_make(&d, 8, "digit");
        msym_assume(d >= (i == 0 && n > 1 ? 1 : 0)); msym_assume(d <= 9);
        v = v * 10 + d;
        atom_t c = lisp_make_char(l, '0');
        c->number = '0' + d;
        e[ne++] = c;
      }
      if (neg) { if (n == 1) msym_assume(v > 0); v = -v; for (int i = ne; i > 0; i--) e[i] = e[i - 1]; e[0] = lisp_make_char(l, '-'); ne++; }
      expect(C1("ntoa", mk_num(l, v)), lst(ne, e), "ntoa writes the number in decimal");
      break;
    }
    case 7: { /* ntoa at the limits */
      int64_t v = msym_choice(2, "which") ? INT64_MAX : INT64_MIN;
      const char* t = v < 0 ? "-9223372036854775808" : "9223372036854775807";
      expect(C1("ntoa", mk_num(l, v)), mk_str(l, t, strlen(t)), "ntoa writes the number in decimal");
      break;
    }
    case 8: { /* aton */
      int64_t v = 0;
      na = str(a, n, "digit");
      for (int i = 0; i < n; i++) { msym_assume(a[i]->number >= '0'); msym_assume(a[i]->number <= '9'); v = v * 10 + (a[i]->number - '0'); }
      expect(C1("aton", q(lst(na, a))), mk_num(l, v), "aton reads a decimal number");
      break;
    }
    case 9: case 10: { /* term:left, term:right */
      na = str(a, n, "c");
      for (int i = 0; i < m; i++) {
        if (f == 9) e[ne++] = i < na ? UP(a[i]) : lisp_make_char(l, ' ');
        else e[ne++] = m - i <= na ? UP(a[na - (m - i)]) : lisp_make_char(l, ' ');
      }
      expect(C2(f == 9 ? "term:left" : "term:right", mk_num(l, m), q(lst(na, a))), lst(ne, e), "the text is padded or cut to the width");
      break;
    }
    case 11: { /* term:COLOUR */
      static const struct { const char* n; const char* c; } col[] = { { "normal", "0" }, { "bold", "1" }, { "italic", "3" }, { "underlined", "4" }, { "reversed", "7" }, { "striked", "9" },
        { "black", "0;30" }, { "red", "0;31" }, { "green", "0;32" }, { "orange", "0;33" }, { "blue", "0;34" }, { "purple", "0;35" }, { "cyan", "0;36" }, { "gray+", "0;37" }, { "gray-", "1;30" },
        { "red+", "1;31" }, { "green+", "1;32" }, { "yellow", "1;33" }, { "blue+", "1;34" }, { "purple+", "1;35" }, { "cyan+", "1;36" }, { "white", "1;37" } };
      na = str(a, n, "c");
      int k = (int)msym_choice(22, "style");
      char nm[32]; strcpy(nm, "term:"); strcat(nm, col[k].n);
      e[ne++] = lisp_make_char(l, 27); e[ne++] = lisp_make_char(l, '[');
      for (const char* p = col[k].c; *p; p++) e[ne++] = lisp_make_char(l, *p);
      e[ne++] = lisp_make_char(l, 'm');
      for (int i = 0; i < na; i++) e[ne++] = UP(a[i]);
      e[ne++] = lisp_make_char(l, 27);
      for (const char* p = "[0m"; *p; p++) e[ne++] = lisp_make_char(l, *p);
      expect(C1(nm, q(lst(na, a))), lst(ne, e), "the text is between the escape sequences of the style");
      break;
    }
    default: msym_fail("no such function");
  }
  freev(na, a); freev(nb, b); freev(ne, e);
}

/* scripts for the functions of lists, strings */
static const char* lscript[] = { "rev", "append", "append", "has", "filter", "flatten", "erase", "replc", "manips", "insert", "isort", "merge", "last", "manips", "manips", "truncr", "iter", "iter2", "orelse",
                                 "iterators", "iterators", "iterators", "iterators", "iterators", "manips" };
static const char* sscript[] = { "join", "split", "trim", "trim", "trim", "strlt", "ntoa", "ntoa", "aton", "term", "term", "term" };

/* each script brings along what its functions use: a function called by a program that loaded nothing else does what
 * it does in one that loaded everything; v is any number, c and d functions of the program */
static const struct { const char* script; const char* load; const char* text; } alone[] = {
  { "rev", "", "(rev '(1 2 3))" }, { "append", "", "(append '(1) '(2) '(3))" }, { "append", "", "($+ '(1) '(2))" }, { "has", "", "(has '(1 2) v)" }, /* 0 */
  { "filter", "", "(filter c '(1 NIL 2))" }, { "flatten", "", "(flatten '(1 (2 (3)) 4))" }, { "erase", "", "(erase v '((1 . 2) (3 . 4)))" }, { "replc", "", "(replc v 5 '((1 . 2) (3 . 4)))" }, /* 4 */
  { "manips", "", "(assoc v '((1 . 2) (3 . 4)))" }, { "manips", "", "(last '(1 2))" }, { "manips", "", "(rep 2 v)" }, { "manips", "", "(truncl 1 '(1 2))" }, /* 8 */
  { "manips", "", "(caar '((1)))" }, { "manips", "", "(cddr '(1 2 3))" }, { "manips", "", "(cadar '((1 2)))" }, { "manips", "", "(caddr '(1 2 3))" }, /* 12 */
  { "manips", "", "(cadddr '(1 2 3 4))" }, { "manips", "", "(cdar '((1 2)))" }, { "insert", "(load '(math <))", "(insert < v '(1 3))" }, { "isort", "(load '(math <))", "(isort < '(5 4 6))" }, /* 16 */
  { "merge", "(load '(std cons list))", "(merge list cons '(1) '(2))" }, { "dedup", "", "(dedup s '(1 2))" }, { "last", "", "(last '(1 2))" }, { "truncr", "", "(truncr 1 '(1 2))" }, /* 20 */
  { "iter", "", "(iter c '(1 2))" }, { "iter2", "", "(iter2 d '(1 2) '(3 4))" }, { "orelse", "", "(<|> NIL v)" }, { "iterators", "", "(foldl d 0 '(1 2))" }, /* 24 */
  { "iterators", "", "(foldr d '(1 2) 0)" }, { "iterators", "", "(map c '(1 2))" }, { "iterators", "", "(map2 d '(1 2) '(3 4))" }, { "iterators", "", "(zip '(1 2) '(3 4))" }, /* 28 */
  { "join", "", "(join '(\"a\" \"b\" \"c\") ^,)" }, { "split", "", "(split \"a,bc\" ^,)" }, { "trim", "", "(trim \" a \")" }, { "strlt", "", "(strlt \"ab\" \"ac\")" }, /* 32 */
  { "ntoa", "", "(ntoa -12)" }, { "aton", "", "(aton \"12\")" }, { "term", "", "(term:left 3 \"a\")" }, { "term", "", "(term:right 1 \"ab\")" }, /* 36 */
  { "term", "", "(term:red \"a\")" }, { "args", "", "(args:parse '((\"-a\" . k) (\"-b\" . c)))" }, { "http", "", "(http/header NIL \"a: b\")" }, { "cps", "", "(>& 'e)" }, /* 40 */
  { "cps", "", "(cps:infer 'e (>& 'e))" }, { "cps", "", "(cps:refcount (>& 'e))" }, { "test", "", "(assert:equal 1 c 1)" }, { "test", "", "(test:run \"suite\" (\"a\" . T))" }, /* 44 */
  { "test", "", "(test:slabdelta)" } /* 48 */
};
static void solo(int k) {
  set_global(l, "v", sym_num(l, "v"));
  set_global(l, "ARGV", k == 41 ? mk_list(l, 4, mk_str(l, "p", 1), mk_str(l, "-a", 2), mk_str(l, "-b", 2), mk_str(l, "x", 1)) : mk_list(l, 1, mk_str(l, "p", 1)));
  run_text(l, "(def c (x) x) (def d (x y) y) (def s (x y) '(SKIP)) (def k () 1) (def e (x) (cons x x))");
  run_text(l, alone[k].load);
  lib_load(l, alone[k].script);
  atom_t r = eval_text(l, alone[k].text);
  load_base(l);
  static const char* all[] = { "iterators", "manips", "rev", "has", "term", "split" };
  for (int i = 0; i < 6; i++) lib_load(l, all[i]);
  lib_load(l, alone[k].script);
  atom_t w = eval_text(l, alone[k].text);
  if (k == 48) CHECK(IS_NUMB(r) && IS_NUMB(w), "the count of atoms is a number");
  else CHECK(same_expr(r, w), "a script of the library loads what it uses");
  X(l, r, w);
}

/* long lists and strings: N elements, x free */
static int N; static int64_t x_;
static int64_t at(int i) { return i == N / 2 ? x_ : i * 37 % 101; }
static atom_t seq(int from, int to, int step) { atom_t r = mk_nil(l); for (int i = to - step; step > 0 ? i >= from : i <= from; i -= step) r = lisp_cons(l, mk_num(l, at(i)), r); return r; }
static atom_t val_of(const char* t) { return eval_text(l, t); }
static atom_t chars(int n, const char* every, int step) { /* n letters, the text every before each step-th but the first */
  atom_t r = mk_nil(l); size_t k = strlen(every);
  for (int i = n; i-- > 0;) { r = lisp_cons(l, lisp_make_char(l, 'a' + i % 26), r); if (step && i && i % step == 0) for (size_t j = k; j-- > 0;) r = lisp_cons(l, lisp_make_char(l, every[j]), r); }
  return r;
}
static void scale_lists(void) {
  static const char* ss[] = { "manips", "iterators", "rev", "append", "has", "filter", "flatten", "erase", "replc", "insert", "isort", "merge", "dedup", "truncr", "iter", "iter2" };
  for (int i = 0; i < 16; i++) lib_load(l, ss[i]);
  run_text(l, "(load '(math + <))");
  msym_make(&x_, 8, "x"); msym_assume(msym_and(x_ > 1000, x_ < 2000));
  set_global(l, "A", seq(0, N, 1)); set_global(l, "n", mk_num(l, N)); set_global(l, "x", mk_num(l, x_));
  atom_t r, p;
  expect(val_of("(rev A)"), seq(N - 1, -1, -1), "rev reverses the list");
  expect(val_of("(append A A)"), ({ r = seq(0, N, 1); lisp_conc(l, r, seq(0, N, 1)); }), "append concatenates its arguments");
  expect(val_of("($+ A A)"), ({ r = seq(0, N, 1); lisp_conc(l, r, seq(0, N, 1)); }), "$+ concatenates its arguments");
  truth(val_of("(has A x)"), 1, "has tells whether the value is in the list");
  truth(val_of("(has A 2001)"), 0, "has tells whether the value is in the list");
  expect(val_of("(filter (\\ (e) (< 1000 e)) A)"), ({ atom_t q_ = mk_nil(l); for (int i = N; i-- > 0;) if (i != N / 2) q_ = lisp_cons(l, mk_num(l, at(i)), q_); q_; }), "filter removes exactly the elements that match");
  expect(val_of("(flatten (map (\\ (e) (list e (list e))) A))"), ({ atom_t q_ = mk_nil(l); for (int i = N; i-- > 0;) q_ = lisp_cons(l, mk_num(l, at(i)), lisp_cons(l, mk_num(l, at(i)), q_)); q_; }), "flatten keeps the leaves in order");
  expect(val_of("(map (+ 1) A)"), ({ atom_t q_ = mk_nil(l); for (int i = N; i-- > 0;) q_ = lisp_cons(l, mk_num(l, at(i) + 1), q_); q_; }), "map applies its function to every element");
  expect(val_of("(map2 + A A)"), ({ atom_t q_ = mk_nil(l); for (int i = N; i-- > 0;) q_ = lisp_cons(l, mk_num(l, 2 * at(i)), q_); q_; }), "map2 applies its function to every pair");
  expect(val_of("(zip A (rev A))"), ({ atom_t q_ = mk_nil(l); for (int i = N; i-- > 0;) q_ = lisp_cons(l, lisp_cons(l, mk_num(l, at(i)), mk_num(l, at(N - 1 - i))), q_); q_; }), "zip pairs the elements");
  expect(val_of("(foldl (\\ (a e) (cons e a)) '(0) A)"), ({ atom_t q_ = mk_list(l, 1, mk_num(l, 0)); for (int i = 0; i < N; i++) q_ = lisp_cons(l, mk_num(l, at(i)), q_); q_; }), "foldl calls its function from the left");
  expect(val_of("(foldr (\\ (e a) (cons e a)) A '(0))"), ({ r = seq(0, N, 1); lisp_conc(l, r, mk_list(l, 1, mk_num(l, 0))); }), "foldr calls its function from the right");
  expect(val_of("(prog (setq H '(0)) (iter (\\ (e) (setq H (cons e H))) A) H)"), ({ atom_t q_ = mk_list(l, 1, mk_num(l, 0)); for (int i = 0; i < N; i++) q_ = lisp_cons(l, mk_num(l, at(i)), q_); q_; }), "iter calls its function once for each element, in order");
  expect(val_of("(last A)"), mk_num(l, at(N - 1)), "last yields the last element");
  expect(val_of("(rep n x)"), ({ atom_t q_ = mk_nil(l); for (int i = 0; i < N; i++) q_ = lisp_cons(l, mk_num(l, x_), q_); q_; }), "rep repeats its value");
  expect(val_of("(assoc x (map (\\ (e) (cons e 5)) A))"), mk_num(l, 5), "assoc yields the first value of the key");
  if (N <= 60) {
    p = val_of("(isort < A)"); /* the sorted list: the values of at() but x, in ascending order, then x */
    atom_t q_ = mk_list(l, 1, mk_num(l, x_));
    for (int v = 100; v >= 0; v--) for (int i = 0; i < N; i++) if (i != N / 2 && i * 37 % 101 == v) q_ = lisp_cons(l, mk_num(l, v), q_);
    expect(p, q_, "isort sorts");
  }
}
static void scale_strings(void) {
  static const char* ss[] = { "join", "split", "trim", "strlt", "ntoa", "aton", "term", "map" };
  for (int i = 0; i < 7; i++) lib_load(l, ss[i]);
  set_global(l, "A", chars(N, "", 0)); set_global(l, "n", mk_num(l, N)); set_global(l, "B", chars(N, ",", 5));
  atom_t q_ = mk_nil(l);
  for (int i = (N - 1) / 5; i >= 0; i--) { atom_t t = mk_nil(l); for (int j = i * 5 + 4; j >= i * 5; j--) if (j < N) t = lisp_cons(l, lisp_make_char(l, 'a' + j % 26), t); q_ = lisp_cons(l, t, q_); }
  set_global(l, "C", UP(q_));
  expect(val_of("(split B ^,)"), q_, "split yields the tokens between the separators");
  expect(val_of("(join C ^,)"), chars(N, ",", 5), "join puts the separator between the strings");
  q_ = chars(N, "", 0); for (int i = 0; i < N; i++) q_ = lisp_cons(l, lisp_make_char(l, ' '), q_);
  set_global(l, "D", q_);
  expect(val_of("(triml D)"), chars(N, "", 0), "triml removes white space at the beginning");
  expect(val_of("(trim D)"), chars(N, "", 0), "trim removes white space at the ends");
  set_global(l, "E", lisp_conc(l, chars(N, "", 0), mk_str(l, "  \t ", 4)));
  expect(val_of("(trimr E)"), chars(N, "", 0), "trimr removes white space at the end");
  truth(val_of("(strlt A E)"), 1, "strlt is the lexicographic order");
  truth(val_of("(strlt E A)"), 0, "strlt is the lexicographic order");
  q_ = mk_nil(l); for (int i = 0; i < N; i++) q_ = lisp_cons(l, lisp_make_char(l, ' '), q_);
  expect(val_of("(len (term:left (+ n 7) A))"), mk_num(l, N + 7), "padding gives exactly the width");
  expect(val_of("(term:left (- n 7) A)"), chars(N - 7, "", 0), "cutting gives exactly the width");
  expect(val_of("(len (term:right (+ n 7) A))"), mk_num(l, N + 7), "padding gives exactly the width");
  drop(l, q_);
}
void harness(void) {
  int g = A(0), f = A(1), n = A(2), m = A(3);
  l = g == 2 ? boot_share_bare() : boot_share();
  if (g == 2) { solo(f); goto end; }
  if (g == 3) { N = n; if (f) scale_strings(); else scale_lists(); goto end; }
  lib_load(l, g == 0 ? lscript[f] : sscript[f]);
  if (g == 0 && f == 11) { lib_load(l, "insert"); lib_load(l, "dedup"); }
  if (g == 0 && f == 12 && m) lib_load(l, "manips");
  set_global(l, "H", mk_num(l, 0));
  if (g == 0) lists(f, n, m); else strings(f, n, m);
end:
  io_down(l);
  shutdown_ctx(l, "the functions of the library release every atom");
  msym_reach("end");
}
