/* Sizes no other harness reaches: a counter, a buffer or a limit that is too small for many elements, arguments,
 * clauses, scopes, lines or names shows here. The values of some elements are free; the size is arg1.
 * arg0: what is many */
#include "ref.h"
#include <sys/select.h>
static lisp_t l;
static int N;
static V Q(V v) { return vcons(S("quote"), v); }
static V app(V a, V b) { return a->k == PAIR_ ? vcons(a->a, app(a->b, b)) : b; }
static void expect(V e, V want, const char* what) {
  atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, e));
  well_formed(r);
  CHECK(agrees(r, want), what);
  X(l, r, nil);
}
static void define(const char* s, V v) { set_global(l, s, to_atom(l, v)); }
static V run_v(V e) { atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, e)); well_formed(r); X(l, r, nil); return NIL0; }
/* element i of a long list: mostly its index, free at a few places */
static int plain;
static int spot(int i) { return !plain && (i == 0 || i == N / 2 || i == N - 1); }
static V elt(int i) { return spot(i) ? vanynum("element") : vnum(i); }
static V many(int n) { V r = NIL0; V* e = malloc(sizeof(V) * (n + 1)); for (int i = 0; i < n; i++) e[i] = elt(i); for (int i = n; i-- > 0;) r = vcons(e[i], r); return r; }
static V rev(V a) { V r = NIL0; for (; a->k == PAIR_; a = a->b) r = vcons(a->a, r); return r; }
static V nth(V a, int i) { while (i--) a = a->b; return a->a; }
static V name(char c, int i) { char* b = malloc(8); int n = 0; b[n++] = c; b[n++] = (char)('a' + i / 100 % 10); b[n++] = (char)('a' + i / 10 % 10); b[n++] = (char)('a' + i % 10); b[n] = 0; return S(b); }
static V names(char c, int from, int to) { V r = NIL0; for (int i = to; i-- > from;) r = vcons(name(c, i), r); return r; }
static V part(V a, int from, int to) { while (from-- > 0) { a = a->b; to--; } V* e = malloc(sizeof(V) * (to + 1)); int n = 0; for (; n < to; a = a->b) e[n++] = a->a; return vlist_(n, e); }

static void lists(void) {
  V a = many(N), b = many(N);
  define("A", a); define("B", b);
  expect(L(S("len"), S("A")), vnum(N), "len counts every element");
  expect(L(S("conc"), Q(a), S("B")), app(a, b), "conc is the elements of the first list, then the second");
  expect(L(S("len"), L(S("conc"), Q(a), S("B"))), vnum(2 * N), "len counts every element");
  expect(vcons(S("list"), a), a, "list is the list of the values of its arguments");
  expect(L(S("cdr"), S("A")), a->b, "cdr is the tail of a list");
  expect(L(S("cons"), S("A"), S("B")), vcons(a, b), "cons pairs two values");
  V s = NIL0; for (int i = N; i-- > 0;) s = vcons(vchr('a' + i % 26), s);
  expect(L(S("len"), Q(s)), vnum(N), "len counts every character");
  expect(S("A"), a, "reading a list does not change it");
}
static void equality(void) {
  V a = many(N), b = part(a, 0, N), c = part(a, 0, N);
  int i = msym_choice(3, "place"); i = i == 0 ? 0 : i == 1 ? N / 2 : N - 1;
  V p = c; for (int k = 0; k < i; k++) p = p->b;
  V f = p->a; p->a = vanynum("other");
  int e = msym_decide(p->a->n == f->n);
  V same = TRUE0, not = NIL0;
  expect(L(S("="), Q(a), Q(b)), same, "long lists of the same elements are equal");
  expect(L(S("="), Q(a), Q(c)), e ? same : not, "long lists are equal exactly when every element is");
  expect(L(S("<>"), Q(a), Q(c)), e ? not : same, "inequality is the negation of equality");
  expect(L(S("="), Q(a), Q(part(a, 0, N - 1))), not, "lists of different lengths differ");
  expect(L(S("="), Q(part(a, 0, N - 1)), Q(a)), not, "lists of different lengths differ");
  V d = a->a, g = a->a, h = p->a; for (int k = 0; k < N; k++) { d = L(d); g = L(g); h = L(h); }
  expect(L(S("="), Q(d), Q(g)), same, "deep lists of the same elements are equal");
  if (i == 0) expect(L(S("="), Q(d), Q(h)), e ? same : not, "deep lists are equal exactly when every element is");
}
static void params(void) { /* N parameters: one call, calls in groups, too many, a rest */
  V a = many(N), body = names('p', 0, N);
  run_v(L(S("def"), S("f"), body, vcons(S("list"), body)));
  expect(vcons(S("f"), a), a, "every parameter has its argument");
  expect(app(vcons(S("f"), a), L(vnum(1))), NIL0, "a call with more arguments than parameters is NIL");
  int k = 1 + msym_choice(3, "first group") * (N / 3);
  expect(vcons(vcons(S("f"), part(a, 0, k)), part(a, k, N)), a, "arguments handed over in two groups are the arguments of one call");
  V e = S("f"); for (int i = 0; i < N; i++) e = L(e, nth(a, i));
  expect(e, a, "arguments handed over one by one are the arguments of one call");
  /* an intermediate function, used twice */
  run_v(L(S("setq"), S("g"), vcons(S("f"), part(a, 0, k))));
  expect(vcons(S("g"), part(a, k, N)), a, "an intermediate function has the arguments given");
  expect(vcons(S("g"), rev(part(a, k, N))), app(part(a, 0, k), rev(part(a, k, N))), "completing an intermediate function does not change it");
  /* one list parameter with N names, then the rest */
  V pat = L(body); pat->b = S("rest");
  run_v(L(S("def"), S("h"), pat, L(S("cons"), S("rest"), vcons(S("list"), body))));
  expect(L(S("h"), Q(a), S("u"), vnum(2)), vcons(L(S("u"), vnum(2)), a), "a pattern of many names has every part");
  expect(L(S("h"), Q(part(a, 0, N - 2))), vcons(NIL0, app(part(a, 0, N - 2), L(NIL0, NIL0))), "missing parts are NIL");
}
static void scopes(void) {
  V x = vanynum("x"), y = vanynum("y");
  /* let in let: the innermost sees every one */
  V e = vcons(S("list"), names('v', 0, N));
  for (int i = N; i-- > 0;) e = L(S("let"), L(vcons(name('v', i), i == 0 ? x : i == N - 1 ? y : L(S("+"), name('v', i - 1), vnum(0)))), e);
  V* w = malloc(sizeof(V) * N); for (int i = 0; i < N; i++) w[i] = i == N - 1 ? y : x;
  expect(e, vlist_(N, w), "a name means its innermost binding, however many there are");
  /* many bindings of one let, each in sight of those before */
  V b = NIL0; for (int i = N; i-- > 0;) b = vcons(vcons(name('v', i), i == 0 ? x : i == N - 1 ? y : L(S("+"), name('v', i - 1), vnum(0))), b);
  expect(L(S("let"), b, vcons(S("list"), names('v', 0, N))), vlist_(N, w), "a let sees the bindings before it");
  /* shadowing, undone on the way out */
  e = S("v"); for (int i = 0; i < N; i++) e = L(S("list"), L(S("let"), L(vcons(S("v"), vnum(i))), i == 0 ? S("v") : e), S("v"));
  define("v", x);
  V r = vnum(0); for (int i = 0; i < N; i++) r = L(i == 0 ? vnum(0) : r, i == N - 1 ? x : vnum(i + 1));
  expect(e, r, "leaving a scope brings the binding back");
  /* a function called from depth N, and a chain of N functions */
  run_v(L(S("def"), S("r"), L(S("n"), S("s")), L(S("if"), L(S("="), S("n"), vnum(0)), L(S("list"), S("s")), L(S("cons"), S("n"), L(S("r"), L(S("-"), S("n"), vnum(1)), S("s"))))));
  r = L(x); for (int i = 1; i <= N; i++) r = vcons(vnum(i), r);
  expect(L(S("r"), vnum(N), x), r, "every level of a recursion has its own binding");
  for (int i = 0; i < N; i++) run_v(L(S("def"), name('f', i), L(S("x")), i == 0 ? L(S("+"), S("x"), S("v")) : L(S("+"), L(name('f', i - 1), S("x")), vnum(1))));
  expect(L(name('f', N - 1), y), vnum(x->n + y->n + N - 1), "functions call one another through any number of names");
  /* the globals they are bound to */
  for (int i = 0; i < N; i++) run_v(L(S("setq"), name('g', i), i == N / 2 ? y : vnum(i)));
  for (int i = 0; i < N; i++) expect(name('g', i), i == N / 2 ? y : vnum(i), "every global has its value");
}
static void control(void) {
  V x = vanynum("x"), T = L(S("setq"), S("trace"), L(S("+"), S("trace"), vnum(1)));
  define("trace", vnum(0));
  V b = NIL0, e; for (int i = 0; i < N; i++) b = vcons(T, b);
  expect(app(vcons(S("prog"), b), L(x)), x, "a sequence yields its last value");
  expect(S("trace"), vnum(N), "a sequence evaluates everything once");
  expect(app(L(S("when"), TRUE0), app(b, L(x))), x, "when yields its last value");
  expect(S("trace"), vnum(2 * N), "when evaluates everything once");
  expect(app(L(S("unless"), NIL0), app(b, L(x))), x, "unless yields its last value");
  expect(S("trace"), vnum(3 * N), "unless evaluates everything once");
  define("trace", vnum(0));
  e = x; { V s = NIL0; for (int i = 0; i < N; i++) s = vcons(L(S("+"), vnum(1)), s); e = vcons(S("|>"), vcons(x, s)); }
  expect(e, vnum(x->n + N), "a stream hands its value through every stage");
  e = NIL0; for (int i = N; i-- > 0;) e = vcons(vcons(L(S("="), vnum(i)), i == N - 1 ? L(S("prog"), T, x) : L(S("prog"), T, vnum(i))), e);
  expect(vcons(S("cond"), vcons(vnum(N - 1), e)), x, "cond takes the first clause that applies, wherever it is");
  expect(S("trace"), vnum(1), "only the clause that applies is evaluated");
  e = NIL0; for (int i = N; i-- > 0;) e = vcons(vcons(vnum(i), i == N - 1 ? L(S("prog"), T, x) : L(S("prog"), T, vnum(i))), e);
  expect(vcons(S("match"), vcons(vnum(N - 1), e)), x, "match takes the first clause that applies, wherever it is");
  expect(S("trace"), vnum(2), "only the clause that applies is evaluated");
  expect(L(S("while"), L(S("<"), S("trace"), vnum(N)), T), vnum(N), "a loop yields its last value");
  expect(S("trace"), vnum(N), "a loop runs as often as its condition says");
}
static atom_t text_value(const char* s, size_t n) { atom_t all = parse_all(l, s, n); well_formed(all); return all; }
static void text(void) { /* print and read back: long, deep, strings */
  char* b = malloc(16384); size_t n = 0;
  int kind = (int)msym_arg(2);
  char c[3]; for (int i = 0; i < 3; i++) { msym_make(&c[i], 1, "char"); msym_assume(msym_and(c[i] >= 'a', c[i] <= 'z')); }
  int k = 0;
#define CH(i) ((i) == 0 || (i) == N / 2 || (i) == N - 1 ? c[k++] : (char)('a' + (i) % 26))
  if (kind == 0) { b[n++] = '('; for (int i = 0; i < N; i++) { if (i) b[n++] = ' '; b[n++] = CH(i); } b[n++] = ')'; }
  if (kind == 1) { b[n++] = '"'; for (int i = 0; i < N; i++) b[n++] = CH(i); b[n++] = '"'; }
  if (kind == 2) { for (int i = 0; i < N; i++) b[n++] = '('; b[n++] = c[0]; for (int i = 0; i < N; i++) b[n++] = ')'; }
  if (kind == 3) { for (int i = 0; i < N; i++) { memcpy(b + n, "(x . ", 5); n += 5; } b[n++] = c[0]; for (int i = 0; i < N; i++) b[n++] = ')'; }
  if (kind == 5) for (int i = 0; i < N; i++) { if (i) b[n++] = ' '; b[n++] = CH(i); }
  atom_t all = text_value(b, n), p = all;
  k = 0;
  if (kind == 1) { for (int i = 0; i < N; i++) { char e = CH(i); CHECK(i > 0 || p->type == T_PAIR, "the text is one value"); if (i == 0) p = CAR(p); CHECK(p->type == T_PAIR && CAR(p)->type == T_CHAR && CAR(p)->number == e, "a string has every character"); p = CDR(p); } CHECK(p->type == T_NIL, "a string has no other character"); }
  else if (kind == 0 || kind == 5) {
    if (kind == 0) p = CAR(p);
    for (int i = 0; i < N; i++) { char e = CH(i); int is = p->type == T_PAIR && CAR(p)->type == T_SYMBOL; CHECK(is, "a list has every element"); if (!is) break; CHECK(msym_and(CAR(p)->symbol.val[0] == e, CAR(p)->symbol.val[1] == 0), "a list has every element"); p = CDR(p); }
    CHECK(p->type == T_NIL, "a list has no other element");
  } else {
    int d = 0; p = CAR(p);
    for (; d < N && p->type == T_PAIR; d++) p = kind == 2 ? CAR(p) : CDR(p);
    CHECK(d == N && p->type == T_SYMBOL && p->symbol.val[0] == c[0], "nesting of any depth is read");
  }
  /* what print writes is the same text, and reads as the same value */
  if (all->type == T_PAIR && kind != 5) {
    set_global(l, "V", UP(CAR(all)));
    atom_t r = eval_text(l, "(out \"/o\" (print V))");
    X(l, r);
    int f = env_find("/o");
    CHECK(f >= 0, "print writes the value");
    if (f >= 0) {
      atom_t back = text_value(env_node[f].data, env_node[f].len);
      CHECK(same_expr(back, all), "what print writes reads back as the same value");
      X(l, back);
    }
    run_text(l, "(setq V 0)");
  }
  X(l, all);
  free(b);
}
static void primitives(void) { /* every function with many arguments: safe, nothing kept */
  static const char* fn[] = { "car", "cdr", "chr", "cond", "conc", "cons", "def", "eval", "if", "\\", "len", "let", "list", "load", "match", "prog", "quote", "setq", "<-", "|>", "str", "sym", "unless", "when", "while",
    "and", "not", "or", "=", "<>", "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "nil?", "num?", "sym?", "chr?", "lst?", "str?", "tru?", "prin", "prinl", "print", "printl", "in", "out", "read", "readline",
    "close", "dup", "wait", "listen", "accept", "connect", "unlink", "select", "pipe", "time" };
  int f = (int)msym_arg(2);
  plain = 1;
  V a = many(N);
  for (unsigned i = (unsigned)f; i < sizeof fn / sizeof *fn; i += 4) {
    if (strcmp(fn[i], "while") == 0 || strcmp(fn[i], "close") == 0 || strcmp(fn[i], "dup") == 0) continue;
    run_v(vcons(S(fn[i]), a));
  }
}

/* a table of N names, added in one of four orders, every third (or all but every third) taken out again */
static atom_t prev; static int visited, ordered;
static bool visit(const atom_t k, const atom_t v) {
  (void)v;
  if (prev && memcmp(prev->symbol.val, k->symbol.val, 16) >= 0) ordered = 0;
  prev = k; visited++;
  return false;
}
static int depth(atom_t n) { if (IS_NULL(n)) return 0; int a = depth(LEFT(n)), b = depth(RIGHT(n)); return 1 + (a > b ? a : b); }
static void key(union symbol* k, int i) { memset(k, 0, sizeof *k); memcpy(k->val, "name", 4); for (int j = 0; j < 4; j++) { k->val[7 - j] = (char)('0' + i % 10); i /= 10; } }
static int place(int order, int i) { return order == 0 ? i : order == 1 ? N - 1 - i : order == 2 ? i * 37 % N : (i & 1 ? N - 1 - i / 2 : i / 2); }
static void table(void) {
  int order = (int)msym_arg(2), rem = (int)msym_arg(3);
  atom_t root = mk_nil(l); union symbol k; int left = 0, most = 2;
  int64_t* v = malloc(8 * N); char* in = malloc(N);
  while ((1 << (most / 2)) < N + 1) most++;
  for (int i = 0; i < N; i++) { if (spot(i)) msym_make(&v[i], 8, "value"); else v[i] = i; in[i] = 0; }
  for (int i = 0; i < N; i++) { int n = place(order, i); key(&k, n); root = lisp_tree_add(l, root, lisp_cons(l, lisp_make_symbol(l, &k), lisp_make_number(l, v[n]))); in[n] = 1; }
  CHECK(depth(root) <= most, "the table stays balanced");
  for (int i = 0; i < N; i++) {
    int n = place((order + 1 + rem) % 4, i);
    if (rem == 0 || (rem == 1 ? n % 3 != 0 : n % 3 == 0)) continue;
    key(&k, n);
    atom_t next = lisp_tree_rem(l, root, &k); /* taken from the table in place: its root may change */
    root = next; in[n] = 0;
  }
  for (int i = 0; i < N; i++) {
    key(&k, i);
    atom_t r = lisp_tree_get(l, root, &k);
    if (in[i]) { left++; CHECK(r->type == T_PAIR && CDR(r)->type == T_NUMBER && CDR(r)->number == v[i], "a stored name keeps its value"); }
    else CHECK(r->type == T_NIL, "lookup of an absent name finds nothing");
    X(l, r);
  }
  ordered = 1;
  atom_t d = lisp_tree_dfs(l, root, visit);
  CHECK(visited == left && ordered, "a traversal visits every name once, in order");
  CHECK(depth(root) <= most, "the table stays balanced");
  X(l, d, root);
}
static V str(const char* s) { V r = NIL0; for (size_t i = strlen(s); i-- > 0;) r = vcons(vchr(s[i]), r); return r; }
static char* put(char* p, const char* s) { while (*s) *p++ = *s++; return p; }
static char* putn(char* p, int n) { if (n > 9) p = putn(p, n / 10); *p++ = (char)('0' + n % 10); return p; }
static int file_is(const char* path, const char* t, size_t n) {
  int f = env_find(path);
  if (f < 0 || env_node[f].len != n) return 0;
  int ok = 1;
  for (size_t i = 0; i < n; i++) ok = msym_and(ok, env_node[f].data[i] == t[i]);
  return ok;
}
static V file(char c, int i) { char b[16]; *putn(put(b, "/cwd/f"), i) = 0; b[5] = c; return str(b); }
static void channels(void) { /* N forms within each other: each file has its own text, in order */
  int before = env_fds_open();
  char c; msym_make(&c, 1, "char");
  V e = NIL0;
  for (int i = N; i-- > 0;) e = L(S("out"), Q(file('f', i)), L(S("prin"), vnum(i)), i == N - 1 ? L(S("prin"), vchr(c)) : e, L(S("prin"), i == 0 ? vchr(c) : vnum(7)));
  run_v(e);
  for (int i = 0; i < N; i++) {
    char t[16], b[16]; *putn(put(b, "/cwd/f"), i) = 0;
    char* z = putn(t, i);
    if (i == N - 1) *z++ = c;
    if (i == 0) *z++ = c; else *z++ = '7';
    CHECK(file_is(b, t, (size_t)(z - t)), "every file has the text written to it, in order");
  }
  CHECK(env_fds_open() == before, "no descriptor stays open");
  for (int i = 0; i < N; i++) { char t[32], b[16]; *putn(put(b, "/cwd/g"), i) = 0; char* z = putn(t, i); z = put(z, " x\n"); z = putn(z, N + i); *z++ = '\n'; env_mkfile(b, t, (size_t)(z - t)); }
  e = NIL0; V w = NIL0;
  for (int i = N; i-- > 0;) { e = L(S("in"), Q(file('g', i)), L(S("list"), L(S("read")), i == N - 1 ? NIL0 : e, L(S("read")), L(S("read")))); w = L(vnum(i), i == N - 1 ? NIL0 : w, S("x"), vnum(N + i)); }
  expect(e, w, "every file is read on where its reading stopped");
  CHECK(env_fds_open() == before, "no descriptor stays open");
}
static void printing(void) { /* N values with one call */
  V a = NIL0; char* t = malloc(16 * N), *z = t; char c[3]; int k = 0;
  for (int i = 0; i < 3; i++) { msym_make(&c[i], 1, "char"); msym_assume(msym_and(c[i] >= 'a', c[i] <= 'z')); }
  static const char* fn[] = { "print", "printl", "prin", "prinl" };
  int f = msym_choice(4, "function");
  V* e = malloc(sizeof(V) * N);
  for (int i = 0; i < N; i++) {
    if (i && f < 2) *z++ = ' ';
    if (spot(i)) { if (f < 2) *z++ = '^'; *z++ = c[k]; e[i] = vchr(c[k++]); } else { z = putn(z, i); e[i] = vnum(i); }
  }
  if (f & 1) *z++ = '\n';
  a = vlist_(N, e);
  run_v(L(S("out"), Q(str("/cwd/o")), vcons(S(fn[f]), a)));
  CHECK(file_is("/cwd/o", t, (size_t)(z - t)), "every value is printed once, in order");
}
static void lines(void) { /* N lines, N expressions */
  char* t = malloc(32 * N + 64), *z = t; char c[3]; int k = 0;
  for (int i = 0; i < 3; i++) { msym_make(&c[i], 1, "char"); msym_assume(msym_and(c[i] >= 'a', c[i] <= 'z')); }
  V* e = malloc(sizeof(V) * N); V* x = malloc(sizeof(V) * N);
  for (int i = 0; i < N; i++) {
    char d[16]; char* y = d;
    if (spot(i)) { y = put(y, "^"); *y++ = c[k]; x[i] = vchr(c[k++]); } else { y = putn(y, i); x[i] = vnum(i); }
    e[i] = NIL0; for (char* q = y; q-- > d;) e[i] = vcons(vchr(*q), e[i]);
    for (char* q = d; q < y; q++) *z++ = *q;
    *z++ = '\n';
  }
  env_mkfile("/cwd/t", t, (size_t)(z - t));
  V lr = NIL0, rr = NIL0;
  for (int i = 0; i < N; i++) { lr = vcons(L(S("readline")), lr); rr = vcons(L(S("read")), rr); }
  expect(L(S("in"), Q(str("/cwd/t")), vcons(S("list"), lr)), vlist_(N, e), "readline yields every line, in order");
  expect(L(S("in"), Q(str("/cwd/t")), vcons(S("list"), rr)), vlist_(N, x), "read yields every expression, in order");
  for (char* q = t; q < z; q++) if (*q == '\n') *q = ' ';
  z[-1] = '\n';
  env_mkfile("/cwd/u", t, (size_t)(z - t));
  expect(L(S("in"), Q(str("/cwd/u")), vcons(S("list"), rr)), vlist_(N, x), "read yields every expression of a line, in order");
  /* a script of as many expressions, and scripts that load one another */
  z = t; for (int i = 0; i < N; i++) { z = put(z, "(setq n (+ n "); z = putn(z, 1); z = put(z, "))"); *z++ = i % 3 ? '\n' : ' '; }
  env_mkfile("/cwd/s.l", t, (size_t)(z - t));
  V v = vanynum("n"); define("n", v);
  expect(L(S("load"), Q(str("/cwd/s.l"))), vnum(v->n + N), "a script is evaluated to its end");
  expect(S("n"), vnum(v->n + N), "a script is evaluated once");
  int before = env_fds_open(), d = N < 50 ? N : 50;
  for (int i = 0; i < d; i++) {
    char b[24], u[64]; z = putn(put(b, "/cwd/l"), i); z = put(z, ".l"); *z = 0;
    z = put(u, "(setq n (+ n 1))"); if (i + 1 < d) { z = put(z, "(load \"l"); z = putn(z, i + 1); z = put(z, ".l\")"); } z = put(z, " (+ n 1)\n");
    env_mkfile(b, u, (size_t)(z - u));
  }
  expect(L(S("load"), Q(str("/cwd/l0.l"))), vnum(v->n + N + d + 1), "scripts load scripts to any depth");
  expect(S("n"), vnum(v->n + N + d), "every script is evaluated once");
  CHECK(env_fds_open() == before, "the streams of the scripts are closed");
}
static void symbols(void) {
  char c[20]; V a = NIL0, w = NIL0;
  for (int i = 0; i < 20; i++) if (i > 12 && i < 18) { msym_make(&c[i], 1, "char"); msym_assume(msym_and(c[i] >= 'a', c[i] <= 'z')); } else c[i] = (char)('a' + i);
  for (int i = N; i-- > 0;) { a = vcons(vchr(i < 20 ? c[i] : 'x'), a); if (i < 16) w = vcons(vchr(c[i]), w); }
  define("A", a);
  expect(L(S("str"), L(S("sym"), S("A"))), w, "a symbol has the first 16 characters of its string");
  expect(S("A"), a, "making a symbol leaves the string as it was");
}
static long sys_fd[1100]; static int n_sys, n_ready;
static int sys_hook(const char* nm, long a0, long a1, long a2, long* ret) {
  if (!strcmp(nm, "close")) { sys_fd[n_sys++] = a0; *ret = 0; return 1; }
  if (!strcmp(nm, "select")) {
    fd_set *r = (fd_set*)a1, *e = (fd_set*)a2;
    CHECK(a0 > 3 * (N - 1), "select covers every descriptor");
    for (int f = 0; f < FD_SETSIZE; f++) { int w = f % 3 == 0 && f / 3 < N; CHECK(FD_ISSET(f, r) == w && FD_ISSET(f, e) == w, "select watches exactly the descriptors of its list"); }
    FD_ZERO(e);
    for (int i = 0; i < N; i++) if (!spot(i)) FD_CLR(3 * i, r); else n_ready++;
    *ret = 3;
    return 1;
  }
  return 0;
}
static void descriptors(void) {
  V* e = malloc(sizeof(V) * N); for (int i = 0; i < N; i++) e[i] = vnum(3 * i);
  V a = vlist_(N, e);
  run_text(l, "(def cb (fd) (prog (setq seen (cons fd seen)) T))(setq seen '(0))");
  env_hook = sys_hook;
  expect(L(S("select"), Q(a), S("cb"), NIL0), L(a, a), "select keeps the descriptors its callback keeps");
  V w = L(vnum(0)); for (int i = 0; i < N; i++) if (spot(i)) w = vcons(vnum(3 * i), w);
  expect(S("seen"), w, "select runs the callback once for each ready descriptor, in order");
  expect(vcons(S("close"), a), TRUE0, "close yields T when everything was closed");
  env_hook = 0;
  CHECK(n_sys == N, "close closes every descriptor");
  for (int i = 0; i < n_sys && i < N; i++) CHECK(sys_fd[i] == 3 * i, "close closes the descriptors in order");
}
void harness(void) {
  int mode = (int)msym_arg(0); N = (int)msym_arg(1);
  l = boot(M_BASE | M_IO | (mode == 6 || mode == 11 ? M_UNIX | M_SYS : 0));
  boot_io(l);
  switch (mode) {
    case 0: lists(); break;
    case 1: equality(); break;
    case 2: params(); break;
    case 3: scopes(); break;
    case 4: control(); break;
    case 5: text(); break;
    case 7: table(); break;
    case 8: channels(); break;
    case 9: printing(); break;
    case 10: lines(); break;
    case 11: descriptors(); break;
    case 12: symbols(); break;
    default: primitives();
  }
  io_down(l);
  shutdown_ctx(l, "nothing is kept, however much there is");
  msym_reach("end");
}
