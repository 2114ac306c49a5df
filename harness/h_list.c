/* C14/C15: list primitives on any lists, and conversions between symbols, strings and characters. arg0: mode */
#include "ref.h"
static V val(int d) {
  switch (msym_choice(d > 0 ? 6 : 5, "value")) {
    case 0: return NIL0;
    case 1: return TRUE0;
    case 2: return vanynum("n");
    case 3: { char c; msym_make(&c, 1, "c"); return vchr(c); }
    case 4: return S("zz");
    default: { V a = val(d - 1), b = val(d - 1); return vcons(a, b); }
  }
}
static V items(int n, V tail) { V r = tail; for (int i = 0; i < n; i++) r = vcons(val(0), r); return r; }
static V Q(V v) { return vcons(S("quote"), v); }
static V vapp(V a, V b) { return a->k == PAIR_ ? vcons(a->a, vapp(a->b, b)) : b; }
static void expect(lisp_t l, V e, V want, const char* what) {
  atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, e));
  well_formed(r);
  CHECK(agrees(r, want), what);
  X(l, r, nil);
}
static void define(lisp_t l, const char* s, V v) { set_global(l, s, to_atom(l, v)); }
static V vstr(const char* s, int n) { V r = NIL0; for (int i = n; i > 0; i--) r = vcons(vchr(s[i - 1]), r); return r; }
void harness(void) {
  int mode = (int)msym_arg(0), n = (int)msym_arg(1), m = (int)msym_arg(2);
  lisp_t l = boot(M_BASE);
  if (mode == 0) { /* car, cdr, cons, len: any value; arguments are left as they were */
    V v = val(2), w = val(0);
    define(l, "A", v); define(l, "B", w);
    expect(l, L(S("car"), S("A")), vcar(v), "car is the head of a list, NIL of anything else");
    expect(l, L(S("cdr"), S("A")), vcdr(v), "cdr is the tail of a list, NIL of anything else");
    expect(l, L(S("cons"), S("A"), S("B")), vcons(v, w), "cons pairs two values");
    expect(l, L(S("cons"), S("B"), S("A")), vcons(w, v), "cons pairs two values");
    int64_t len = 0; for (V p = v; p->k == PAIR_; p = p->b) len++;
    expect(l, L(S("len"), S("A")), v->k == PAIR_ || v->k == NIL_ ? vnum(len) : NIL0, "len is the number of elements");
    expect(l, S("A"), v, "reading a list does not change it");
    expect(l, S("B"), w, "reading a list does not change it");
  } else if (mode == 1) { /* list */
    V r = NIL0, e = NIL0; V x[6];
    for (int i = 0; i < n; i++) x[i] = val(1);
    for (int i = n; i > 0; i--) { r = vcons(x[i - 1], r); e = vcons(x[i - 1]->k == PAIR_ || x[i - 1]->k == SYM_ ? Q(x[i - 1]) : x[i - 1], e); }
    expect(l, vcons(S("list"), e), r, "list is the list of the values of its arguments");
    expect(l, L(S("len"), vcons(S("list"), e)), vnum(n), "len counts every element");
    /* the list is made anew each time: extending it changes neither the program nor a later list */
    expect(l, L(S("def"), S("f"), NIL0, vcons(S("list"), e)), S("f"), "def is the name");
    expect(l, L(S("conc"), L(S("f")), L(S("list"), vnum(9))), vapp(r, vcons(vnum(9), NIL0)), "conc is the elements of the first list, then the second");
    expect(l, L(S("f")), r, "every evaluation of list makes a new list");
    expect(l, L(S("def"), S("f"), NIL0, L(S("cons"), vnum(3), NIL0)), S("f"), "def is the name");
    expect(l, L(S("conc"), L(S("f")), L(S("list"), vnum(9))), L(vnum(3), vnum(9)), "conc is the elements of the first list, then the second");
    expect(l, L(S("f")), L(vnum(3)), "every evaluation of cons makes a new pair");
  } else if (mode == 2) { /* conc of a list of n elements and a list of m, or of anything */
    V a = items(n, NIL0), b = m < 0 ? val(1) : items(m, NIL0);
    expect(l, L(S("conc"), Q(a), Q(b)), vapp(a, b), "conc is the elements of the first list, then the second");
    define(l, "B", b);
    expect(l, L(S("conc"), Q(a), S("B")), vapp(a, b), "conc is the elements of the first list, then the second");
    expect(l, S("B"), b, "conc leaves its second argument as it was");
    expect(l, L(S("len"), L(S("conc"), Q(a), S("B"))), b->k == PAIR_ || b->k == NIL_ ? vnum(n + (b->k == PAIR_ ? (m < 0 ? 1 + (b->b->k == PAIR_) : m) : 0)) : a->k == PAIR_ ? vnum(n) : NIL0, "len after conc");
    define(l, "D", vapp(a, NIL0));
    expect(l, L(S("prog"), L(S("conc"), S("D"), S("B")), S("D")), n ? vapp(a, b) : a, "conc extends its first argument in place");
    run_text(l, "(setq D 0)");
  } else if (mode == 3) { /* conc of a non-list */
    V v = val(0); if (v->k == NIL_) msym_discard();
    expect(l, L(S("conc"), Q(v), Q(val(1))), NIL0, "conc of something that is not a list is NIL");
  } else if (mode == 7) { /* conc of a dotted list of n elements: its last cell is extended all the same */
    V t = val(0); if (t->k == NIL_) msym_discard();
    V a = items(n, t), b = m < 0 ? val(0) : items(m, NIL0);
    expect(l, L(S("conc"), Q(a), Q(b)), vapp(a, b), "conc is the elements of the first list, then the second");
    define(l, "B", b);
    define(l, "D", vapp(a, t));
    expect(l, L(S("prog"), L(S("conc"), S("D"), S("B")), S("D")), vapp(a, b), "conc extends its first argument in place");
    expect(l, S("B"), b, "conc leaves its second argument as it was");
    run_text(l, "(setq D 0)");
  } else if (mode == 4) { /* sym, str: a string of n free characters (no NUL) */
    char b[32];
    for (int i = 0; i < n; i++) { msym_make(&b[i], 1, "char"); msym_assume(b[i] != 0); }
    int k = n < 16 ? n : 16;
    define(l, "A", vstr(b, n));
    atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, L(S("sym"), S("A"))));
    if (n == 0) CHECK(r->type == T_NIL, "sym of the empty string is NIL");
    else {
      char w[16] = { 0 }; memcpy(w, b, k);
      CHECK(r->type == T_SYMBOL && memcmp(r->symbol.val, w, 16) == 0, "sym is the symbol with the characters of the string, at most 16");
      expect(l, L(S("str"), L(S("sym"), S("A"))), vstr(b, k), "str is the string of the characters of the symbol");
    }
    X(l, r, nil);
    expect(l, S("A"), vstr(b, n), "sym leaves its argument as it was");
  } else if (mode == 5) { /* str of a symbol, chr of a number; symbols that differ are different symbols */
    V v = vanynum("n");
    expect(l, L(S("chr"), v), vchr((char)v->n), "chr is the character with the code");
    V bad = val(1);
    int str = bad->k == PAIR_; { V p = bad; while (p->k == PAIR_ && p->a->k == CHR_) p = p->b; if (p->k != NIL_) str = 0; }
    if (!str) expect(l, L(S("sym"), Q(bad)), NIL0, "sym of something that is not a string is NIL");
    if (bad->k != SYM_) expect(l, L(S("str"), Q(bad)), NIL0, "str of something that is not a symbol is NIL");
    if (bad->k != NUM_ && bad->k != CHR_) expect(l, L(S("chr"), Q(bad)), NIL0, "chr of something that is not a code is NIL");
    else if (bad->k == CHR_) expect(l, L(S("chr"), Q(bad)), bad, "chr of a character is the character");
  } else { /* symbols of up to 16 characters keep all of them: two that differ anywhere name different variables */
    char a[17] = { 0 }, b[17] = { 0 };
    for (int i = 0; i < n; i++) { msym_make(&a[i], 1, "a"); msym_assume(a[i] != 0); }
    for (int i = 0; i < m; i++) { msym_make(&b[i], 1, "b"); msym_assume(b[i] != 0); }
    V sa = L(S("sym"), Q(vstr(a, n))), sb = L(S("sym"), Q(vstr(b, m)));
    int eq = memcmp(a, b, 16) == 0;
    atom_t nil = mk_nil(l), r = lisp_eval(l, nil, to_atom(l, L(S("="), sa, sb)));
    int got = r->type == T_TRUE;
    CHECK(got == msym_decide(eq), "two symbols are equal exactly when all their characters are");
    X(l, r, nil);
  }
  shutdown_ctx(l, "list primitives leak atoms");
  msym_reach("end");
}
