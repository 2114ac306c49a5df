/* C20: paths, scripts and modules.
 * arg0 0: full path of any short path (arg1 characters), in every environment
 *      1: paths whose length is at the limit (arg1: form)
 *      2: loading modules: arg1 form of the request, arg2 faults, arg3 loads
 *      3: loading scripts: arg1 kind, arg2 faults */
#include "lib.h"
#include <limits.h>

/* ---- reference path resolution over the modelled tree */
static void norm(const char* p, char* out) { /* absolute p, textual */
  size_t n = 0, i = 0;
  while (p[i]) {
    while (p[i] == '/') i++;
    size_t j = i; while (p[j] && p[j] != '/') j++;
    size_t k = j - i;
    if (k == 0) break;
    if (k == 1 && p[i] == '.') { }
    else if (k == 2 && p[i] == '.' && p[i + 1] == '.') { while (n && out[n - 1] != '/') n--; if (n) n--; }
    else { out[n++] = '/'; for (; i < j; i++) out[n++] = p[i]; }
    i = j;
  }
  if (!n) out[n++] = '/';
  out[n] = 0;
}
static int exists(const char* p) { return (p[0] == '/' && p[1] == 0) || env_find(p) >= 0; }
static int ref_path(const char* p, const char* dir, const char* home, const char* lib, char* out) {
  char a[256], d[256];
  size_t l = strlen(p);
  if (l >= 4 && p[0] == '@' && p[1] == 'l' && p[2] == 'i' && p[3] == 'b') { strcpy(a, lib); strcat(a, p + 4); }
  else if (p[0] == '~' && home) { strcpy(a, home); strcat(a, p + 1); }
  else strcpy(a, p);
  if (a[0] != '/') { strcpy(d, dir); strcat(d, "/"); strcat(d, a); strcpy(a, d); }
  norm(a, out);
  if (exists(out)) return 1;
  /* the last entry need not exist */
  l = strlen(a);
  while (a[l - 1] != '/') l--;
  char last[256]; strcpy(last, a + l);
  a[l] = 0;
  norm(a, out);
  if (!exists(out)) return 0;
  if (strcmp(out, "/") != 0) strcat(out, "/");
  strcat(out, last);
  return 1;
}
static void paths(void) {
  int n = (int)msym_arg(1);
  lisp_t l = boot(M_STD);
  env_mkdir("/lib"); env_mkdir("/home/a"); env_mkfile("/lib/a", "1", 1); env_mkfile("/cwd/a", "1", 1); env_mkfile("/pfx/share/mnml/a", "1", 1);
  env_mkdir("/pfx"); env_mkdir("/pfx/share"); env_mkdir("/pfx/share/mnml"); env_mkdir("/s"); env_mkfile("/a", "", 0);
  int ich = msym_choice(2, "input channel"), home = msym_choice(2, "HOME"), sp = msym_choice(2, "MNML_SCRIPT_PATH");
  if (!home) env_setenv("HOME", NULL);
  if (sp) env_setenv("MNML_SCRIPT_PATH", "/s");
  if (ich) PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/lib");
  char p[16]; int k = 0;
  if (msym_choice(2, "@lib")) { memcpy(p, "@lib", 4); k = 4; if (n > 2) n = 2; }
  for (int i = 0; i < n; i++) {
    static const char al[] = "a./~@b";
    p[k++] = al[msym_choice(6, "character")];
  }
  p[k] = 0;
  char out[PATH_MAX], e[256];
  const char* r = lisp_get_fullpath(l, "/lib", p, out);
  int ok = ref_path(p, ich ? "/lib" : "/cwd", home ? "/home" : NULL, sp ? "/s" : "/pfx/share/mnml", e);
  CHECK((r != NULL) == ok, "a path is found exactly when its directory exists");
  if (r && ok) CHECK(strcmp(r, e) == 0, "a path resolves against the library, home, or current directory");
  if (ich) POP_IO_CONTEXT(l, l->ichan);
  shutdown_ctx(l, "path resolution releases every atom");
}
static void limits(void) {
  int form = (int)msym_arg(1);
  lisp_t l = boot(M_STD | M_IO | M_UNIX);
  PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/cwd");
  PUSH_IO_CONTEXT(l, l->ochan, env_stdfile(1), "/cwd");
  int n = PATH_MAX - 10 + msym_choice(21, "length");
  char* b = malloc(n + 1);
  memset(b, 'x', n);
  int pre = msym_choice(4, "prefix");
  if (pre == 1) b[0] = '/';
  if (pre == 2) b[0] = '~';
  if (pre == 3) memcpy(b, "@lib", 4);
  for (int i = 1; i < 4; i++) b[n - i * 3] = '/';
  atom_t s = mk_str(l, b, n), nil = mk_nil(l);
  atom_t q = lisp_cons(l, mk_sym(l, "quote"), s);
  static const char* fn[] = { "load", "in", "out", "unlink", "exec" };
  atom_t args = mk_list(l, 1, q);
  if (form == 4) { X(l, args); return; }
  atom_t r = lisp_eval(l, nil, lisp_cons(l, mk_sym(l, fn[form]), args));
  CHECK(r->type == T_NIL, "a path that is too long is not found");
  X(l, r, nil);
  free(b);
  CHECK(env_files_open == 0 && env_fds_open() == 3, "no descriptor stays open");
  io_down(l);
  shutdown_ctx(l, "a path that is too long releases every atom");
}
/* a path longer than the limit is refused, not cut: cut, it would name another file */
static void cut(void) {
  int form = (int)msym_arg(1); /* 0 load, 1 in, 2 out, 3 out with +, 4 unlink */
  lisp_t l = boot(M_STD | M_IO | M_UNIX);
  PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/cwd");
  PUSH_IO_CONTEXT(l, l->ochan, env_stdfile(1), "/cwd");
  static const char* names[] = { "/a", "/ab", "/abc" };
  for (int i = 0; i < 3; i++) env_mkfile(names[i], i == 0 ? "1\n" : i == 1 ? "2\n" : "3\n", 2);
  int n = PATH_MAX - 3 + msym_choice(8, "length"), fits = n < PATH_MAX;
  char* b = malloc(n + 2); int k = form == 3;
  b[0] = '+';
  memset(b + k, '/', n - 3); memcpy(b + k + n - 3, "abc", 3);
  if (msym_choice(2, "dots")) for (int i = 1; i + 4 < n; i += 2) b[k + i] = '.';
  atom_t q = lisp_cons(l, mk_sym(l, "quote"), mk_str(l, b, n + k)), nil = mk_nil(l), e;
  switch (form) {
    case 0: e = mk_list(l, 2, mk_sym(l, "load"), q); break;
    case 1: e = mk_list(l, 3, mk_sym(l, "in"), q, mk_list(l, 1, mk_sym(l, "read"))); break;
    case 4: e = mk_list(l, 2, mk_sym(l, "unlink"), q); break;
    default: e = mk_list(l, 3, mk_sym(l, "out"), q, mk_list(l, 2, mk_sym(l, "prin"), mk_num(l, 7)));
  }
  atom_t r = lisp_eval(l, nil, e);
  if (!fits) CHECK(r->type == T_NIL, "a path that is too long is not found");
  else if (form < 2) CHECK(is_num(r, 3), "a path of the greatest length is found");
  else if (form < 4) CHECK(is_num(r, 7), "a path of the greatest length is written");
  else CHECK(r->type == T_TRUE, "a path of the greatest length is removed");
  for (int i = 0; i < 3; i++) {
    int f = env_find(names[i]), hit = i == 2 && fits;
    CHECK((f >= 0) == !(hit && form == 4), "the file of that path is removed, and no other");
    if (f < 0) continue;
    struct node* d = &env_node[f];
    char o = (char)('1' + i);
    if (hit && form == 2) CHECK(d->len == 1 && d->data[0] == '7', "the file of that path is replaced");
    else if (hit && form == 3) CHECK(d->len == 3 && d->data[0] == o && d->data[2] == '7', "the file of that path is extended");
    else CHECK(d->len == 2 && d->data[0] == o, "no other file is written");
  }
  X(l, r, nil);
  free(b);
  CHECK(env_files_open == 0 && env_fds_open() == 3, "no descriptor stays open");
  io_down(l);
  shutdown_ctx(l, "a path at the limit releases every atom");
}

/* ---- modules */
static char dl_first[4][64]; static int n_dl;
static int hook(const char* name, long a0, long a1, long a2, long* ret) {
  (void)a1; (void)a2; (void)ret;
  if (strcmp(name, "dlopen") == 0 && n_dl < 4) strcpy(dl_first[n_dl++], (const char*)a0);
  return 0;
}
static int bound(lisp_t l, const char* s) { atom_t y = mk_sym(l, s), v = lisp_tree_get(l, l->globals, &y->symbol); int r = v->type != T_NIL; X(l, y, v); return r; }
static void modules(void) {
  static const char* names[] = { "car", "cdr", "str", "nosuch" };
  int form = (int)msym_arg(1), loads = (int)msym_arg(3);
  lisp_t l = boot(0);
  boot_io(l);
  env_mkdir("/pfx"); env_mkdir("/pfx/lib"); 
  if (msym_choice(2, "prefix directory")) env_mkdir("/pfx/lib/mnml");
  int where = msym_choice(4, "place"); /* 0 nowhere, 1 prefix, 2 user cache, 3 module path */
  int also = msym_choice(2, "and in a later place");
  int single = where == 3 && msym_choice(2, "a directory of one character");
  static char many[8000];
  strcpy(many, "/m1");
  for (int i = 0; i < (int)msym_arg(4); i++) { char d[8] = { ':', '/', (char)('a' + i % 26), (char)('a' + i / 26), '9', 0 }; strcat(many, d); }
  strcat(many, single ? ":." : "::/m2");
  env_setenv("MNML_MODULE_PATH", many);
  env_mkdir("/m2");
  const char* dirs[] = { "", "/pfx/lib/mnml", "/home/.mnml", single ? "/cwd" : "/m2" };
  if (where == 1 && env_find("/pfx/lib/mnml") < 0) env_mkdir("/pfx/lib/mnml");
  int bad = form == 6; /* the library is of another module */
  char p[64], p2[64]; p[0] = p2[0] = 0;
  static const char* decoy[] = { "/home/.mnml/libstd.so.1", "/home/.mnml/xlibstd.so", "/m2/libstd", "/m2/libstd.so~", "/cwd/libstd2.so" };
  for (int i = 0; i < 5; i++) env_mkfile(decoy[i], "", 0); /* names that only look like it */
  if (where) { strcpy(p, dirs[where]); strcat(p, "/libstd.so"); env_mkfile(p, "", 0); env_module(p, bad ? "math" : "std"); }
  if (also && where && where < 3) { strcpy(p2, dirs[where + 1]); strcat(p2, "/libstd.so"); env_mkfile(p2, "", 0); env_module(p2, "std"); }
  env_hook = hook;
  atom_t nil = mk_nil(l);
  int opened = 0;
  for (int t = 0; t < loads; t++) {
    atom_t req; int want[4], nw = 0, all = 0, valid = 1;
    switch (form) {
      case 0: case 6: req = mk_sym(l, "std"); all = 1; break;
      case 1: req = lisp_cons(l, mk_sym(l, "std"), mk_t(l)); all = 1; break;
      case 2: case 3: { /* a list of names */
        int n = msym_choice(form == 2 ? 3 : 2, "names");
        atom_t e[4];
        for (int i = 0; i < n; i++) {
          int k = msym_choice(5, "name");
          if (k == 4) e[i] = any_leaf(l, "other"); else { e[i] = mk_sym(l, names[k]); if (k < 3) want[nw++] = k; }
          if (k == 4 && e[i]->type == T_SYMBOL) msym_discard();
        }
        req = lisp_cons(l, mk_sym(l, "std"), mk_list_(l, n, e));
        break;
      }
      case 4: req = lisp_cons(l, mk_sym(l, "std"), sym_num(l, "other")); valid = 0; break;
      default: req = lisp_cons(l, msym_choice(2, "name") ? sym_num(l, "name") : mk_nil(l), mk_t(l)); valid = 0;
    }
    msym_reach("request");
    if (req->type == T_PAIR && lisp_is_string(req)) msym_discard();
    int nd = n_dl;
    env_faults = (int)msym_arg(2);
    int budget = env_faults;
    int b0[3]; for (int i = 0; i < 3; i++) b0[i] = bound(l, names[i]);
    atom_t r = module_load(l, req->type == T_PAIR ? req : lisp_cons(l, req, mk_t(l)));
    int faulted = env_faults < budget;
    env_faults = 0;
    well_formed(r);
    int fail = r->type == T_NIL;
    int should = where && !bad && valid && (all || nw > 0);
    if (!faulted) CHECK(!fail == should, "loading succeeds exactly when a library with the module's name holds a requested symbol");
    if (fail) { for (int i = 0; i < 3; i++) CHECK(bound(l, names[i]) == b0[i], "a load that fails defines nothing"); }
    else {
      CHECK(should || (faulted && also), "a load that finds nothing yields NIL");
      if (!faulted && !opened) CHECK(n_dl == nd + 1 && strcmp(dl_first[nd] + (single && dl_first[nd][0] == '.' ? 1 : 0), p + (single && dl_first[nd][0] == '.' ? 4 : 0)) == 0, "the module is the first one in the search path");
      if (opened) CHECK(n_dl == nd, "a module is loaded once");
      opened = 1;
      atom_t c = r;
      if (all) { for (int i = 0; i < 3; i++) CHECK(bound(l, names[i]), "loading a module defines its symbols"); }
      else {
        for (int i = 0; i < nw; i++) {
          CHECK(c->type == T_PAIR && is_sym(CAR(c), names[want[i]]), "loading yields the symbols it loaded, in order");
          if (c->type == T_PAIR) c = CDR(c);
          CHECK(bound(l, names[want[i]]), "loading defines the symbols it names");
        }
        CHECK(c->type == T_NIL, "loading yields the symbols it loaded and no other");
        for (int i = 0; i < 3; i++) { int w = b0[i]; for (int j = 0; j < nw; j++) w |= want[j] == i; CHECK(bound(l, names[i]) == w, "loading names defines these only"); }
      }
    }
    CHECK(env_dl_open == opened, "a library stays open exactly when something was loaded from it");
    CHECK(env_dirs_open == 0, "directories are closed");
    X(l, r);
  }
  X(l, nil);
  io_down(l);
  module_fini(l);
  CHECK(env_dl_open == 0, "libraries are closed at the end");
  l->modules = mk_nil(l);
  shutdown_ctx(l, "loading modules releases every atom");
}

/* ---- scripts */
static void scripts(void) {
  int kind = (int)msym_arg(1);
  lisp_t l = boot(M_BASE | M_IO);
  env_mkdir("/lib"); env_mkdir("/lib/sub");
  int ich = msym_choice(2, "input channel");
  if (ich) PUSH_IO_CONTEXT(l, l->ichan, env_stdfile(0), "/lib");
  PUSH_IO_CONTEXT(l, l->ochan, env_stdfile(1), "/cwd");
  env_stdin("left\n", 5);
  char c[3]; for (int i = 0; i < 3; i++) { msym_make(&c[i], 1, "digit"); msym_assume(msym_and(c[i] >= '1', c[i] <= '9')); }
  char t[160]; int n = 0;
#define PUT(s) do { const char* z_ = s; while (*z_) t[n++] = *z_++; } while (0)
  /* main: assigns, loads a script beside it, reads its own next expression, ends with a value */
  PUT("(setq a "); t[n++] = c[0]; PUT(")\n");
  if (kind == 1) PUT("(load \"b.l\")\n");
  if (kind == 2) PUT("(setq r (read)) word\n");
  if (kind == 3) PUT("(load \"none.l\")\n");
  if (kind == 4) PUT("(setq r (in \"b.l\" (read)))\n");
  PUT("(setq z a)"); if (msym_choice(2, "last newline")) PUT("\n");
  env_mkfile("/lib/sub/m.l", t, n);
  n = 0; PUT("(setq b "); t[n++] = c[1]; PUT(") (setq a (+ a b))\n");
  env_mkfile("/lib/sub/b.l", t, n);
  env_mkfile("/lib/b.l", "(setq b 77)", 11);
  env_mkfile("/cwd/b.l", "(setq b 78)", 11);
  atom_t ic = l->ichan;
  env_faults = (int)msym_arg(2); int budget = env_faults;
  const char* path = ich ? "sub/m.l" : "/lib/sub/m.l";
  atom_t r = lisp_load_file(l, path);
  int faulted = env_faults < budget; env_faults = 0;
  well_formed(r);
  CHECK(l->ichan == ic, "the input channel in force before is restored");
  CHECK(env_files_open == 0 && env_fds_open() == 3, "the script's stream is closed");
  atom_t y = mk_sym(l, "z"), z = lisp_tree_get(l, l->globals, &y->symbol);
  int64_t a = c[0] - '0', b = c[1] - '0';
  if (!faulted) {
    CHECK(is_num(r, kind == 1 ? a + b : a), "loading a script yields the value of its last expression");
    if (kind == 2) { atom_t q = eval_text(l, "r"); CHECK(is_sym(q, "word"), "read reads from the script that is being loaded"); X(l, q); }
    if (kind == 4) { atom_t q = eval_text(l, "(car r)"); CHECK(is_sym(q, "setq"), "paths are relative to the script"); X(l, q); }
  } else {
    int v = msym_or(is_num(r, a), is_num(r, a + b));
    CHECK(msym_or(v, r->type == T_NIL), "a script that cannot be loaded yields NIL");
  }
  X(l, y, z, r);
  if (ich) { atom_t q = eval_text(l, "(readline)"); atom_t e = mk_str(l, "left", 4); CHECK(same_expr(q, e), "the outer input is where it was"); X(l, q, e); POP_IO_CONTEXT(l, l->ichan); }
  POP_IO_CONTEXT(l, l->ochan);
  shutdown_ctx(l, "loading scripts releases every atom");
}
/* ---- names of 15 and 16 characters, for the module and for its symbols */
static void longnames(void) {
  static const char* syms[] = { "functionnumber01", "functionnumber02", "functionnumber0", "functionnumber03", "functionnumber" };
  lisp_t l = boot(M_BASE | M_IO);
  boot_io(l);
  env_mkdir("/pfx"); env_mkdir("/pfx/lib"); env_mkdir("/pfx/lib/mnml");
  env_mkfile("/pfx/lib/mnml/libasixteenletmodul.so", "", 0);
  env_module("/pfx/lib/mnml/libasixteenletmodul.so", "asixteenletmodul");
  atom_t nil = mk_nil(l);
  int all = msym_choice(2, "everything"), cut = msym_choice(2, "shorter name"), n = 0;
  int want[2] = { 0, 0 };
  atom_t sy[2];
  if (!all) { n = 1 + msym_choice(2, "symbols"); for (int i = 0; i < n; i++) { want[i] = msym_choice(5, "symbol"); sy[i] = mk_sym(l, syms[want[i]]); } }
  atom_t req = lisp_cons(l, mk_sym(l, cut ? "asixteenletmodu" : "asixteenletmodul"), all ? mk_t(l) : mk_list_(l, n, sy));
  atom_t r = module_load(l, req), c = r;
  int ok[3] = { 0, 0, 0 };
  if (cut) CHECK(r->type == T_NIL, "a module is found by its whole name");
  else if (all) { ok[0] = ok[1] = ok[2] = 1; CHECK(r->type == T_PAIR, "a module with a name of 16 characters is found"); }
  else {
    for (int i = 0; i < n; i++) if (want[i] < 3) {
      ok[want[i]] = 1;
      CHECK(c->type == T_PAIR && is_sym(CAR(c), syms[want[i]]), "symbols of 15 and 16 characters are loaded by name");
      if (c->type == T_PAIR) c = CDR(c);
    }
    CHECK(c->type == T_NIL, "loading yields the symbols it loaded and no other");
  }
  for (int i = 0; i < 5; i++) CHECK(bound(l, syms[i]) == (i < 3 && ok[i]), "loading defines the symbols it names, by their whole names");
  for (int i = 0; i < 3; i++) if (ok[i]) {
    atom_t v = lisp_eval(l, nil, lisp_cons(l, mk_sym(l, syms[i]), mk_nil(l)));
    CHECK(is_num(v, i + 1), "a loaded symbol is the function of the module");
    X(l, v);
  }
  CHECK(env_dl_open == (ok[0] || ok[1] || ok[2]), "a library stays open exactly when something was loaded from it");
  X(l, r, nil);
  io_down(l);
  module_fini(l);
  CHECK(env_dl_open == 0, "libraries are closed at the end");
  l->modules = mk_nil(l);
  shutdown_ctx(l, "loading modules releases every atom");
}
void harness(void) {
  switch (msym_arg(0)) {
    case 4: longnames(); break;
    case 5: cut(); break;
    case 0: paths(); break;
    case 1: limits(); break;
    case 2: modules(); break;
    default: scripts();
  }
  msym_reach("end");
}
