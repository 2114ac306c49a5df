/* A context whose modelled file system holds the scripts and modules of the tree. */
#pragma once
#include "lib.h"
#include "share_gen.h"

/* only what the interpreter defines by default */
static lisp_t boot_share_bare(void) {
  lisp_t l = boot(0);
  env_setenv("MNML_SCRIPT_PATH", "/lib");
  env_setenv("MNML_MODULE_PATH", "/m");
  env_mkdir("/lib"); env_mkdir("/m");
  for (int i = 0; share_files[i].name; i++) {
    char p[64];
    strcpy(p, "/lib/"); strcat(p, share_files[i].name);
    env_mkfile(p, share_files[i].text, share_files[i].len);
  }
  static const char* mods[] = { "std", "logic", "math", "io", "sys", "unix", "iterators", "manips", "extra" };
  for (int i = 0; i < 9; i++) {
    char p[64];
    strcpy(p, "/m/lib"); strcat(p, mods[i]); strcat(p, ".so");
    env_mkfile(p, "x", 1);
    env_module(p, mods[i]);
  }
  boot_io(l);
  module_load_defaults(l);
  return l;
}
static void load_base(lisp_t l) {
  static const char* base[] = { "std", "logic", "math", "io" };
  for (int i = 0; i < 4; i++) { /* what a program has loaded before */
    atom_t req = lisp_cons(l, mk_sym(l, base[i]), mk_t(l));
    drop(l, module_load(l, req));
  }
}
static lisp_t boot_share(void) {
  lisp_t l = boot_share_bare();
  load_base(l);
  return l;
}
/* (load "@lib/NAME.l") */
static void lib_load(lisp_t l, const char* name) {
  char p[64];
  strcpy(p, "@lib/"); strcat(p, name); strcat(p, ".l");
  atom_t r = lisp_load_file(l, p);
  CHECK(!IS_NULL(r), "the script of the library loads");
  X(l, r);
}
