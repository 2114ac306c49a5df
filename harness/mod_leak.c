/* A module of the harness: (leak) keeps an atom forever. */
#include <mnml/module.h>
#include <mnml/slab.h>

static atom_t USED
lisp_function_leak(const lisp_t lisp, UNUSED const atom_t closure)
{
  lisp_make_number(lisp, 1);
  return lisp_make_true(lisp);
}

LISP_MODULE_SETUP(leak, leak)

module_entry_t ENTRIES[] = { LISP_MODULE_REGISTER(leak), { NULL, NULL } };
const char* USED lisp_module_name() { return "vleak"; }
const module_entry_t* USED lisp_module_entries() { return ENTRIES; }
