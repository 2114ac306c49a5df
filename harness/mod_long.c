/* A module of the harness whose name and symbols have 15 and 16 characters. */
#include <mnml/module.h>
#include <mnml/slab.h>

static atom_t USED
lisp_function_l1(const lisp_t lisp, UNUSED const atom_t closure)
{
  return lisp_make_number(lisp, 1);
}

static atom_t USED
lisp_function_l2(const lisp_t lisp, UNUSED const atom_t closure)
{
  return lisp_make_number(lisp, 2);
}

static atom_t USED
lisp_function_l3(const lisp_t lisp, UNUSED const atom_t closure)
{
  return lisp_make_number(lisp, 3);
}

LISP_MODULE_SETUP(l1, functionnumber01)
LISP_MODULE_SETUP(l2, functionnumber02)
LISP_MODULE_SETUP(l3, functionnumber0)

module_entry_t ENTRIES[] = { LISP_MODULE_REGISTER(l1), LISP_MODULE_REGISTER(l2), LISP_MODULE_REGISTER(l3), { NULL, NULL } };
const char* USED lisp_module_name() { return "asixteenletmodul"; }
const module_entry_t* USED lisp_module_entries() { return ENTRIES; }
