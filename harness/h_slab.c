/* C01: the atom allocator over any history of allocations and releases.
 * arg0: cells allocated before the history starts, arg1: steps, arg2: cells the history may hold. */
#include "lib.h"
extern atom_t __real_slab_allocate(const slab_t slab);
extern void __real_slab_deallocate(const slab_t slab, const atom_t cell);
extern slab_t __real_slab_new(void);
extern void __real_slab_delete(const slab_t slab);

static void check_fresh(slab_t s, atom_t a) {
  CHECK(((char*)a - (char*)s->entries) % sizeof(struct atom) == 0, "a cell is aligned on the cell size");
  CHECK((char*)a >= (char*)s->entries && (char*)(a + 1) <= (char*)s->entries + SLAB_SIZE, "a cell lies within the slab");
  CHECK(a->flags == 0 && a->cache == NULL, "a cell handed out carries nothing of its previous use");
}
static void stamp(atom_t a, uint64_t v) {
  a->refs = (uint32_t)v; a->type = T_NUMBER; a->flags = (uint16_t)(v >> 3); a->cache = (struct atom*)(v * 3);
  ((uint64_t*)a->symbol.val)[0] = v ^ 0x5555; ((uint64_t*)a->symbol.val)[1] = v * 7;
}
static int intact(atom_t a, uint64_t v) {
  int r = msym_and(a->refs == (uint32_t)v, a->type == T_NUMBER);
  r = msym_and(r, a->flags == (uint16_t)(v >> 3));
  r = msym_and(r, a->cache == (struct atom*)(v * 3));
  r = msym_and(r, ((uint64_t*)a->symbol.val)[0] == (v ^ 0x5555));
  return msym_and(r, ((uint64_t*)a->symbol.val)[1] == v * 7);
}
void harness(void) {
  int pre = (int)msym_arg(0), k = (int)msym_arg(1), max = (int)msym_arg(2);
  env_init();
  slab_t s = __real_slab_new();
  CHECK(s != NULL, "a slab is created");
  atom_t* pp = malloc(sizeof(atom_t) * (pre + 1));
  unsigned char* seen = calloc(1, pre + 4096);
  for (int i = 0; i < pre; i++) {
    pp[i] = __real_slab_allocate(s);
    size_t n = pp[i] - s->entries;
    CHECK(n < (size_t)pre + 4096 && !seen[n], "live cells are distinct");
    seen[n] = 1;
    pp[i]->refs = 7; pp[i]->type = T_NUMBER; pp[i]->number = i;
  }
  atom_t held[16]; uint64_t v[16]; int used[16] = { 0 };
  size_t live = pre, allocs = pre, frees = 0;
  for (int step = 0; step < k; step++) {
    /* an action: release one of the held cells, or allocate; also release of a prefilled cell */
    int act = msym_choice(max + 2, "act");
    if (act < max) { /* slot act: release when it is held, allocate into it when it is not */
      if (used[act]) {
        CHECK(intact(held[act], v[act]), "a live cell keeps its contents until it is released");
        __real_slab_deallocate(s, held[act]); used[act] = 0; live--; frees++;
      } else {
        atom_t a = __real_slab_allocate(s);
        check_fresh(s, a);
        for (int i = 0; i < max; i++) if (used[i]) CHECK(held[i] != a, "live cells are distinct");
        for (int i = 0; i < pre; i++) CHECK(pp[i] != a, "live cells are distinct");
        msym_make(&v[act], 8, "contents");
        stamp(a, v[act]); held[act] = a; used[act] = 1; live++; allocs++;
      }
    } else if (act == max) { /* drop the most recent prefilled cell */
      if (pre > 0 && pp[pre - 1]) { __real_slab_deallocate(s, pp[--pre]); live--; frees++; }
    } else if (pre > 1) { /* drop the oldest prefilled cell */
      __real_slab_deallocate(s, pp[0]); pp[0] = pp[--pre]; live--; frees++;
    }
    CHECK(s->n_alloc - s->n_free == live, "the counters give the number of live cells");
    CHECK(s->n_alloc == allocs && s->n_free == frees, "the counters count allocations and releases");
  }
  for (int i = 0; i < max; i++) if (used[i]) CHECK(intact(held[i], v[i]), "a live cell keeps its contents");
  for (int i = 1; i < pre; i++) CHECK(pp[i]->refs == 7 && pp[i]->type == T_NUMBER && pp[i]->number == (pp[i] == pp[0] ? pp[i]->number : i), "a live cell keeps its contents");
  /* everything can be released and taken again: no cell is lost */
  if (pre <= 4) {
    size_t first = s->n_pages;
    for (int i = 0; i < max; i++) if (used[i]) __real_slab_deallocate(s, held[i]);
    for (int i = 0; i < pre; i++) __real_slab_deallocate(s, pp[i]);
    atom_t again[32];
    for (int i = 0; i < 12; i++) { again[i] = __real_slab_allocate(s); for (int j = 0; j < i; j++) CHECK(again[i] != again[j], "live cells are distinct"); }
    CHECK(s->n_pages == first, "released cells are used again before the slab grows");
    for (int i = 0; i < 12; i++) __real_slab_deallocate(s, again[i]);
    CHECK(s->n_alloc == s->n_free, "releasing every cell leaves none live");
  }
  __real_slab_delete(s);
  msym_reach("end");
}
