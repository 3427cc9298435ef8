#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
static preload_map_t *mk (void)
{
  static const char *p[] = { "/a", "/b", "/a ", "/ab", "/a/b", "/usr/lib/libc.so.6", "", "/A" };
  static const size_t v[] = { 0, 1, 4096, 4097, 1ull << 32, (1ull << 32) + 1, 0xffffffffull, 1ull << 63 };
  preload_map_t *m = preload_map_new (p[rnd (chance (50) ? 2 : 8)], v[rnd (chance (50) ? 2 : 8)], v[rnd (chance (50) ? 2 : 8)]);
  m->lnprob = rnd (5); m->block = rnd (5); m->update_time = rnd (9); m->seq = rnd (100); m->priv = rnd (3);
  note ("[%s %zu %zu] ", m->path, m->offset, m->length);
  return m;
}
static gboolean true_eq (preload_map_t *a, preload_map_t *b) { return !strcmp (a->path, b->path) && a->offset == b->offset && a->length == b->length; }
void __wrap_proc_foreach (GHFunc f, gpointer d) {}
void __wrap_proc_get_memstat (preload_memory_t *m) {}
static void one_case (void)
{
  preload_map_t *a = mk (), *b = mk ();
  gboolean e = true_eq (a, b);
  EXPECT ((preload_map_equal (a, b) != 0) == e, "equal iff path, offset and length agree");
  EXPECT ((preload_map_equal (b, a) != 0) == e, "symmetric");
  EXPECT (preload_map_equal (a, a) && !preload_map_equal (a, NULL) && !preload_map_equal (NULL, a), "reflexive, absent");
  if (e) EXPECT (preload_map_hash (a) == preload_map_hash (b), "equal regions hash alike");
  guint h = preload_map_hash (a);
  a->refcount = 7; a->lnprob = -1; a->block = 99; a->seq = 12345; a->priv = 1; a->update_time++;
  EXPECT (preload_map_hash (a) == h && (preload_map_equal (a, b) != 0) == e, "identity depends on path, offset and length only");
  a->refcount = 0;
  /* the registry the daemon sets up finds exactly that region */
  preload_state_load (NULL);
  preload_map_ref (a);
  EXPECT ((g_hash_table_lookup (state->maps, b) != NULL) == e, "the registry finds exactly the same region");
  EXPECT (g_hash_table_lookup (state->maps, a) != NULL, "the registry finds the region");
  preload_map_unref (a); preload_map_free (b);
  preload_state_free ();
}
