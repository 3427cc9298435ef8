#include "dump.h"
#include "state_io.h"
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
/* a sequence tree with very many nodes */
static void big_tree (void)
{
  if (wne < 2) return;
  for (int n = 1, k = 66000 + rnd (9000); n < k; n++) vomm_import_node (n, we[(n - 1) % wne], 1 + rnd (1000), (n - 1) / wne);
  vomm_import_done ();
}
static void one_case (void)
{
  wild_world ();
  if (vp_case % 20000 == 3 || vp_case % 20000 == 4) { vomm_cleanup (); big_tree (); note ("[many nodes] "); }
  note ("%d programs %d regions", wne, wnm);
  GPtrArray *a = model_dump ();
  char *e = preload_state_write_file ("state"); EXPECT (e == NULL, "the model can be saved");
  world_end ();
  for (int round = 0; round < 2; round++) {
    preload_state_load ("state");
    GPtrArray *b = model_dump ();
    model_equal (a, b, "what was saved is what is loaded");
    EXPECT (g_hash_table_size (state->bad_exes) == 0, "programs remembered as too small are forgotten");
    model_consistent (); g_ptr_array_free (b, TRUE);
    if (!round) { e = preload_state_write_file ("state"); EXPECT (e == NULL, "the model can be saved again"); }
    world_end ();
  }
  g_ptr_array_free (a, TRUE);
}
