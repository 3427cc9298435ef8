#include "world.h"
#include "vshadow.h"
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
int __wrap_preload_readahead (preload_map_t **f, int n) { return n; }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static void one_case (void)
{
  world_build (0); s_init (); vomm_init ();
  if (wne < 1) { world_end (); return; }
  note ("programs=%d ops:", wne);
  if (chance (40)) s_random_tree (chance (50) ? 6 : 30);
  s_compare ();
  int deepest = 5; for (int i = 1; i < sns; i++) if (s_depth (i) > deepest) deepest = s_depth (i);
  for (int k = 0; k < 25; k++) {
    int e = rnd (chance (50) ? MIN (wne, 2) : wne);
    if (!we[e]) continue;
    if (chance (92)) { note (" %d", e); vomm_update (we[e]); s_update (e); }
    else if (chance (50)) { vomm_update (NULL); }
    else if (!g_slist_find (state->running_exes, we[e])) { note (" forget%d", e); preload_state_unregister_exe (we[e]); we[e] = NULL; s_forget (e); }
    s_compare ();
    for (int i = 1; i < sns; i++) if (!sn[i].dead) EXPECT (s_depth (i) <= deepest, "never deeper than five levels");
  }
  vomm_predict ();
  world_end ();
}
