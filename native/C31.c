/* the sequence model as seeded from pair records at the start */
#include "world.h"
#include "vshadow.h"
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
int __wrap_preload_readahead (preload_map_t **f, int n) { return n; }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
guint __wrap_g_timeout_add (guint t, GSourceFunc f, gpointer d) { return 1; }
guint __wrap_g_timeout_add_full (gint p, guint t, GSourceFunc f, gpointer d, GDestroyNotify n) { return 1; }
guint __wrap_g_timeout_add_seconds (guint t, GSourceFunc f, gpointer d) { return 1; }
guint __wrap_g_timeout_add_seconds_full (gint p, guint t, GSourceFunc f, gpointer d, GDestroyNotify n) { return 1; }
static void one_case (void)
{
  world_build (chance (90)); s_init (); int vomm = chance (85), tree = chance (25);
  conf->system.prediction_algorithm = vomm ? "VOMM" : "Markov"; conf->system.autosave = 3600; note ("programs=%d%s%s", wne, vomm ? "" : " pairs only", tree ? " with a tree" : "");
  for (int i = 0; i < wne; i++) for (guint j = 0; j < we[i]->markovs->len; j++) { preload_markov_t *m = we[i]->markovs->pdata[j]; if (m->a == we[i] && chance (30)) { m->weight[1][3] = chance (50) ? 1 : 0; m->weight[2][3] = chance (50) ? 2 : 0; } }
  if (tree) s_random_tree (chance (50) ? 3 : 20);
  int loaded = sns > 1;
  if (vomm && !loaded)
    for (int i = 0; i < wne; i++) for (guint j = 0; j < we[i]->markovs->len; j++) {
      preload_markov_t *m = we[i]->markovs->pdata[j]; int first = m->a == we[i], c = first ? m->weight[1][3] : m->weight[2][3], o = widx (first ? m->b : m->a); if (c <= 0) continue;
      int p = s_child (0, i); if (!p) p = s_new (0, i, 0); s_new (p, o, c); }
  preload_state_run (NULL);
  s_compare ();
  if (vomm && wne) { for (int k = rnd (8); k > 0; k--) { int e = rnd (wne); vomm_update (we[e]); s_update (e); } s_compare (); }
  world_end ();
}
