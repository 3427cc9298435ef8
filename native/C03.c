#include "sim.h"
#include "world.h"
/* programs registered and removed directly, running or not, with any running times */
static void pairs_case (void)
{
  world_build (1); note ("programs=%d ", wne);
  for (int round = 0; round < 4; round++) {
    int known = 0; for (int i = 0; i < wne; i++) known += we[i] != NULL;
    EXPECT ((int) g_hash_table_size (state->exes) == known, "exactly the registered programs are known");
    for (int i = 0; i < wne; i++) if (we[i]) {
      EXPECT (g_hash_table_lookup (state->exes, we[i]->path) == we[i], "a registered program is found under its path");
      size_t z = 0; for (guint k = 0; k < we[i]->exemaps->len; k++) z += ((preload_exemap_t *) we[i]->exemaps->pdata[k])->map->length; EXPECT (we[i]->size == z, "a program's size is the sum of the lengths of its regions");
      EXPECT ((int) we[i]->markovs->len == known - 1, "exactly one record with every other program");
      for (int j = 0; j < wne; j++) if (we[j] && j != i) { int n; preload_markov_t *m = chain_of (we[i], we[j], &n); EXPECT (n == 1 && m, "exactly one record with every other program"); EXPECT (we[i]->seq != we[j]->seq, "every program has its own number"); }
    }
    if (wne && chance (70)) { int i = rnd (wne); if (we[i] && !exe_is_running (we[i])) { note (" remove%d", i); preload_state_unregister_exe (we[i]); we[i] = NULL; } }
    if (wne < MAXE && chance (70)) { char b[64]; sprintf (b, "/bin/new%d", wne); int r = chance (30); note (" add%d%s", wne, r ? "r" : ""); preload_exe_t *e = we[wne++] = preload_exe_new (b, r, NULL); if (r) state->running_exes = g_slist_prepend (state->running_exes, e); preload_state_register_exe (e, TRUE); }
  }
  world_end ();
}
static void one_case (void) { if (chance (30)) pairs_case (); else sim_case (); }
