/* An arbitrary model built through the daemon's own constructors: programs, shared regions, links, pair records. */
#ifndef WORLD_H
#define WORLD_H
#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
#include "proc.h"
#include "vomm.h"
#include "prophet.h"
#define MAXE 12
#define MAXM 16
static preload_exe_t *we[MAXE]; static preload_map_t *wm[MAXM]; static int wne, wnm;
static void (*world_path) (char *buf, int kind, int i);      /* how paths are made up; NULL: plain */
static size_t (*world_size) (int what); static int world_wild_off;
static void plain_path (char *buf, int kind, int i) { sprintf (buf, kind ? "/lib/m%d" : "/bin/e%d", i); }
static double any_mean (void) { switch (rnd (6)) { case 0: return 0; case 1: return 1; case 2: return 1.0000001; case 3: return rnd (100000) / 7.0; case 4: return 1 + rnd (1000) / 1000.0; default: return rnd (500); } }
static int any_count (void) { switch (rnd (5)) { case 0: return 0; case 1: return 1; case 2: return rnd (10); case 3: return rnd (1000); default: return rnd (100000000); } }
static void world_chain (gpointer k, gpointer d)
{
  preload_markov_t *m = k; if (m->weight[0][0] == -7) return;
  for (int i = 0; i < 4; i++) { m->weight[i][i] = 0; for (int j = 0; j < 4; j++) if (j != i) m->weight[i][i] += m->weight[i][j] = chance (20) ? 0 : any_count (); if (chance (15)) for (int j = 0; j < 4; j++) m->weight[i][j] = 0; }
  for (int i = 0; i < 4; i++) m->time_to_leave[i] = any_mean ();
  m->time = rnd (MIN (m->a->time, m->b->time) + 1);
}
static void world_build (int pairs)
{
  memset (conf, 0, sizeof *conf); conf->system.prediction_algorithm = "Markov"; conf->model.cycle = chance (80) ? 1 + rnd (120) : rnd (100000); conf->model.usecorrelation = chance (60); conf->model.memfree = 50;
  char buf[4096]; void (*mk) (char *, int, int) = world_path ? world_path : plain_path;
  preload_state_load (NULL);
  state->time = chance (10) ? 0 : rnd (1 << (1 + rnd (30)));
  if (chance (15)) { state->map_seq = rnd64 () >> (2 + rnd (60)); state->exe_seq = rnd64 () >> (2 + rnd (60)); }
  state->last_running_timestamp = state->time - (chance (50) ? 0 : rnd (state->time + 1)); if (state->last_running_timestamp < 0) state->last_running_timestamp = 0;
  wnm = rnd (MAXM); wne = chance (5) ? 0 : 1 + rnd (chance (50) ? 3 : MAXE);
  for (int i = 0; i < wnm; i++) { mk (buf, 1, i / 2); wm[i] = preload_map_new (buf, world_wild_off && chance (30) ? (rnd64 () >> rnd (2)) & ~1ul | (i % 2) : (size_t) (i % 2) * 4096, world_size ? world_size (1) : 1 + rnd (100000)); }
  for (int i = 0; i < wne; i++) {
    GPtrArray *l = g_ptr_array_new ();
    for (int k = rnd (6); k > 0 && wnm; k--) g_ptr_array_add (l, preload_exemap_new (wm[rnd (wnm)]));
    mk (buf, 0, i);
    int run = chance (40);
    preload_exe_t *e = we[i] = preload_exe_new (buf, run, l);
    if (run) state->running_exes = g_slist_prepend (state->running_exes, e); else if (chance (50) && state->last_running_timestamp > 0) e->running_timestamp = rnd (state->last_running_timestamp);
    e->time = rnd (state->time + 1); e->update_time = rnd (state->time + 1);
    preload_state_register_exe (e, pairs);
  }
  for (int i = 0; i < wnm; i++) if (!wm[i]->refcount) { preload_map_free (wm[i]); wm[i] = wm[--wnm]; i--; }
  preload_markov_foreach (world_chain, NULL);
}
static void world_end (void) { preload_state_free (); }
static int widx (preload_exe_t *e) { for (int i = 0; i < wne; i++) if (we[i] == e) return i; return -1; }
static int midx (preload_map_t *m) { for (int i = 0; i < wnm; i++) if (wm[i] == m) return i; return -1; }
#endif
