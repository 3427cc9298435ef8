/* A simulated machine under the real scan, model update, chain and registry code: the process table and the mappings of
 * the processes are stand-ins, everything else is the daemon's own code.  A shadow model states what must come out. */
#ifndef SIM_H
#define SIM_H
#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
#include "proc.h"
#include "spy.h"
#include "vomm.h"
#include "prophet.h"
#include "state_io.h"
#define NP 8
#define NR 5                                  /* regions to draw from */
typedef struct { int live, nreg, reg[6]; size_t size; int known, bad, running, dies; long t; int seq_seen; gint64 seq; int change_ts; int gone; } sprog;
typedef struct { int exists; int st, w[4][4]; double ttl[4]; gint64 ts, t; } spair;
static sprog sp[NP]; static spair pr[NP][NP];         /* pr[i][j], i<j; state bits: 1 = i runs, 2 = j runs */
static char spath[NP][32]; static size_t rlen[NR], roff[NR]; static char rpath[NR][32];
static int sim_reads[NP], last_scan, sim_vomm, last_acct, sim_minsize;
static gint64 sim_maxseq;
static int pid_of (int p, int k) { return 1000 + p * 10 + k; }
void __wrap_proc_foreach (GHFunc f, gpointer d)
{
  int list[64], n = 0;
  for (int p = 0; p < NP; p++) for (int k = 0; k < sp[p].live; k++) list[n++] = pid_of (p, k);
  for (int i = n - 1; i > 0; i--) { int j = rnd (i + 1), x = list[i]; list[i] = list[j]; list[j] = x; }
  for (int i = 0; i < n; i++) { char buf[32]; strcpy (buf, spath[(list[i] - 1000) / 10]); f (GINT_TO_POINTER (list[i]), buf, d); memset (buf, 'x', sizeof buf); }
}
/* dies: 1 = before the first look at its mappings, 2 = before the second */
size_t __wrap_proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
{
  int p = (pid - 1000) / 10; EXPECT (pid >= 1000 && p < NP, "a process that was seen is examined");
  if (exemaps) *exemaps = g_ptr_array_new ();
  sim_reads[p]++;
  if (sp[p].dies && sim_reads[p] >= sp[p].dies && !(sp[p].dies == 3 && sim_reads[p] >= 2)) return 0;
  size_t s = 0; int n = sp[p].nreg;
  if (sp[p].dies == 3 && sim_reads[p] >= 2) n = 0;   /* reads as empty the second time */
  for (int i = 0; i < n; i++) {
    int r = sp[p].reg[i]; s += rlen[r];
    if (exemaps) {
      preload_map_t *m = preload_map_new (rpath[r], roff[r], rlen[r]); gpointer ok, ov;
      if (maps && g_hash_table_lookup_extended (maps, m, &ok, &ov)) { preload_map_free (m); m = ok; }
      g_ptr_array_add (*exemaps, preload_exemap_new (m));
    }
  }
  return s;
}
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); m->total = 1000000; m->free = 500000; m->available = 500000; }
static preload_exe_t *exe_of (int p) { return g_hash_table_lookup (state->exes, spath[p]); }
static preload_markov_t *chain_of (preload_exe_t *a, preload_exe_t *b, int *n)
{ preload_markov_t *r = NULL; *n = 0;
  for (guint i = 0; i < a->markovs->len; i++) { preload_markov_t *m = a->markovs->pdata[i];
    EXPECT (m->a == a || m->b == a, "a chain is listed with its own programs only");
    if ((m->a == a && m->b == b) || (m->a == b && m->b == a)) { r = m; (*n)++; } }
  return r; }
/* state of chain m seen from i (bit 0) and j (bit 1) */
static int sw (preload_markov_t *m, preload_exe_t *i, int s) { return m->a == i ? s : ((s & 1) << 1) | (s >> 1); }
static void sim_start (void)
{
  memset (sp, 0, sizeof sp); memset (pr, 0, sizeof pr); memset (sim_reads, 0, sizeof sim_reads); sim_maxseq = 0;
  memset (conf, 0, sizeof *conf);
  sim_vomm = chance (40); conf->system.prediction_algorithm = sim_vomm ? "VOMM" : "Markov";
  conf->model.cycle = 20; conf->model.usecorrelation = chance (50); int scale = chance (70) ? 1 : 1 << rnd (18); conf->model.minsize = sim_minsize = 1000 * rnd (6) * scale;
  conf->model.memfree = 50;
  for (int r = 0; r < NR; r++) { snprintf (rpath[r], 32, "/lib/r%d", (int) rnd (3)); roff[r] = r * 4096; rlen[r] = chance (97) ? chance (20) ? (size_t) scale * (1 + rnd (4)) * (scale > 1 ? 4096 / MIN (scale, 4096) : 1) : 1 + rnd (2500) * scale : ((size_t) 1 << (31 + rnd (8))) + rnd (2500); }
  for (int p = 0; p < NP; p++) {
    snprintf (spath[p], 32, "/bin/p%d", p); sp[p].nreg = 1 + rnd (4);
    for (int i = 0; i < sp[p].nreg; i++) sp[p].reg[i] = rnd (NR);
    for (int i = 0; i < sp[p].nreg; i++) sp[p].size += rlen[sp[p].reg[i]];
    sp[p].dies = chance (85) ? 0 : 1 + rnd (3);
  }
  if (chance (40)) { size_t z = sp[rnd (NP)].size; if (z < 0x7fffffff) conf->model.minsize = sim_minsize = z; }
  preload_state_load (NULL);
  if (sim_vomm) vomm_init ();
  last_acct = 0; last_scan = -1;
}
static void sim_live (void)
{ note ("| live:"); for (int p = 0; p < NP; p++) { if (chance (35)) sp[p].live = chance (50) ? 0 : 1 + rnd (3); if (chance (5) && !sp[p].known) sp[p].dies = 0; if (sp[p].live) note (" %dx%d", p, sp[p].live); } note (" "); }
static int queued[NP];
static void sim_scan (void)
{
  note ("scan@%d ", state->time);
  preload_spy_scan (NULL);
  for (int p = 0; p < NP; p++) {
    queued[p] = 0;
    if (sp[p].known) { int now = sp[p].live > 0; queued[p] = now != sp[p].running; sp[p].running = now; }
    else if (sp[p].live && !sp[p].bad) queued[p] = 2;
  }
}
static void sim_verify_running (void)
{
  int n = 0;
  for (int p = 0; p < NP; p++) if (sp[p].known) {
    preload_exe_t *e = exe_of (p); int c = 0;
    EXPECT (e != NULL, "a known program is registered");
    for (GSList *l = state->running_exes; l; l = l->next) c += l->data == e;
    EXPECT ((exe_is_running (e) != 0) == sp[p].running, "marked as running iff a live process executed it at the scan");
    EXPECT (c == sp[p].running, "on the running list exactly once iff running");
    n += sp[p].running;
  }
  EXPECT ((int) g_slist_length (state->running_exes) == n, "nothing else is on the running list");
}
static void sim_update (void)
{
  note ("update@%d ", state->time);
  int newly[NP] = { 0 }, changed[NP]; spair before[NP][NP]; memcpy (before, pr, sizeof pr);
  int period = state->time - last_acct;
  for (int p = 0; p < NP; p++) changed[p] = queued[p] == 1;
  memset (sim_reads, 0, sizeof sim_reads);
  preload_spy_update_model (NULL);
  last_acct = state->time;
  for (int p = 0; p < NP; p++) if (queued[p] == 2) {
    EXPECT (sim_reads[p] >= 1, "an unknown program is examined");
    if (sp[p].dies == 1 || sp[p].size == 0) { EXPECT (sim_reads[p] <= 2, "examined once"); continue; }
    if (sp[p].size < (size_t) sim_minsize) { sp[p].bad = 1; EXPECT (sim_reads[p] == 1, "examined once"); continue; }
    if (sp[p].dies) continue;
    newly[p] = sp[p].known = sp[p].running = 1; sp[p].t = 0; sp[p].seq_seen = 0;
  } else EXPECT (sim_reads[p] == 0, "no other program is examined");
  /* C08 */
  for (int p = 0; p < NP; p++) {
    preload_exe_t *e = exe_of (p); gpointer k, v;
    EXPECT ((e != NULL) == sp[p].known, "known iff it reached the minimum size");
    gboolean b = g_hash_table_lookup_extended (state->bad_exes, spath[p], &k, &v);
    EXPECT ((b != 0) == sp[p].bad, "remembered as too small iff it is");
    if (b) EXPECT (GPOINTER_TO_SIZE (v) == sp[p].size, "remembered with its size");
    if (!e) continue;
    EXPECT (!strcmp (e->path, spath[p]) && e->size == sp[p].size && (int) e->exemaps->len == sp[p].nreg, "a program's size is the sum of the lengths of its regions");
    if (newly[p]) { for (int q = 0; q < NP; q++) if (q != p && sp[q].known && exe_of (q)) EXPECT (exe_of (q)->seq != e->seq, "every program has its own number"); }
    if (!newly[p]) EXPECT (e->seq == sp[p].seq, "a program keeps its number");
  }
  for (int p = 0; p < NP; p++) if (newly[p]) { preload_exe_t *e = exe_of (p); EXPECT (e->seq > sim_maxseq, "a number never used before"); sp[p].seq = e->seq; }
  for (int p = 0; p < NP; p++) if (newly[p] && sp[p].seq > sim_maxseq) sim_maxseq = sp[p].seq;
  EXPECT (g_hash_table_size (state->bad_exes) <= NP, "no other program is remembered");
  /* regions: registered exactly those used */
  int refs[NR] = { 0 };
  for (int p = 0; p < NP; p++) if (sp[p].known) for (int i = 0; i < sp[p].nreg; i++) refs[sp[p].reg[i]]++;
  unsigned used = 0;
  for (int r = 0; r < NR; r++) { preload_map_t key = { .path = rpath[r], .offset = roff[r], .length = rlen[r] }; gpointer k, v; int same = 0;
    for (int q = 0; q < NR; q++) if (!strcmp (rpath[q], rpath[r]) && roff[q] == roff[r] && rlen[q] == rlen[r]) same += refs[q];
    gboolean f = g_hash_table_lookup_extended (state->maps, &key, &k, &v);
    EXPECT ((f != 0) == (same > 0), "a region is registered iff a program uses it");
    if (f) { EXPECT (((preload_map_t *) k)->refcount == same, "one reference per use"); used++; } }
  EXPECT (g_hash_table_size (state->maps) == used && state->maps_arr->len == used, "no region is left over");
  /* C06: running time */
  for (int p = 0; p < NP; p++) if (sp[p].known) {
    if (sp[p].running) sp[p].t += period;
    EXPECT (exe_of (p)->time == sp[p].t, "running time is credited once, to running programs");
    EXPECT (sp[p].t <= state->time, "no program ran longer than the clock");
    if (changed[p]) EXPECT (exe_of (p)->change_timestamp == state->time, "the change is timed now");
  }
  /* C03, C04: one chain per pair, accounted */
  for (int i = 0; i < NP; i++) if (sp[i].known) {
    preload_exe_t *a = exe_of (i); unsigned nk = 0;
    for (int j = 0; j < NP; j++) if (j != i && sp[j].known) {
      preload_exe_t *b = exe_of (j); int n; preload_markov_t *m = chain_of (a, b, &n); nk++;
      EXPECT (n == 1, "exactly one chain per pair");
      if (j < i) continue;
      spair *q = &pr[i][j];
      int actual = sp[i].running | sp[j].running << 1;
      if (!q->exists) {                            /* new chain: baseline */
        q->exists = 1; q->st = sw (m, a, m->state); q->ts = m->change_timestamp; q->t = (actual == 3) ? period : 0;
        int dep = 0;
        for (int x = 0; x < 4; x++) { dep += m->weight[x][x]; q->ttl[sw (m, a, x)] = m->time_to_leave[x]; for (int y = 0; y < 4; y++) q->w[sw (m, a, x)][sw (m, a, y)] = m->weight[x][y]; }
        EXPECT (q->ts == state->time && dep <= 1, "a new chain starts now");
      } else {
        if (changed[i] || changed[j]) {
          if (q->ts != state->time) {
            int o = q->st; q->w[o][o]++; q->w[o][actual]++;
            q->ttl[o] += ((state->time - q->ts) - q->ttl[o]) / q->w[o][o];
            q->st = actual; q->ts = state->time;
          }
        }
        if (actual == 3) q->t += period;
      }
      EXPECT (sw (m, a, m->state) == q->st && q->st == actual, "the recorded joint state is the actual one");
      EXPECT (m->change_timestamp == q->ts, "the state is timed from its last change");
      EXPECT (m->time == q->t, "joint running time is credited once, when both run");
      EXPECT (m->time <= a->time && m->time <= b->time, "joint running time is at most either running time");
      for (int x = 0; x < 4; x++) {
        int s = 0;
        for (int y = 0; y < 4; y++) { EXPECT (m->weight[x][y] == q->w[sw (m, a, x)][sw (m, a, y)], "transitions counted once"); if (y != x) s += m->weight[x][y]; }
        EXPECT (s == m->weight[x][x], "departures equal the sum of transitions");
        EXPECT (fabs (m->time_to_leave[x] - q->ttl[sw (m, a, x)]) <= 1e-6 * (1 + fabs (q->ttl[sw (m, a, x)])), "mean time in a state");
      }
    }
    EXPECT (a->markovs->len == nk, "no other chain is listed");
  }
  memset (queued, 0, sizeof queued);
}
static void sim_remove (void)
{
  for (int p = 0; p < NP; p++) if (sp[p].known && !sp[p].running && chance (15)) {
    note ("remove%d ", p);
    preload_state_unregister_exe (exe_of (p));
    sp[p].known = 0; queued[p] = 0;
    for (int j = 0; j < NP; j++) pr[p][j].exists = pr[j][p].exists = 0, memset (&pr[p][j], 0, sizeof (spair)), memset (&pr[j][p], 0, sizeof (spair));
    EXPECT (exe_of (p) == NULL, "a removed program is no longer registered");
  }
}
/* the daemon ends and starts again: the model is saved and loaded, some programs run by then */
static void sim_restart (void)
{
  note ("| restart:"); char *e = preload_state_write_file ("state"); EXPECT (e == NULL, "the model can be saved");
  preload_state_free ();
  for (int p = 0; p < NP; p++) { sp[p].live = chance (50) ? 0 : 1 + rnd (3); sp[p].bad = 0; if (sp[p].known) sp[p].running = sp[p].live > 0; if (sp[p].live) note (" %dx%d", p, sp[p].live); }
  preload_state_load ("state"); note ("@%d ", state->time); if (sim_vomm) vomm_init ();
  last_acct = state->time; EXPECT (g_hash_table_size (state->bad_exes) == 0, "programs remembered as too small are forgotten");
  EXPECT (!state->dirty && !state->model_dirty, "nothing is unsaved or waiting after the start");
  sim_maxseq = 0;
  for (int p = 0; p < NP; p++) {
    preload_exe_t *a = exe_of (p); EXPECT ((a != NULL) == sp[p].known, "what was saved is what is loaded"); if (!a) continue;
    EXPECT (a->time == sp[p].t, "nothing is credited at the start"); sp[p].seq = a->seq; if (a->seq > sim_maxseq) sim_maxseq = a->seq;
    for (int q = p + 1; q < NP; q++) if (sp[q].known) {
      preload_exe_t *b = exe_of (q); int n; EXPECT (b != NULL, "what was saved is what is loaded"); preload_markov_t *m = chain_of (a, b, &n); EXPECT (n == 1, "exactly one chain per pair");
      spair *r = &pr[p][q]; r->st = sp[p].running | sp[q].running << 1; r->ts = state->time;
      EXPECT (sw (m, a, m->state) == r->st, "the recorded joint state is the actual one after the start"); EXPECT (m->change_timestamp == state->time, "and is timed from the start");
      EXPECT (m->time == r->t, "no joint running time is credited at the start");
      for (int x = 0; x < 4; x++) { int z = sw (m, a, x); for (int y = 0; y < 4; y++) EXPECT (m->weight[x][y] == r->w[z][sw (m, a, y)], "nothing is counted at the start");
        EXPECT (fabs (m->time_to_leave[x] - r->ttl[z]) <= 1e-5 * (1 + fabs (r->ttl[z])), "no mean changes at the start"); r->ttl[z] = m->time_to_leave[x]; }
    }
  }
  sim_verify_running (); memset (queued, 0, sizeof queued);
}
static void sim_end (void)
{ for (int p = 0; p < NP; p++) sp[p].live = 0;
  preload_spy_scan (NULL); preload_spy_update_model (NULL);
  preload_state_free (); }
static void sim_case (void)
{
  sim_start ();
  for (int c = 0; c < 8; c++) {
    if (chance (8)) { sim_restart (); state->time += 1 + rnd (12); }
    sim_live ();
    sim_scan ();
    sim_verify_running ();
    if (sim_vomm && chance (50)) vomm_predict ();
    state->time += chance (92) ? rnd (12) : rnd (1000000);
    if (chance (30)) sim_remove ();
    sim_update ();
    sim_verify_running ();
    if (chance (30)) { sim_remove (); if (sim_vomm) vomm_predict (); }
    state->time += 1 + (chance (92) ? rnd (12) : rnd (1000000));
  }
  sim_end ();
}
#endif
