/* Chains between two programs (algorithm/markov.c): creation and removal (C03), accounting of state changes (C04),
 * correlation (C05), the walk over all of them (C06). */
#include "common.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "state.h"
#define VP_OWN_FREE
#include "../lib/glib_base.h"
#include <math.h>

preload_state_t state[1];
static preload_exe_t *ga, *gb, *go; static preload_markov_t *gk;
static int add_a, add_b, rem_a, rem_b, k_freed; static gpointer added;
static bool run_a, run_b;
static int walk; static int visited, visited_other;

gboolean exe_is_running (preload_exe_t *e)
{ CHECK (e == ga || e == gb, "C04.state: the programs of the chain are asked"); return e == ga ? run_a : run_b; }
void g_ptr_array_add (GPtrArray *a, gpointer p)
{ CHECK (a == ga->markovs || a == gb->markovs, "C03.chain: added to the lists of its two programs only");
  CHECK (!added || added == p, "C03.chain: the same record is added to both"); added = p; if (a == ga->markovs) add_a++; else add_b++; }
gboolean g_ptr_array_remove (GPtrArray *a, gpointer p)
{ CHECK (p == gk && !k_freed, "C03.chain: the chain itself is removed, while it exists");
  CHECK (a == ga->markovs || a == gb->markovs, "C03.chain: removed from the lists of its two programs only"); if (a == ga->markovs) rem_a++; else rem_b++; return TRUE; }
gboolean g_ptr_array_remove_fast (GPtrArray *a, gpointer p) { return g_ptr_array_remove (a, p); }
void g_free (gpointer p) { if (!p) return; CHECK (p == gk, "C03.frame: nothing else is freed"); k_freed++; }
gpointer g_malloc0_n (gsize n, gsize b) { return g_malloc0 (n * b); }

static preload_exe_t *any_exe (void)
{ preload_exe_t *e = malloc (sizeof *e); ASSUME (e != 0); e->markovs = malloc (sizeof (GPtrArray)); ASSUME (e->markovs != 0); return e; }
/* the list contract: every element once.  gk is in the lists of its two programs only (C03). */
void g_ptr_array_foreach (GPtrArray *l, GFunc f, gpointer d)
{
  CHECK (walk, "C03.frame: lists are walked by the walk only");
  preload_markov_t *k = malloc (sizeof *k); ASSUME (k != 0);
  bool before = nondet_bool ();
  k->a = nondet_bool () ? ga : nondet_bool () ? gb : go; k->b = go;
  if (before) f (k, d);
  if (l == ga->markovs || l == gb->markovs) f (gk, d);
  if (!before) f (k, d);
}
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  CHECK (t == state->exes, "C06.walk: all known programs are walked");
  walk++;
  bool swap = nondet_bool ();
  if (nondet_bool ()) f (0, go, d);
  f (0, swap ? gb : ga, d);
  if (nondet_bool ()) f (0, go, d);
  f (0, swap ? ga : gb, d);
  if (nondet_bool ()) f (0, go, d);
}
#ifdef VP_SQRT
double __CPROVER_uninterpreted_sqrt (double x);
double sqrt (double x)
{ double r = __CPROVER_uninterpreted_sqrt (x);
  /* monotone, so sqrt of something at least 1 is at least 1 and of a finite number finite */
  if (x >= 1.0 && x <= 1e80) { ASSUME (r >= 1.0 && r <= x); }
  return r; }
#endif
#include "algorithm/markov.c"

static void setup (void)
{
  HAVOC (state[0]);
  ga = any_exe (); gb = any_exe (); go = any_exe ();
  run_a = nondet_bool (); run_b = nondet_bool ();
  ASSUME (state->time >= 0);
  state->exes = malloc (1); ASSUME (state->exes != 0);
}
#define ACTUAL ((run_a ? 1 : 0) + (run_b ? 2 : 0))
static preload_markov_t *any_chain (void)
{
  preload_markov_t *k = malloc (sizeof *k); ASSUME (k != 0); k->a = ga; k->b = gb;
  ASSUME (k->state >= 0 && k->state <= 3);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ASSUME (k->weight[i][j] >= 0 && k->weight[i][j] < 500000000);
  ASSUME (k->change_timestamp >= -1 && k->change_timestamp <= state->time);
  return k;
}
#define ROW(k, i) ((gint64)(k)->weight[i][0] + (k)->weight[i][1] + (k)->weight[i][2] + (k)->weight[i][3])
/* departures from i equal the sum of the transitions from i to other states */
static bool sums (preload_markov_t *k)
{ return ROW (k, 0) == 2 * (gint64) k->weight[0][0] && ROW (k, 1) == 2 * (gint64) k->weight[1][1]
      && ROW (k, 2) == 2 * (gint64) k->weight[2][2] && ROW (k, 3) == 2 * (gint64) k->weight[3][3]; }

void h_compute (void)
{
  setup (); gk = any_chain ();
  CHECK (markov_compute_state (gk) == ACTUAL, "C04.state: bit 0 is the first program, bit 1 the second");
  COVER (ACTUAL == 3, "both");
}
void h_changed (void)
{
  setup (); gk = any_chain ();
  preload_markov_t k0 = *gk; int now = state->time; preload_exe_t a0 = *ga, b0 = *gb;
  int from = gk->state, to = ACTUAL;
  ASSUME (sums (gk));
  ASSUME (gk->change_timestamp == now || from != to);       /* called when a program of the pair has changed (C07) */
  preload_markov_state_changed (gk);
  if (k0.change_timestamp == now) {
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) CHECK (gk->weight[i][j] == k0.weight[i][j], "C04.again: a second report counts nothing");
      CHECK (gk->time_to_leave[i] == k0.time_to_leave[i] || k0.time_to_leave[i] != k0.time_to_leave[i], "C04.again: a second report changes no mean"); }
    CHECK (gk->state == k0.state && gk->change_timestamp == now && gk->time == k0.time, "C04.again: a second report changes nothing");
    COVER (1, "second report");
  } else {
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
      CHECK (gk->weight[i][j] == k0.weight[i][j] + (i == from && (j == from || j == to) ? 1 : 0), "C04.count: one departure and one transition are counted, nothing else");
    for (int i = 0; i < 4; i++) if (i != from)
      CHECK (gk->time_to_leave[i] == k0.time_to_leave[i] || k0.time_to_leave[i] != k0.time_to_leave[i], "C04.mean: other means keep their values");
    CHECK (gk->state == to && gk->change_timestamp == now, "C04.state: the new state is timed from now");
    CHECK (sums (gk), "C04.sums: departures equal the sum of transitions");
    CHECK (gk->time == k0.time, "C04.frame: joint running time is not touched");
    COVER (from == 0 && to == 3, "both started"); COVER (from == 3 && to == 1, "one stopped");
  }
  CHECK (gk->a == ga && gk->b == gb && ga->time == a0.time && gb->time == b0.time && ga->change_timestamp == a0.change_timestamp, "C04.frame: the programs are not changed");
  CHECK (!k_freed && !add_a && !add_b && !rem_a && !rem_b, "C04.frame: no list changes");
}
void h_mean (void)
{
  setup (); gk = any_chain ();
  int now = state->time, from = gk->state, n = gk->weight[from][from] + 1; double old = gk->time_to_leave[from]; gint64 spent = now - gk->change_timestamp;
  ASSUME (gk->change_timestamp != now && from != ACTUAL);
  ASSUME (now >= 0 && now < 2147483647 && gk->change_timestamp >= -1 && gk->change_timestamp <= now && gk->weight[from][from] >= 0);   /* times are the model clock's */
  preload_markov_state_changed (gk);
  double m = old + (spent - old) / n;
  CHECK (gk->time_to_leave[from] == m || m != m, "C04.mean: the running mean takes in the time spent in the old state");
  COVER (n > 1, "mean of several");
}
void h_new (void)
{
  setup (); gboolean init = nondet_bool ();
  time_t ca = ga->change_timestamp, cb = gb->change_timestamp; int now = state->time;
  ASSUME (ca <= now && cb <= now && ca >= -1 && cb >= -1);
  ASSUME (!init || ca == now || cb == now || ca <= 0 || cb <= 0);   /* a chain is made when one of the two is new */
  preload_markov_t *k = preload_markov_new (ga, gb, init);
  CHECK (k && k->a == ga && k->b == gb, "C03.chain: it links the two programs");
  CHECK (add_a == 1 && add_b == 1 && added == k && !rem_a && !rem_b, "C03.chain: it is listed once with either program");
  CHECK (k->time == 0, "C03.chain: no joint running time yet");
  if (init) {
    CHECK (k->state == ACTUAL && k->change_timestamp == now, "C04.new: the recorded state is the actual one, timed from now");
    CHECK (sums (k), "C04.sums: departures equal the sum of transitions in a new chain");
    gint64 n = 0; for (int i = 0; i < 4; i++) n += k->weight[i][i];
    CHECK (n <= 1, "C04.new: at most the one change that is just happening is counted");
    for (int i = 0; i < 4; i++) CHECK (k->time_to_leave[i] == (k->weight[i][i] ? (double) (now - (ca < now ? ca : cb)) : 0), "C04.new: the mean of the one departure is the time since the earlier change");
    COVER (n == 1, "change at registration"); COVER (n == 0, "none");
  } else {
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) CHECK (k->weight[i][j] == 0, "C03.chain: nothing counted"); CHECK (k->time_to_leave[i] == 0, "C03.chain: no mean"); }
    COVER (1, "plain");
  }
  CHECK (ga->change_timestamp == ca && gb->change_timestamp == cb, "C03.frame: the programs are not changed");
}
void h_free (void)
{
  setup (); gk = any_chain (); preload_exe_t *from = nondet_bool () ? 0 : nondet_bool () ? ga : gb;
  preload_markov_free (gk, from);
  CHECK (k_freed == 1, "C03.chain: it is freed once");
  CHECK (rem_b == (from == gb ? 0 : 1) && rem_a == (from == ga ? 0 : 1), "C03.chain: it leaves the list of the other program, or both");
  COVER (from == ga, "from a"); COVER (from == gb, "from b"); COVER (!from, "from neither");
}
static int token;
static void visit (gpointer k, gpointer d) { CHECK (d == &token, "C06.walk: the caller's data is passed on"); if (k == gk) visited++; else visited_other++; }
void h_walk (void)
{
  setup (); gk = any_chain ();
  preload_markov_foreach (visit, &token);
  CHECK (visited == 1, "C06.walk: every chain is visited exactly once"); COVER (visited_other > 0, "others, too");
}
/* ---- C05 */
static double corr (void) { return preload_markov_correlation (gk); }
static void times (gint64 *t, gint64 *a, gint64 *b, gint64 *ab)
{ *t = state->time; *a = ga->time; *b = gb->time; *ab = gk->time; }
void h_corr_zero (void)
{
  setup (); gk = any_chain (); gint64 t, a, b, ab; times (&t, &a, &b, &ab);
  ASSUME (a <= 0 || b <= 0 || a >= t || b >= t);
  CHECK (corr () == 0.0, "C05.zero: no correlation with a program that ran never or always"); COVER (a == t && b > 0, "always");
}
void h_corr_ref (void)
{
  setup (); gk = any_chain (); gint64 t, a, b, ab; times (&t, &a, &b, &ab);
  ASSUME (0 < a && a < t && 0 < b && b < t && ab >= 0 && ab <= t);
  double num = ((double) t * ab) - ((double) a * b), den2 = ((double) a * b) * ((double) (t - a) * (t - b));
  double ref = num / sqrt (den2), r = corr ();
  ref = ref > 1.0 ? 1.0 : ref < -1.0 ? -1.0 : ref;
  CHECK (r == ref || ref != ref, "C05.pearson: it is the Pearson coefficient"); COVER (r > 0, "positive");
}
void h_corr_range (void)
{
  setup (); gk = any_chain (); gint64 t, a, b, ab; times (&t, &a, &b, &ab);
  double r = corr ();
  CHECK (r >= -1.0 && r <= 1.0, "C05.range: a number from -1 to 1, for any times"); COVER (r > 0, "positive"); COVER (r < 0, "negative");
}
#ifndef VP_SIGN_BITS
#define VP_SIGN_BITS 8
#endif
void h_corr_sign (void)
{
  setup (); gk = any_chain (); gint64 t, a, b, ab; times (&t, &a, &b, &ab);
  ASSUME (0 < a && a < t && 0 < b && b < t && ab >= 0 && ab <= t && t < (1 << VP_SIGN_BITS));
  double r = corr (); gint64 x = t * ab, y = a * b;
  CHECK ((r > 0) == (x > y) && (r < 0) == (x < y), "C05.sign: positive, zero or negative as joint time demands"); COVER (r < 0, "negative");
}
