/* C09, C30 (and the outer steps of C10): preload_prophet_predict - the order of the phases, one arbitrary pair record's bid for its programs, one
 * arbitrary program's bid for one of its regions, the ranking, and what is handed to readahead.
 * The walks are stubs that carry an induction: at an arbitrary point of the walk (any partial sum so far) one arbitrary
 * element is visited and the step is checked; the result of the walk is then any value the steps can add up to. */
#include "common.h"
#include "prophet.h"
#include "log.h"
#include "conf.h"
#include "state.h"
#include "readahead.h"
#include "vomm.h"
#include "exe.h"
#include "markov.h"
#include "proc.h"
#include <math.h>
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
static preload_exe_t *A, *B, *E; static preload_markov_t *K; static preload_map_t *M, *M2; static preload_exemap_t *L;
static bool vomm_on, E_runs; static double corr; static int corr_calls;
static int exes_zeroed, maps_zeroed, bids_exes, bids_maps, sorted, readout, link_walks, memstat_calls;
static double exp_arg, exp_val; static int exps, logs, cur_state; static double log_val[3]; static bool bid_a[3], bid_b[3];
static double p_starts (int y, double ex);
static bool same (double a, double b) { return a == b || (a != a && b != b); }
double exp (double x)
{ exps++; exp_arg = x; HAVOC (exp_val); ASSUME (exp_val >= 0 && exp_val <= 1);        /* for x up to 0 */
#ifdef VP_FORMULA
  CHECK (same (x, -conf->model.cycle * 1.5 / K->time_to_leave[K->state]), "C09.change: the state changes within one and a half cycles at the rate of one over the mean time in it");
#endif
  return exp_val; }
double log (double x)
{
  CHECK (logs < 2, "C09.bid: at most one bid for each program of a pair");
#ifdef VP_FORMULA
  CHECK (exps == logs + 1, "C09.bid: every bid uses the probability of a change");
#if VP_STATE != 1
  bid_a[logs] = same (x, 1 - p_starts (1, exp_val));
#endif
#if VP_STATE != 2
  bid_b[logs] = same (x, 1 - p_starts (2, exp_val));
#endif
  CHECK (bid_a[logs] || bid_b[logs], "C09.bid: log (1 - |correlation| x P(change within 1.5 cycles) x share of the changes that start the program)");
  log_val[logs] = logs ? -2.0 : -1.0; return log_val[logs++];
#else
  HAVOC (log_val[logs]); ASSUME (log_val[logs] <= 0 && log_val[logs] > -800);          /* for x in (0,1]: h_range */
  return log_val[logs++];
#endif
}
double fabs (double x) { return x < 0 ? -x : x; }
gboolean exe_is_running (preload_exe_t *e) { CHECK (e == E, "C30.running: of the program whose regions are bid for"); return E_runs; }
double preload_markov_correlation (preload_markov_t *m) { CHECK (m == K, "C09.corr: of the pair itself"); corr_calls++; return corr; }
gboolean preload_is_vomm_algorithm (void) { return vomm_on; }
/* the probability that program y starts, given the exponential found by the code */
static double p_starts (int y, double ex)
{
  int s = K->state;
  double next = K->weight[s][y] + K->weight[s][3]; next /= K->weight[s][s] + 0.01;
  double c = conf->model.usecorrelation ? corr : 1.0;
  return fabs (c) * (1 - ex) * next;
}
static void one_chain (GFunc f, gpointer d)
{
  exps = logs = 0;
  preload_exe_t a0 = *A, b0 = *B; preload_markov_t k0 = *K;
  f (K, d);
  int s = k0.state; bool can = k0.weight[s][s] != 0 && k0.time_to_leave[s] > 1;
  CHECK (logs == (!can || s == 3 ? 0 : s == 0 ? 2 : 1), "C09.bid: one bid for each program of the pair that is not running");
#ifdef VP_FORMULA        /* the bids are recognised by their values */
  if (can && !(s & 1)) { CHECK (A->lnprob == -1.0 || (s == 0 && A->lnprob == -2.0), "C09.add: the bid is added to the program's score"); CHECK (A->lnprob == -1.0 ? bid_a[0] : bid_a[1], "C09.bid: the bid for a program is by the share of changes that start that program"); }
  if (can && !(s & 2)) { CHECK (B->lnprob == -1.0 || (s == 0 && B->lnprob == -2.0), "C09.add: the bid is added to the program's score"); CHECK (B->lnprob == -1.0 ? bid_b[0] : bid_b[1], "C09.bid: the bid for a program is by the share of changes that start that program"); }
  if (can && s == 0) CHECK (A->lnprob != B->lnprob, "C09.bid: each program has its own bid");
#endif
#ifdef VP_ADD
  if (can && !(s & 1)) CHECK (A->lnprob == a0.lnprob + log_val[0] || (s == 0 && A->lnprob == a0.lnprob + log_val[1]), "C09.add: the bid is added to the program's score");
  if (can && !(s & 2)) CHECK (B->lnprob == b0.lnprob + log_val[0] || (s == 0 && B->lnprob == b0.lnprob + log_val[1]), "C09.add: the bid is added to the program's score");
#endif
#ifdef VP_COND
  if (!can || (s & 1)) CHECK (same (A->lnprob, a0.lnprob), "C09.running: no bid for a running program, or from a state never left or left within a second");
  if (!can || (s & 2)) CHECK (same (B->lnprob, b0.lnprob), "C09.running: no bid for a running program, or from a state never left or left within a second");
  CHECK (!corr_calls || conf->model.usecorrelation, "C09.corr: correlation counts only when configured");
  CHECK (A->time == a0.time && A->size == a0.size && A->path == a0.path && B->time == b0.time && B->path == b0.path && A->running_timestamp == a0.running_timestamp, "C09.frame: only scores change");
  CHECK (K->state == k0.state && K->time == k0.time && K->change_timestamp == k0.change_timestamp && K->weight[1][3] == k0.weight[1][3] && K->a == A && K->b == B, "C09.frame: pair records do not change");
  COVER (can && s == 0, "both bid for"); COVER (can && s == 1, "second bid for"); COVER (!can, "no bid");
#endif
}
void preload_markov_foreach (GFunc f, gpointer d)
{
  CHECK (!vomm_on && exes_zeroed == 1 && bids_exes == 0 && bids_maps == 0, "C09.order: pair records bid once, after the reset and before the regions");
  bids_exes++;
#ifdef VP_CHAIN
#ifdef VP_FORMULA
  A->lnprob = B->lnprob = 0;
#else
  HAVOC (A->lnprob); HAVOC (B->lnprob); ASSUME (A->lnprob <= 0 && A->lnprob > -1e290 && B->lnprob <= 0 && B->lnprob > -1e290);
#endif
  one_chain (f, d);
  STOP ();
#endif
  HAVOC (E->lnprob); ASSUME (E->lnprob <= 0);
}
void vomm_predict (void)
{
  CHECK (vomm_on && exes_zeroed == 1 && maps_zeroed == 1 && bids_exes == 0 && bids_maps == 0, "C10.order: the sequence predictor bids once, after the reset and before the regions");
  bids_exes++; HAVOC (E->lnprob); ASSUME (E->lnprob <= 0);
}
void preload_exe_foreach_exemap (preload_exe_t *e, GFunc f, gpointer d)
{
  CHECK (e == E, "C30.links: of the program itself"); link_walks++;
#ifdef VP_STEP
  HAVOC (M->lnprob); HAVOC (M2->lnprob);                     /* any partial sum */
  preload_map_t m0 = *M; double other = M2->lnprob, score = E->lnprob, want = E_runs ? M->lnprob + 1 : M->lnprob + score;
  f (L, d);
  CHECK (same (M->lnprob, want), "C30.sum: a region's score grows by the program's score, by 1 if the program runs");
  CHECK (same (M2->lnprob, other) && same (E->lnprob, score) && L->map == M && M->length == m0.length && M->offset == m0.offset && M->refcount == m0.refcount, "C30.frame: nothing else changes");
  COVER (E_runs, "a running program bids"); COVER (!E_runs && score < 0, "a program bids");
  STOP ();
#endif
}
guint g_hash_table_size (GHashTable *t) { CHECK (t == state->exes, "C09.walk: the known programs are counted"); guint n = nondet_uint (); ASSUME (n >= 1); return n; }   /* one arbitrary program of one or more */
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  CHECK (t == state->exes, "C09.walk: all known programs are walked");
  preload_exe_t e0 = *E;
  int walks = link_walks;
  if (bids_exes == 0) {
    f (0, E, d); exes_zeroed++;
    CHECK (E->lnprob == 0, "C09.zero: every program starts at zero");
  } else {
    f (0, E, d);
    CHECK (same (E->lnprob, e0.lnprob), "C30.frame: a program's score does not change afterwards");
    if (link_walks != walks) { CHECK (link_walks == walks + 1, "C30.once: every link of a program bids once"); bids_maps++; }
  }
  CHECK (E->time == e0.time && E->size == e0.size && E->path == e0.path && E->running_timestamp == e0.running_timestamp && E->update_time == e0.update_time, "C09.frame: only scores change");
}
void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer d)
{
  CHECK (a == state->maps_arr && bids_maps == 0 && maps_zeroed == 0, "C09.zero: all regions are walked before the bids"); maps_zeroed++;
  preload_map_t m0 = *M;
  f (M, d);
  CHECK (M->lnprob == 0, "C09.zero: every region starts at zero");
  CHECK (M->length == m0.length && M->offset == m0.offset && M->refcount == m0.refcount && M->seq == m0.seq && M->block == m0.block, "C09.frame: only scores change");
}
void g_ptr_array_sort (GPtrArray *a, GCompareFunc f)
{
  CHECK (a == state->maps_arr && bids_maps == 1 && bids_exes == 1 && exes_zeroed == 1 && maps_zeroed == 1 && !sorted, "C30.order: reset, then bids for programs, then bids for regions, then ranking, once each");
  sorted++;
#ifdef VP_RANK
  preload_map_t *p = M, *q = M2; HAVOC (M->lnprob); HAVOC (M2->lnprob);
  ASSUME (M->lnprob == M->lnprob && M2->lnprob == M2->lnprob);
  int c = f ((gconstpointer) &p, (gconstpointer) &q);
  CHECK ((c < 0) == (M->lnprob < M2->lnprob) && (c > 0) == (M->lnprob > M2->lnprob), "C30.rank: regions are ranked by score, lowest first");
  COVER (c < 0, "less"); COVER (c > 0, "more"); COVER (c == 0, "equal");
  STOP ();
#endif
}
static gpointer vp_at (GPtrArray *a, int i) { CHECK (a == state->maps_arr && i == 0, "C30.read: the ranked list is read from its beginning"); readout++; STOP (); return 0; }
#undef g_ptr_array_index
#define g_ptr_array_index(a, i) vp_at (a, i)
void proc_get_memstat (preload_memory_t *m)
{ CHECK (sorted == 1, "C30.order: readahead follows the ranking"); memstat_calls++; m->total = m->free = m->available = m->cached = m->buffers = 0; }
int preload_readahead (preload_map_t **f, int n) { CHECK (0, "C30.read: nothing is read without looking at the list"); return 0; }
#include "algorithm/prophet.c"

static void *fresh (size_t n) { void *p = malloc (n); ASSUME (p != 0); return p; }
static void setup (void)
{
  HAVOC (state[0]); HAVOC (conf[0]); HAVOC (vomm_on); HAVOC (E_runs); HAVOC (corr); HAVOC (preload_log_level);
  conf->system.prediction_algorithm = 0;
  ASSUME (corr >= -1 && corr <= 1);                          /* C05 */
  ASSUME (conf->model.cycle >= 0 && conf->model.cycle <= 1000000);
  state->exes = fresh (8); state->maps_arr = fresh (sizeof (GPtrArray)); 
  A = fresh (sizeof *A); B = fresh (sizeof *B); E = fresh (sizeof *E); K = fresh (sizeof *K); M = fresh (sizeof *M); M2 = fresh (sizeof *M2); L = fresh (sizeof *L);
  E->path = 0; M->path = 0; K->a = A; K->b = B; L->map = M;
  ASSUME (K->state >= 0 && K->state <= 3);
  for (int i = 0; i < 4; i++) {
    gint64 s = 0; for (int j = 0; j < 4; j++) { ASSUME (K->weight[i][j] >= 0 && K->weight[i][j] < 500000000); if (j != i) s += K->weight[i][j]; }
    ASSUME (s == K->weight[i][i]);                           /* C04 */
  }
}
void h_predict (void)
{
  setup (); bool empty = state->maps_arr->len == 0;
  preload_prophet_predict (0);
  CHECK (sorted == 1 && bids_exes == 1 && bids_maps == 1, "C30.order: all phases happen");
  CHECK (memstat_calls == 1, "C30.read: the ranked list is handed to readahead");
#ifdef VP_PHASES
  COVER (vomm_on && empty, "sequence predictor"); COVER (!vomm_on && empty, "Markov predictor");
#endif
}
void h_chain (void)
{
  setup (); vomm_on = 0;
#ifdef VP_STATE
  K->state = VP_STATE; conf->model.usecorrelation = VP_CORR;
#endif
  preload_prophet_predict (0); CHECK (0, "C09.order: the pair records bid");
}
/* lemmas over the formula: its value is a probability below 1, and a bid never raises a score */
#define MAXQ 0.999999999999
void h_share (void)     /* n of w changes start the program */
{ int n = nondet_int (), w = nondet_int (); ASSUME (n >= 0 && n <= w && w >= 1 && w < 500000000);
  double q = n; q /= w + 0.01; CHECK (q >= 0 && q <= MAXQ, "C09.range: a share of the changes is from 0 to below 1"); }
void h_range (void)
{ double c = nondet_double (), e = nondet_double (), q = nondet_double (), p;
  ASSUME (e >= 0 && e <= 1); double u = 1 - e; CHECK (u >= 0 && u <= 1, "C09.range: a probability of change is from 0 to 1");
  HAVOC (u); ASSUME (u >= 0 && u <= 1 && c >= 0 && c <= 1); p = c * u; CHECK (p >= 0 && p <= 1, "C09.range: correlation times a probability is from 0 to 1");
  HAVOC (p); ASSUME (p >= 0 && p <= 1 && q >= 0 && q <= MAXQ); double r = p * q; CHECK (r >= 0 && r < 1, "C09.range: the probability that a program starts is from 0 to below 1");
  HAVOC (r); ASSUME (r >= 0 && r < 1); double x = 1 - r; CHECK (x > 0 && x <= 1, "C09.range: the logarithm is taken of a probability above 0");
  double s = nondet_double (), l = nondet_double (); ASSUME (s <= 0 && s > -1e290 && l <= 0 && l > -800); double t = s + l;
  CHECK (t <= s && t > -1e300, "C09.range: a bid never raises a score, and scores are numbers"); }
void h_rate (void)
{ int c = nondet_int (); double t = nondet_double (); ASSUME (c >= 0 && c <= 1000000 && t > 1); double x = -c * 1.5 / t; CHECK (x <= 0, "C09.range: the exponential is taken of a number up to 0"); }
