/* C10: the bids of the sequence predictor (vomm.c): predict_ppm, predict_dg_fallback, predict_global_frequency, vomm_predict.
 * A context has any number of successors: a walk is cut at its first step, the loop's variables and the world are made any that
 * agree with the invariant, one arbitrary successor is handed out or the walk ends, and the next step checks what was done.  Who is running is exe.c's (C03), that scores start at zero is prophet.c's (C09). */
#include "common.h"
#include "vomm.h"
#include "log.h"
#include "conf.h"
#include "prophet.h"
#include "state.h"
#include "exe.h"
#include <math.h>
#define VP_NO_LOG
#include "../lib/glib_base.h"
#ifdef VP_FORMULA       /* only the formulas; everything else is in the bundle without */
#undef CHECK
#undef COVER
#define CHECK(c, text) ((void) 0)
#define COVER(c, text) ((void) 0)
#endif
#define FORM(c, text) __CPROVER_assert ((c), text)
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
static int *l_total, *l_max; static struct _vomm_node_t **l_best;
static _Bool l_set;
static void vp_locals (int *t, int *m, struct _vomm_node_t **b) { l_total = t; l_max = m; l_best = b; l_set = 1; }
void vp_unfamiliar (void);       /* no body: a walk whose variables are not known leaves the bundle undecided */
static struct { gint64 sum; int walks, c, logs, steps, osteps; _Bool going, handed, any, runs, osgoing, oshanded, oswalked; GHashTableIter *it, *oit; double arg, val, before, want; } G;
static struct _vomm_node_t *N, *C, *P; static preload_exe_t *X;
static double vp_log11;
#ifdef VP_ALL
static int w_ppm, w_dg, glob; static struct _vomm_node_t *W;
static void predict_ppm (struct _vomm_node_t *node)
  __CPROVER_requires (node != 0) __CPROVER_assigns (w_ppm) __CPROVER_ensures (w_ppm == __CPROVER_old (w_ppm) + (node == W ? 1 : 0));
static void predict_dg_fallback (struct _vomm_node_t *node)
  __CPROVER_requires (node != 0) __CPROVER_assigns (w_dg) __CPROVER_ensures (w_dg == __CPROVER_old (w_dg) + (node == W ? 1 : 0));
static void predict_global_frequency (void) __CPROVER_requires (1) __CPROVER_assigns (glob) __CPROVER_ensures (glob == __CPROVER_old (glob) + 1);
#endif
#include "algorithm/vomm.c"

double fmax (double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double fmin (double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fabs (double a) { return a < 0 ? -a : a; }
static _Bool same (double a, double b) { return a == b || (a != a && b != b); }
gboolean exe_is_running (preload_exe_t *e) { CHECK (G.handed && e == X, "C10.running: of the successor itself"); return G.runs; }
double log (double x)
{
  CHECK (!G.logs, "C10.once: a successor is bid for once"); G.logs++; G.arg = x;
#ifdef VP_FORMULA
#if defined VP_PPM
  FORM (same (x, 1.0 - fmax (1e-9, fmin (1.0 - 1e-9, (double) G.c / (int) G.sum))), "C10.bid: the logarithm of one minus the share of the context's observations");
#elif defined VP_GLOBAL
  double g = 0.1 + ((double) G.c / (int) G.sum) * 0.4; if (g > 0.5) g = 0.5; FORM (same (x, 1.0 - g), "C10.bid: the global bid is by the share of all observations, damped to 0.1 to 0.5");
#endif
#endif
#ifdef VP_DG
  CHECK (x == 1.1, "C10.bid: the fallback bid is the logarithm of 1.1");
#endif
  double r = nondet_double (); G.val = r; CHECK (X->lnprob == G.before, "C10.add: the bid is added to the score");
#ifdef VP_DG
  ASSUME (r > 0 && r < 1); G.want = X->lnprob - r; return r;         /* log 1.1 */
#else
  ASSUME (r <= 0 && r > -800); G.want = X->lnprob + r; return r;     /* of a number from above 0 to 1 */
#endif
}
#if defined VP_PPM
#define BIDS (G.walks == 1 && C->exe && !G.runs)
#elif defined VP_GLOBAL
#define BIDS (G.walks == 1 && C->exe && !G.runs && G.c > 0)
#else
#define BIDS (C->exe && !G.runs && G.c > 0)
#endif
static void settle (void)
{
  if (!G.handed) return; G.handed = 0;
  CHECK (C->count == G.c, "C10.frame: prediction learns nothing");
  if (!BIDS) CHECK (X->lnprob == G.before && !G.logs, "C10.running: no bid for a running program, nor before all observations are counted");
  else { CHECK (G.logs == 1, "C10.all: every successor that is not running gets a bid"); CHECK (X->lnprob == G.want, "C10.add: the bid is added to the score"); }
}
#ifndef VP_ALL
static void inv (void)
{
  if (l_total) CHECK (*l_total == G.sum, "C10.sum: all observations are counted");
  if (l_best && G.walks == 0) CHECK (*l_best ? *l_max <= G.sum : G.sum == 0 && *l_max == -1, "C10.any: a context with observations is not passed over");
}
/* any number of steps of the walk later */
static void cut (void)
{
  if (!l_set) vp_unfamiliar ();
  inv (); if (G.walks) return;
  HAVOC (G.sum); ASSUME (G.sum >= 0 && G.sum < (1l << 31)); HAVOC (G.any); ASSUME (G.any || G.sum == 0); if (l_total) *l_total = (int) G.sum;
  if (l_best) { HAVOC (*l_max); ASSUME (*l_max >= -1 && *l_max <= G.sum); if (G.sum > 0 || nondet_bool ()) *l_best = C; else { *l_best = 0; *l_max = -1; } }
}
static void hand (gpointer *k, gpointer *v)
{
  int c = nondet_int (); ASSUME (c >= 0); double s = nondet_double (); ASSUME (s <= 0 && s > -1e290);
  if (G.walks == 0) { ASSUME (G.sum + c < (1l << 31)); G.sum += c; } else ASSUME (c <= G.sum);   /* the same successors again */
  C->count = c; G.c = c; if (nondet_bool ()) C->exe = X; else C->exe = 0; X->lnprob = s; G.before = s; G.runs = nondet_bool (); G.logs = 0; G.handed = 1; G.any = 1; G.want = s;
  if (k) *k = X->path; if (v) *v = C;
}
#endif
#ifdef VP_GLOBAL
void g_hash_table_iter_init (GHashTableIter *i, GHashTable *t)
{
  settle ();
  if (t == vomm_system.root->children) { CHECK (!G.osgoing && !G.going, "C10.walk: one walk at a time"); G.osgoing = 1; G.oshanded = 0; G.oit = i; G.osteps = 0; }
  else { CHECK (G.osgoing && G.oshanded && !G.going && !G.oswalked && t == P->children && i != G.oit, "C10.walk: the successors of every context are gone through once"); G.going = 1; G.it = i; G.steps = 0; }
}
gboolean g_hash_table_iter_next (GHashTableIter *i, gpointer *k, gpointer *v)
{
  settle ();
  if (i == G.oit) {
    CHECK (G.osgoing && !G.going, "C10.walk: every context is gone through to its end"); CHECK (!G.oshanded || G.oswalked, "C10.walk: every context is gone through"); G.oswalked = 0;
    if (G.osteps++) { inv (); STOP (); } cut ();
    if (nondet_bool ()) { G.osgoing = 0; G.oshanded = 0; G.walks++; return FALSE; }
    G.oshanded = 1; if (k) *k = X->path; if (v) *v = P; return TRUE;
  }
  CHECK (G.going && i == G.it, "C10.walk: a walk is over at its end");
  if (G.steps++) { inv (); STOP (); } cut ();
  if (nondet_bool ()) { G.going = 0; G.oswalked = 1; return FALSE; }
  hand (k, v); return TRUE;
}
#elif !defined VP_ALL
void g_hash_table_iter_init (GHashTableIter *i, GHashTable *t) { settle (); CHECK (t == N->children && !G.going, "C10.walk: the successors of the context are gone through"); G.going = 1; G.it = i; G.steps = 0; }
gboolean g_hash_table_iter_next (GHashTableIter *i, gpointer *k, gpointer *v)
{
  CHECK (G.going && i == G.it, "C10.walk: a walk is over at its end"); settle ();
  if (G.steps++) { inv (); STOP (); } cut ();
  if (nondet_bool ()) { G.going = 0; G.walks++; return FALSE; }
  hand (k, v); return TRUE;
}
#endif
#ifdef VP_ALL
static preload_exe_t *he[5]; static vomm_node_t *hn[5], *cc; static guint sz[6]; static _Bool same_as_cc; 
guint g_hash_table_size (GHashTable *t) { for (int i = 0; i < 5; i++) if (t == hn[i]->children) return sz[i]; CHECK (t == cc->children, "C10.context: the size of a context considered"); return sz[5]; }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{ CHECK (t == vomm_system.root->children, "C10.context: a recent program's context is found under the root"); for (int i = 0; i < 5; i++) if (k == he[i]->path) return sz[i] == 99999 ? 0 : hn[i]; CHECK (0, "C10.context: by the recent program's path"); return 0; }
#endif
static vomm_node_t *node (void) { vomm_node_t *n = malloc (sizeof *n); ASSUME (n != 0); n->children = malloc (8); ASSUME (n->children != 0); n->exe = 0; n->parent = 0; return n; }
static void setup (void)
{
  X = malloc (sizeof *X); ASSUME (X != 0); X->path = vp_str_new (nondet_u64 (), '/'); N = node (); C = node (); P = node (); vomm_system.root = node (); vomm_system.current_context = 0; vomm_system.history = 0; vomm_system.history_length = 0;
  G.sum = 0; G.walks = G.c = G.logs = 0; G.going = G.handed = G.any = G.runs = G.osgoing = G.oshanded = G.oswalked = 0; G.it = G.oit = 0; G.arg = G.val = G.before = G.want = 0; G.steps = G.osteps = 0; l_total = l_max = 0; l_best = 0; l_set = 0;
}
#if defined VP_PPM
void h_ppm (void)
{
  setup (); predict_ppm (N); CHECK (!G.going && !G.handed, "C10.walk: to the end"); CHECK (G.walks == 2 || (G.walks == 1 && G.sum == 0), "C10.all: once all observations of the context are counted, its successors are bid for");
  COVER (G.walks == 2, "bids"); COVER (G.walks == 1 && G.any, "no observations");
}
#elif defined VP_DG
void h_dg (void) { setup (); predict_dg_fallback (N); CHECK (!G.going && !G.handed && G.walks == 1, "C10.walk: to the end"); COVER (G.any, "a successor"); }
#elif defined VP_GLOBAL
void h_global (void)
{
  setup (); predict_global_frequency (); CHECK (!G.going && !G.osgoing && !G.handed, "C10.walk: to the end"); CHECK (G.walks == 2 || (G.walks == 1 && G.sum == 0), "C10.all: once all observations are counted, all successors are bid for");
  COVER (G.walks == 2, "bids"); COVER (G.walks == 1 && G.any, "no observations");
}
#else
void h_all (void)
{
  setup (); static GList l[5]; int n = nondet_int (); ASSUME (n >= 0 && n <= 5);          /* at most five: C11 */
  for (int i = 0; i < 5; i++) { he[i] = malloc (sizeof **he); ASSUME (he[i] != 0); he[i]->path = vp_str_new (i, '/'); hn[i] = node (); sz[i] = nondet_uint (); }
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (j < i && nondet_bool ()) { he[i] = he[j]; hn[i] = hn[j]; sz[i] = sz[j]; }     /* a program may be there again */
  for (int i = 0; i < 5; i++) { l[i].data = he[i]; l[i].prev = 0; l[i].next = 0; if (i + 1 < n) l[i].next = &l[i + 1]; if (i) l[i].prev = &l[i - 1]; }
  if (n) vomm_system.history = l; vomm_system.history_length = n; cc = node (); sz[5] = nondet_uint (); ASSUME (sz[5] != 99999); int k = nondet_int ();
  if (k == 1) cc = vomm_system.root; for (int i = 0; i < 5; i++) if (k == 2 + i && sz[i] != 99999) { cc = hn[i]; sz[5] = sz[i]; } vomm_system.current_context = cc; if (k == 10) vomm_system.current_context = 0;
  int wi = nondet_int (); ASSUME (wi >= 0 && wi < 6); W = cc; for (int i = 0; i < 5; i++) if (wi == i) W = hn[i]; guint size = sz[5]; for (int i = 0; i < 5; i++) if (wi == i) size = sz[i];
  _Bool root = nondet_bool (); vomm_node_t *r = vomm_system.root; if (!root) vomm_system.root = 0; w_ppm = w_dg = glob = 0;
  vomm_predict ();
  int want = 0, wdg = 0; for (int i = 0; i < 5; i++) if (i < n && hn[i] == W && sz[i] != 99999) want++; if (k != 10 && W == cc && cc != r) { want++; wdg = 1; }
  if (!root) CHECK (!w_ppm && !w_dg && !glob, "C10.context: without a tree there are no bids");
  else { CHECK (glob == 1, "C10.all: the global bids are made, once"); if (size > 0) { CHECK (w_ppm == want, "C10.context: each recent program's context, and the deep one, is considered"); CHECK (w_dg == wdg, "C10.context: the fallback is for the deep context, once"); } }
  if (W == r) CHECK (!w_dg && !w_ppm, "C10.context: the root is not a deep context");
  COVER (want == 6, "the same program over and over"); COVER (wdg == 1 && size > 0 && want == 1, "deep context"); COVER (n == 0 && root, "no history");
}
#endif
/* lemmas over the formulas */
void h_add (void) { double s = nondet_double (), r = nondet_double (); ASSUME (s <= 0 && s > -1e290 && r <= 0 && r > -800); double t = s + r; CHECK (t <= s && t > -1e300, "C10.lower: a bid never raises a score, and scores stay numbers"); ASSUME (r > -1); t = s - (-r); CHECK (t <= s && t > -1e300, "C10.lower: nor does the fallback bid"); }
void h_share (void) { int n = nondet_int (), t = nondet_int (); ASSUME (n >= 0 && n <= t && t >= 1); double q = (double) n / t; CHECK (q >= 0 && q <= 1, "C10.range: a share of the observations is from 0 to 1"); }
void h_mono (void)    /* a larger share gives at least as strong a bid (division and log are monotone: IEEE 754, libm) */
{
  double p = nondet_double (), q = nondet_double (); ASSUME (p >= 0 && p <= q && q <= 1); double x = fmax (1e-9, fmin (1.0 - 1e-9, p)), y = fmax (1e-9, fmin (1.0 - 1e-9, q)); CHECK (x <= y && x >= 1e-9 && y <= 1.0 - 1e-9, "C10.mono: shares are kept in order, away from 0 and 1");
  HAVOC (x); HAVOC (y); ASSUME (x <= y && x >= 1e-9 && y <= 1.0 - 1e-9); double a = 1.0 - x, b = 1.0 - y; CHECK (b <= a && b > 0 && a <= 1, "C10.mono: a larger share gives at least as strong a bid");
}
void h_mono_global (void)
{
  double m, n; HAVOC (m); HAVOC (n); ASSUME (m <= n && m >= 0 && n <= 1); double g = 0.1 + m, h = 0.1 + n; CHECK (g <= h && g >= 0.1 && h <= 2, "C10.mono: and so does the offset"); HAVOC (g); HAVOC (h); ASSUME (g <= h && g >= 0.1 && h <= 2); if (g > 0.5) g = 0.5; if (h > 0.5) h = 0.5;
  CHECK (1.0 - h <= 1.0 - g && 1.0 - h >= 0.5 && 1.0 - g < 1, "C10.mono: a larger share gives at least as strong a global bid");
}
