/* monitoring/spy.c: one scan followed by one model update, seen from one arbitrary known program W, one arbitrary unknown
 * path U, one arbitrary chain K and arbitrary others (C06, C07, C08, and the launches reported to the sequence model, C11).
 * The callbacks are the real ones, captured where the code hands them to the walk functions. */
#include "common.h"
#include "spy.h"
#include "conf.h"
#include "state.h"
#include "proc.h"
#include "vomm.h"
#include "exe.h"
#include "map.h"
#include "markov.h"
#define VP_OWN_FREE
#include "../lib/glib_base.h"

preload_state_t state[1]; preload_conf_t conf[1];
static preload_exe_t *W, *O, *N; static char *wpath, *upath, *opath; static preload_markov_t *K, *K2;
static bool vomm_on, u_bad;
static int launches_W, launches_N, other_launches, k_changed, changed_calls, u_in_new, u_pid, new_table_live, bad_added, walks_k, inc_seen;
static size_t bad_size;
static int measured, fetched; static size_t size1, size2; static GPtrArray *exemaps; static int exemaps_freed, links_freed, n_made, n_registered;
static int phase;   /* 1: scanning, 2: updating */

/* ---- lists: how often W is in them, opaque otherwise */
/* a list with w times W and n times N in it is represented by the number 1 + w + 3 n */
#define LIX(l)  ((int) (gsize) (l) - 1)
#define LIST(i) ((GSList *) (gsize) ((i) + 1))
#define LW(l)   ((l) ? LIX (l) % 3 : 0)
#define LN(l)   ((l) ? LIX (l) / 3 : 0)
GSList *g_slist_prepend (GSList *l, gpointer x)
{
  int i = l ? LIX (l) : 0;
  CHECK (x != W || i % 3 < 2, "C07.once: a program is in a list at most once"); CHECK (x != N || i / 3 < 2, "C07.once: a program is in a list at most once");
  int k = i + (x == W ? 1 : 0); if (N && x == N) k += 3; return LIST (k);
}
GSList *g_slist_append (GSList *l, gpointer x) { return g_slist_prepend (l, x); }
void g_slist_free (GSList *l) { }
GSList *g_slist_remove_all (GSList *l, gconstpointer x) { return l && x == W ? LIST (LIX (l) / 3 * 3) : l; }
void g_slist_foreach (GSList *l, GFunc f, gpointer d)
{
  if (!l) return;
  if (nondet_bool ()) f (O, d);
  CHECK (LW (l) <= 1, "C07.once: a program is in a list at most once");
  if (LW (l)) f (W, d);
  if (nondet_bool ()) f (O, d);
}
/* ---- tables */
static GHashTable *t_new; static int dummy;
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify k, GDestroyNotify v)
{ CHECK (phase == 1 && h == g_str_hash && e == g_str_equal, "C07.new: unknown programs are queued by path");
  t_new = malloc (1); ASSUME (t_new != 0); u_in_new = 0; new_table_live = 1; return t_new; }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{
  CHECK (k != 0, "C07.key: a path is looked up");
  if (t == state->exes) return SID (k) == SID (wpath) ? W : SID (k) == SID (opath) ? O : (N && n_registered && SID (k) == SID (upath)) ? N : 0;
  if (t == t_new) return SID (k) == SID (upath) && u_in_new ? (gpointer) &dummy : 0;
  CHECK (t == state->bad_exes, "C07.table: known and too small programs are looked up");
  static char size_[8]; gpointer small = size_ + 7;          /* what is remembered is a size: more than zero, below the minimum (checked below) */
  return SID (k) == SID (upath) ? (u_bad ? small : 0) : nondet_bool () ? small : 0;
}
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{
  if (t == t_new) {
    CHECK (phase == 1 && new_table_live && k != upath && k != wpath && k != opath, "C07.new: queued under a copy of the path");
    CHECK (SID (k) != SID (wpath) && SID (k) != SID (opath), "C07.new: known programs are not queued as new");
    if (SID (k) == SID (upath)) { u_in_new = 1; u_pid = GPOINTER_TO_INT (v); }
  } else {
    CHECK (t == state->bad_exes && phase == 2, "C08.table: too small programs are remembered as such");
    CHECK (k != upath && SID (k) == SID (upath), "C08.small: remembered under a copy of the path");
    bad_added++; bad_size = GPOINTER_TO_SIZE (v);
  }
  return TRUE;
}
void g_hash_table_destroy (GHashTable *t) { CHECK (t == t_new && new_table_live, "C07.new: the queue is released once"); new_table_live = 0; t_new = 0; }
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  if (t == state->exes) {
    inc_seen++; if (nondet_bool ()) f (opath, O, d); f (wpath, W, d); if (N && n_registered) f (upath, N, d); if (nondet_bool ()) f (opath, O, d);
  } else {
    CHECK (t == t_new && new_table_live && phase == 2, "C08.queue: the queue of unknown programs is examined");
    if (u_in_new) f (upath, GINT_TO_POINTER (u_pid), d);
  }
}
void preload_markov_state_changed (preload_markov_t *k);
void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer d)
{
  if (exemaps && a == exemaps) { CHECK (!exemaps_freed && !n_made, "C08.gone: only links nobody took over are dropped"); preload_exemap_t l; f (&l, d); return; }
  /* a one-argument function may be handed over as a GFunc */
  if (f == (GFunc) preload_markov_state_changed) {
    if (a == W->markovs) { preload_markov_state_changed (K); if (nondet_bool ()) preload_markov_state_changed (K2); } else { CHECK (a == O->markovs, "C04.lists: the lists of chains of known programs"); preload_markov_state_changed (K2); }
  } else {
    if (a == W->markovs) { f (K, d); if (nondet_bool ()) f (K2, d); } else { CHECK (a == O->markovs, "C04.lists: the lists of chains of known programs"); f (K2, d); }
  }
}
gpointer *g_ptr_array_free (GPtrArray *a, gboolean seg) { CHECK (a == exemaps && !exemaps_freed && seg && !n_made, "C08.gone: the empty list is freed once"); exemaps_freed++; return 0; }
void g_free (gpointer p) { CHECK (p == 0, "C07.frame: nothing is freed directly"); }
/* ---- contracts of callees */
void preload_exemap_free (gpointer l, gpointer u) { links_freed++; }
gboolean exe_is_running (preload_exe_t *e) { CHECK (e == W || e == O || e == N, "C07.running: of a known program"); return e->running_timestamp >= state->last_running_timestamp; }
gboolean preload_is_vomm_algorithm (void) { return vomm_on; }
void vomm_update (preload_exe_t *e) { CHECK (vomm_on, "C11.launch: only with the sequence predictor"); if (e == W) launches_W++; else if (N && e == N) launches_N++; else { CHECK (e == O, "C11.launch: of a known program"); other_launches++; } }
void preload_markov_state_changed (preload_markov_t *k) { CHECK (phase == 2, "C07.update: chains change at the model update only"); changed_calls++; if (k == K) k_changed++; }
static int k_changed_at_walk;
void preload_markov_foreach (GFunc f, gpointer d) { walks_k++; k_changed_at_walk = k_changed; f (K, d); f (K2, d); }
static int live_W, live_U;
void proc_foreach (GHFunc f, gpointer d)
{
  CHECK (phase == 1, "C07.scan: processes are enumerated by the scan");
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), opath, d);
  if (live_W) f (GINT_TO_POINTER (nondet_int ()), wpath, d);
  if (live_U) f (GINT_TO_POINTER (77), upath, d);
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), opath, d);
  char *other = vp_str_new (nondet_u64 (), '/'); ASSUME (SID (other) != SID (wpath) && SID (other) != SID (upath) && SID (other) != SID (opath));
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), other, d);
  /* any number of further processes of the same program: each leaves everything as it is (induction) */
  if (live_W > 1) { time_t rt = W->running_timestamp; int l = launches_W; f (GINT_TO_POINTER (nondet_int ()), wpath, d);
    CHECK (W->running_timestamp == rt && launches_W == l, "C07.many: a further process of a running program changes nothing"); }
  if (live_U > 1) f (GINT_TO_POINTER (78), upath, d);
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), opath, d);
}
size_t proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **ex)
{
  CHECK (phase == 2 && (pid == 77 || (pid == 78 && live_U > 1)), "C08.process: a process of the unknown program is examined");
  if (!maps && !ex) { measured++; return size1; }
  CHECK (ex != 0 && maps == state->maps, "C08.maps: regions are looked up in the registry and links are asked for");
  fetched++;
  CHECK (fetched == 1, "C08.once: its regions are fetched once");
  exemaps = malloc (sizeof *exemaps); ASSUME (exemaps != 0); *ex = exemaps;
  return size2;
}
preload_exe_t *preload_exe_new (const char *path, gboolean running, GPtrArray *ex)
{
  CHECK (SID (path) == SID (upath) && running && ex == exemaps && exemaps && !exemaps_freed, "C08.known: the program is made with its path, running, and with its regions");
  n_made++; N = malloc (sizeof *N); ASSUME (N != 0); N->running_timestamp = state->last_running_timestamp; N->change_timestamp = state->time; N->time = 0; return N;
}
void preload_state_register_exe (preload_exe_t *e, gboolean markovs)
{ CHECK (e == N && N && markovs && !n_registered, "C08.known: it is registered once, with chains"); CHECK (k_changed == 0, "C08.order: before running time is credited"); n_registered++; }

#include "monitoring/spy.c"

static preload_exe_t *any_exe (char *path) { preload_exe_t *e = malloc (sizeof *e); ASSUME (e != 0); e->path = path; e->markovs = malloc (sizeof (GPtrArray)); ASSUME (e->markovs != 0); return e; }
static void setup (void)
{
  HAVOC (state[0]); HAVOC (conf[0]);
  wpath = vp_str_new (nondet_u64 (), '/'); upath = vp_str_new (nondet_u64 (), '/'); opath = vp_str_new (nondet_u64 (), '/');
  ASSUME (SID (wpath) != SID (upath) && SID (wpath) != SID (opath) && SID (opath) != SID (upath));
  W = any_exe (wpath); O = any_exe (opath);
  K = malloc (sizeof *K); K2 = malloc (sizeof *K2); ASSUME (K && K2); K->a = W; K->b = O; ASSUME (K->state >= 0 && K->state <= 3 && K2->state >= 0 && K2->state <= 3);
  ASSUME (K->time >= 0 && K->time < (1l << 62) && K2->time >= 0 && K2->time < (1l << 62) && W->time >= 0 && W->time < (1l << 62) && O->time >= 0 && O->time < (1l << 62));
  vomm_on = nondet_bool (); u_bad = nondet_bool ();
  state->exes = malloc (1); state->bad_exes = malloc (1); state->maps = malloc (1); ASSUME (state->exes && state->bad_exes && state->maps);
  ASSUME (state->time >= 0 && state->time <= 2147483647);
  ASSUME (state->last_running_timestamp >= 0 && state->last_running_timestamp <= state->time && state->last_accounting_timestamp >= 0 && state->last_accounting_timestamp <= state->time);
  ASSUME (W->running_timestamp >= -1 && W->running_timestamp <= state->last_running_timestamp);
  ASSUME (O->running_timestamp >= -1 && O->running_timestamp <= state->last_running_timestamp);
  ASSUME (state->last_running_timestamp < state->time);     /* the clock has moved since the last scan (C24) */
  live_W = nondet_int (); live_U = nondet_int (); ASSUME (live_W >= 0 && live_W <= 2 && live_U >= 0 && live_U <= 2);
  size1 = nondet_size (); size2 = nondet_size ();
  ASSUME (conf->model.minsize >= 0);
  /* invariant: W is on the running list exactly once iff it is marked running */
  state->running_exes = LIST (exe_is_running (W) ? 1 : 0);
  if (!exe_is_running (W) && nondet_bool ()) state->running_exes = 0;
}
void h_round (void)
{
  setup ();
  bool was = exe_is_running (W); time_t t0 = W->time;
  phase = 1; preload_spy_scan (NULL);
  bool now = live_W > 0;
  CHECK ((exe_is_running (W) != 0) == now, "C07.running: marked as running iff a live process executed it");
  CHECK (LW (state->running_exes) == (now ? 1 : 0), "C07.list: on the running list, exactly once, iff running");
  CHECK (state->last_running_timestamp == state->time, "C07.time: the scan is timed");
  CHECK (u_in_new == (live_U > 0 && !u_bad), "C07.new: an unknown program is queued once unless it is known to be too small");
  CHECK (launches_W == (vomm_on && now && !was ? 1 : 0), "C11.launch: a start is reported to the sequence model once, nothing else is");
  CHECK (W->time == t0 && changed_calls == 0, "C07.scan: nothing is credited by the scan");
  int step = nondet_int (); ASSUME (step >= 0 && step <= 2147483647 - state->time); state->time += step;
  time_t c0 = W->change_timestamp; gint64 kt = K->time; int period = state->time - state->last_accounting_timestamp; bool u_new = u_in_new;
  phase = 2; preload_spy_update_model (NULL);
  CHECK (k_changed == (was != now ? 1 : 0) , "C07.changed: the chains of exactly the programs whose status differs are brought up to date, once");
  CHECK (W->change_timestamp == (was != now ? state->time : c0), "C07.changed: the change is timed");
  CHECK (launches_W == (vomm_on && now && !was ? 1 : 0), "C11.launch: reported once");
  CHECK (W->time == t0 + (now ? period : 0), "C06.time: a running program, and no other, is credited the period once");
  CHECK (walks_k == 1 && K->time == kt + (K->state == 3 ? period : 0), "C06.joint: a pair that runs together, and no other, is credited the period once");
  CHECK (k_changed_at_walk == k_changed, "C06.order: joint time is credited after the state changes");
  CHECK (state->last_accounting_timestamp == state->time, "C06.period: the period ends now");
  CHECK (!new_table_live, "C07.new: the queue is released");
  /* C08 */
  bool want = u_new && size1 > 0 && size1 >= (size_t) conf->model.minsize;
  CHECK (measured + fetched > 0 || !u_new, "C08.examined: a queued program is examined");
  CHECK (n_registered == (want && size2 != 0 ? 1 : 0) && n_made == n_registered, "C08.known: known iff it reaches the minimum size and is still there");
  CHECK (bad_added == (u_new && size1 > 0 && !want ? 1 : 0), "C08.small: remembered as too small iff it is");
  CHECK (!bad_added || bad_size == size1, "C08.small: with its size");
  CHECK (!exemaps || n_made || (exemaps_freed == 1 && links_freed == 1), "C08.gone: nothing is left of a program that vanished meanwhile");
  CHECK (!n_made || (exemaps_freed == 0 && links_freed == 0), "C08.known: its regions are kept");
  CHECK (!n_made || (LN (state->running_exes) == 1 && exe_is_running (N)), "C08.known: it is on the running list once");
  CHECK (!n_made || N->time == period, "C06.new: a new program is credited like any other running one");
  CHECK (launches_N == (n_made && vomm_on ? 1 : 0), "C11.launch: the launch of a new program is reported once");
  CHECK (LW (state->running_exes) == (now ? 1 : 0), "C07.list: still as scanned");
  COVER (was && !now, "stopped"); COVER (!was && now, "started"); COVER (n_made, "learned"); COVER (bad_added, "too small"); COVER (exemaps_freed, "vanished"); COVER (live_U > 1, "many");
}
/* after a scan and an update nothing is pending: a second, quiet round changes nothing and leaks nothing */
void h_forget (void)
{
  setup (); bool was = exe_is_running (W); ASSUME (state->time < 2147483647);
  phase = 1; preload_spy_scan (NULL);
  preload_spy_forget (W);
  /* W is gone now: nothing may touch it any more */
  preload_exe_t w0 = *W; int l = launches_W;
  state->time += 1; phase = 2;
  preload_exe_t *dead = W; dead->markovs = 0;
  k_changed = 0;
  preload_spy_update_model (NULL);
  CHECK (W->change_timestamp == w0.change_timestamp, "C03.forget: an unregistered program is not updated any more");
  COVER (was && !live_W, "was queued as stopped"); COVER (!was && live_W, "was queued as started");
}
