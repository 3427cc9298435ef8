/* state.c: the start (preload_state_load) and the end (preload_state_free), seen from one arbitrary known program W, one arbitrary
 * pair record K and arbitrary others (C04, C07, C18, C26).  Reading the file, walking processes, programs and pairs are contracts. */
#include "common.h"
#include "log.h"
#include "state.h"
#include "state_io.h"
#include "conf.h"
#include "proc.h"
#include "spy.h"
#include "prophet.h"
#include "vomm.h"
#include "model_utils.h"
#include "power.h"
#include "exe.h"
#include "map.h"
#include "markov.h"
#define VP_OWN_FREE
#define VP_OWN_LOG
#include "../lib/glib_base.h"
void g_return_if_fail_warning (const char *d, const char *f, const char *e) { CHECK (0, "no precondition check (g_return_if_fail) of the code fails"); }
void g_assertion_message_expr (const char *d, const char *f, int l, const char *fn, const char *e) { CHECK (0, "no g_assert of the code fails"); STOP (); }
preload_conf_t conf[1]; int preload_log_level;
#undef g_debug
#undef g_message
#undef g_warning
#undef g_critical
#undef g_error
#undef fprintf
#define g_debug(...) ((void) 0)
#define g_message(...) ((void) 0)
#define g_warning(...) ((void) 0)
#define g_critical(...) ((void) 0)
#define fprintf(...) ((void) 0)
static _Bool bad_file; static int aborts;
#define g_error(...) do { CHECK (bad_file, "C18.refused: only a file that cannot be loaded ends the start"); aborts++; STOP (); } while (0)

static preload_exe_t *W, *O; static char *wpath, *opath, *file; static preload_markov_t *K;
static int reads, walks, pairs, mems, launches, live_W, phase; static _Bool vomm_on;
static char msg[2], tt[4][2]; static GPtrArray arr; static struct { int k; _Bool live; GDestroyNotify kd, vd; } T[4]; static int nt;
static int freed_w, freed_slist, freed_arr, cleaned, freed_name; static char *name;
/* tables, in the order they are made */
static int tix (GHashTable *t) { for (int i = 0; i < nt; i++) if ((char *) t == tt[i]) return i; CHECK (0, "C07.table: a table of the model"); return 0; }
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify k, GDestroyNotify v)
{ CHECK (nt < 4, "C18.empty: the tables are made once"); T[nt].k = h == g_str_hash && e == g_str_equal ? 1 : h == (GHashFunc) preload_map_hash && e == (GEqualFunc) preload_map_equal ? 2 : 0; T[nt].live = 1; T[nt].kd = k; T[nt].vd = v; return (GHashTable *) tt[nt++]; }
GHashTable *g_hash_table_new (GHashFunc h, GEqualFunc e) { return g_hash_table_new_full (h, e, 0, 0); }
GPtrArray *g_ptr_array_new (void) { arr.len = 0; arr.pdata = 0; return &arr; }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{ CHECK (k && t == state->exes && T[tix (t)].live && reads == (file && file[0]), "C07.start: known programs are looked up once all are loaded"); return SID (k) == SID (wpath) ? W : SID (k) == SID (opath) ? O : 0; }
/* lists: the number of times W is in them */
#define LIST(i) ((GSList *) (gsize) ((i) + 1))
#define LW(l) ((l) ? (int) (gsize) (l) - 1 : 0)
GSList *g_slist_prepend (GSList *l, gpointer x) { CHECK (x == W || x == O, "C07.list: known programs are listed"); CHECK (LW (l) < 3, "C07.once: a program is listed once"); return LIST (LW (l) + (x == W)); }
GSList *g_slist_append (GSList *l, gpointer x) { return g_slist_prepend (l, x); }
void g_slist_free (GSList *l) { freed_slist++; CHECK (!state->running_exes || l == state->running_exes, "C26.free: the list of running programs"); }
gboolean exe_is_running (preload_exe_t *e) { CHECK (e == W || e == O, "C07.running: of a known program"); return e->running_timestamp >= state->last_running_timestamp; }
gboolean preload_is_vomm_algorithm (void) { return vomm_on; }
void vomm_update (preload_exe_t *e) { CHECK (vomm_on && (e == W || e == O), "C11.launch: of known programs, with the sequence predictor"); if (e == W) launches++; }
void vomm_cleanup (void) { cleaned++; }
int markov_compute_state (preload_markov_t *k) { return (exe_is_running (k->a) ? 1 : 0) + (exe_is_running (k->b) ? 2 : 0); }
char *preload_state_read_file (const char *f)
{
  CHECK (f == file && file && file[0], "C18.file: the file given is read"); CHECK (!reads && !walks && !pairs, "C18.file: it is read once, first"); reads++;
  CHECK (nt == 3 && state->exes && state->bad_exes && state->maps && state->maps_arr == &arr && state->exes != state->bad_exes && state->exes != state->maps && state->bad_exes != state->maps, "C18.empty: the model is there, and empty");
  CHECK (!state->running_exes && !state->dirty && !state->model_dirty && state->map_seq == 0 && state->exe_seq == 0, "C18.empty: the model is there, and empty");
  HAVOC (state->time); ASSUME (state->time >= 0); state->last_accounting_timestamp = state->time; HAVOC (state->map_seq); HAVOC (state->exe_seq);
  if (bad_file) return msg; return 0;
}
void proc_foreach (GHFunc f, gpointer d)
{
  walks++; CHECK (reads == (file && file[0]), "C07.start: processes are enumerated once the file is loaded"); CHECK (pairs == 0, "C04.start: before the states of the pairs are worked out");
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), opath, d);
  for (int i = 0; i < 2; i++) if (i < live_W) f (GINT_TO_POINTER (nondet_int ()), wpath, d);
  char *x = vp_str_new (nondet_u64 (), '/'); ASSUME (SID (x) != SID (wpath) && SID (x) != SID (opath)); if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), x, d);
  if (nondet_bool ()) f (GINT_TO_POINTER (nondet_int ()), opath, d);
}
void preload_markov_foreach (GFunc f, gpointer d) { pairs++; CHECK (walks == 1, "C04.start: the states of the pairs are worked out from what runs"); f (K, d); }
void proc_get_memstat (preload_memory_t *m) { CHECK (m == &state->memstat, "C22.start: memory figures are read"); mems++; }
/* the end */
void g_hash_table_destroy (GHashTable *t)
{ int i = tix (t); CHECK (T[i].live, "C26.free: a table is released once"); T[i].live = 0; CHECK (t != state->maps || !T[tix (state->exes ? state->exes : (GHashTable *) tt[0])].live, "C26.free: regions go after the programs that use them"); }
void g_hash_table_remove_all (GHashTable *t) { CHECK (T[tix (t)].live, "C26.free: what is emptied has not been released"); }
guint g_hash_table_size (GHashTable *t) { int i = tix (t); return phase == 1 && t == state->maps && !T[0].live ? 0 : nondet_uint (); }  /* C01: no references left, no regions */
gpointer *g_ptr_array_free (GPtrArray *a, gboolean s) { CHECK (a == &arr && s && !freed_arr, "C26.free: the list of regions is released once"); freed_arr++; return 0; }
void g_free (gpointer p) { if (!p) return; if (p == msg) { return; } CHECK (phase == 1 && p == name && !freed_name, "C26.free: the name of the state file is released once"); freed_name++; }
guint g_slist_length (GSList *t) { return nondet_uint (); }

#include "handling/state.c"

static void setup (void)
{
  HAVOC (state[0]); HAVOC (conf[0]); wpath = vp_str_new (nondet_u64 (), '/'); opath = vp_str_new (nondet_u64 (), '/'); ASSUME (SID (wpath) != SID (opath));
  W = malloc (sizeof *W); O = malloc (sizeof *O); K = malloc (sizeof *K); ASSUME (W && O && K); W->path = wpath; O->path = opath; W->running_timestamp = O->running_timestamp = -1;   /* as loaded: C17 */
  if (nondet_bool ()) { K->a = W; K->b = O; } else { K->a = O; K->b = W; }
  vomm_on = nondet_bool (); bad_file = nondet_bool (); live_W = nondet_int (); ASSUME (live_W >= 0 && live_W <= 2);
  static char fn[2]; fn[0] = nondet_bool () ? '/' : 0; fn[1] = 0; file = fn; if (nondet_bool ()) file = 0;
  reads = walks = pairs = mems = launches = phase = aborts = nt = freed_w = freed_slist = freed_arr = cleaned = freed_name = 0; name = 0;
}
void h_load (void)
{
  setup (); preload_markov_t k0 = *K; time_t w0 = W->time;
  preload_state_load (file);
  _Bool from = file && file[0]; int now = state->time;
  CHECK (reads == (from ? 1 : 0), "C18.file: the file is read iff one is given"); CHECK (!from || !bad_file, "C18.refused: a file that cannot be loaded is not passed over");
  CHECK (T[tix (state->exes)].k == 1 && T[tix (state->exes)].kd == 0 && T[tix (state->exes)].vd == (GDestroyNotify) preload_exe_free, "C26.owned: programs are found by path and released with their table");
  CHECK (T[tix (state->bad_exes)].k == 1 && T[tix (state->bad_exes)].kd == g_free && T[tix (state->bad_exes)].vd == 0, "C26.owned: too small programs are found by a path of their own");
  CHECK (T[tix (state->maps)].k == 2 && T[tix (state->maps)].kd == 0 && T[tix (state->maps)].vd == 0, "C02.table: regions are found by path, offset and length");
  CHECK (nt == 3 && state->maps_arr == &arr, "C18.empty: the model is made once");
  CHECK (walks == 1 && (exe_is_running (W) != 0) == (live_W > 0), "C07.start: a known program is marked as running iff a live process executes it"); CHECK (LW (state->running_exes) == (live_W > 0 ? 1 : 0), "C07.start: and is on the running list once");
  CHECK (launches == (vomm_on && live_W > 0 ? 1 : 0), "C11.launch: a program found running is reported once"); CHECK (W->time == w0, "C06.start: nothing is credited");
  CHECK (state->last_running_timestamp == now, "C07.start: the scan is timed"); CHECK (state->last_accounting_timestamp == (from ? now : 0) && (from || now == 0), "C06.start: the first period starts at the saved time");
  CHECK (pairs == 1 && K->state == (exe_is_running (K->a) ? 1 : 0) + (exe_is_running (K->b) ? 2 : 0) && K->change_timestamp == now, "C04.start: the recorded joint state is the actual one, timed from now");
  for (int i = 0; i < 4; i++) { CHECK (K->time_to_leave[i] == k0.time_to_leave[i] || k0.time_to_leave[i] != k0.time_to_leave[i], "C04.start: nothing is counted"); for (int j = 0; j < 4; j++) CHECK (K->weight[i][j] == k0.weight[i][j], "C04.start: nothing is counted"); }
  CHECK (K->time == k0.time && K->a == k0.a && K->b == k0.b, "C04.start: nothing is counted"); CHECK (!state->dirty && !state->model_dirty, "C24.start: nothing is unsaved or waiting");
  COVER (from && live_W == 2 && vomm_on, "a program found running"); COVER (!from, "no file");
}
void h_free (void)
{
  setup (); memset (state, 0, sizeof *state); state->exes = g_hash_table_new_full (g_str_hash, g_str_equal, 0, 0); state->bad_exes = g_hash_table_new_full (g_str_hash, g_str_equal, 0, 0); state->maps = g_hash_table_new_full (g_str_hash, g_str_equal, 0, 0); state->maps_arr = g_ptr_array_new ();
  phase = 1; static char nm[2]; name = nm; if (nondet_bool ()) name = 0; autosave_statefile = name; state->running_exes = nondet_bool () ? LIST (1) : 0; GSList *l = state->running_exes;
  preload_state_free ();
  CHECK (!T[0].live && !T[1].live && !T[2].live && freed_arr == 1 && cleaned == 1, "C26.free: programs, too small programs, regions and the sequence model are released");
  CHECK (!l || freed_slist == 1, "C26.free: the list of running programs is released"); CHECK (!name || freed_name == 1, "C26.free: the name of the state file is released");
  COVER (name && l, "all");
}
