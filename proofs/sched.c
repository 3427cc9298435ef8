/* C24 (and the save of C16): the cycle steps of state.c, one arbitrary step at a time from an arbitrary state.
 * Scans, updates, predictions, writes and cleanups are contracts (C07, C06, C09, C16, C19). */
#include "common.h"
#include "log.h"
#include "state.h"
#include "state_io.h"
#include "conf.h"
#include "proc.h"
#include "spy.h"
#include "prophet.h"
#include "vomm.h"
#include "model_utils.h"
#include "power.h"
#define VP_NO_LOG
#define VP_OWN_FREE
#include "../lib/glib_base.h"
preload_conf_t conf[1]; int preload_log_level;
#undef fprintf
#define fprintf(...) ((void) 0)
#undef g_critical
#define g_critical(...) ((void) 0)
/* ---- steps that become pending, and what is done in a step */
static struct { guint s; GSourceFunc f; gpointer d; } ev[4]; static int nev;
static int scans, updates, predicts, writes, cleanups, forgets, bat, wfail, order, at_scan, at_predict, cycle0, scan0, predict0; static int t_scan, t_update, t_predict; static _Bool dirty_at_write, wrong_file;
static char vp_msg[4]; static int msg_live; static char *saved_to; static char *own_copy;
static guint add (guint s, GSourceFunc f, gpointer d) { CHECK (nev < 4, "C24.one: steps do not pile up"); ev[nev].s = s; ev[nev].f = f; ev[nev].d = d; return ++nev; }
guint g_timeout_add_full (gint p, guint ms, GSourceFunc f, gpointer d, GDestroyNotify n) { CHECK (ms % 1000 == 0, "C24.delay: whole seconds"); return add (ms / 1000, f, d); }
guint g_timeout_add (guint ms, GSourceFunc f, gpointer d) { return g_timeout_add_full (0, ms, f, d, 0); }
guint g_timeout_add_seconds_full (gint p, guint s, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (s, f, d); }
guint g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return add (s, f, d); }
guint g_idle_add (GSourceFunc f, gpointer d) { return add (0, f, d); }
gboolean preload_on_battery (void) { return bat; }
void preload_spy_scan (gpointer d) { scans++; at_scan = ++order; t_scan = state->time; HAVOC (state->running_exes); }
void preload_spy_update_model (gpointer d) { updates++; t_update = state->time; }
void preload_prophet_predict (gpointer d) { predicts++; at_predict = ++order; t_predict = state->time; }
char *preload_state_write_file (const char *f) { writes++; wrong_file |= f != saved_to; dirty_at_write = state->dirty != 0; if (!wfail) return 0; msg_live = 1; return vp_msg; }
void g_free (gpointer p) { if (!p) return; CHECK (p == (gpointer) vp_msg && msg_live, "C24.release: the message is released once"); msg_live = 0; }
int preload_cleanup_invalid_entries (GHashTable *a, GHashTable *b) { CHECK (a == state->exes && b == state->maps, "C24.save: the model is cleaned up"); cleanups++; return nondet_int (); }
guint g_hash_table_foreach_remove (GHashTable *t, GHRFunc f, gpointer d) { CHECK (t == state->bad_exes, "C24.save: only too small programs are forgotten"); forgets++; return nondet_uint (); }
void g_hash_table_remove_all (GHashTable *t) { CHECK (t == state->bad_exes, "C24.save: only too small programs are forgotten"); forgets++; }
guint g_hash_table_size (GHashTable *t) { return nondet_uint (); }
guint g_slist_length (GSList *t) { return nondet_uint (); }
static _Bool vomm_on, vomm_ok; static int inits, hydrates;
gboolean preload_is_vomm_algorithm (void) { return vomm_on; }
gboolean vomm_init (void) { inits++; return vomm_ok; }
void vomm_hydrate_from_state (void) { hydrates++; }

#include "handling/state.c"

static preload_state_t was;
static void setup (void)
{
  HAVOC (state[0]); HAVOC (conf[0]); HAVOC (preload_log_level); ASSUME (preload_log_level >= 0 && preload_log_level < 20); nev = scans = updates = predicts = writes = cleanups = forgets = order = msg_live = inits = hydrates = 0; wrong_file = 0;
  bat = nondet_bool (); wfail = nondet_bool (); vomm_on = nondet_bool (); vomm_ok = nondet_bool ();
  ASSUME (state->time >= 0 && state->time < (1 << 30)); ASSUME (conf->model.cycle >= 0 && conf->model.cycle < (1 << 28)); ASSUME (state->model_dirty == 0 || state->model_dirty == 1); was = state[0];
}
#define KEEPS(f) (state->f == was.f)
#define FRAME CHECK (KEEPS (exes) && KEEPS (maps) && KEEPS (maps_arr) && KEEPS (bad_exes) && KEEPS (map_seq) && KEEPS (exe_seq) && KEEPS (last_running_timestamp) && KEEPS (last_accounting_timestamp) && KEEPS (memstat_timestamp), "C24.frame: a step changes nothing else")
static GSourceFunc vp_self; static guint vp_due;
/* a step that asks to be called again is pending again, after the delay it was scheduled with */
static void again (gboolean r, GSourceFunc f) { if (r) { guint s; add (s, f, 0); } }
void h_first (void)
{
  setup (); again (preload_state_tick (0), preload_state_tick); int scan = !bat && conf->system.doscan, predict = !bat && conf->system.dopredict;
  CHECK (nev == 1 && ev[0].f == preload_state_tick2, "C24.one: the first half leaves exactly the second half pending");
  CHECK (scans == (scan ? 1 : 0), "C24.scan: scans iff scanning is on, never on battery"); CHECK (predicts == (predict ? 1 : 0), "C24.predict: predicts iff prediction is on, never on battery");
  CHECK (!updates && !writes && !cleanups, "C24.first: it does nothing else"); CHECK (!scan || t_scan == was.time, "C24.scan: at the present time"); CHECK (!predict || t_predict == was.time, "C24.predict: at the present time");
  CHECK (!scan || !predict || at_scan < at_predict, "C24.predict: on what was just scanned");
  CHECK (ev[0].s == (guint) (bat ? 2 * conf->model.cycle : conf->model.cycle / 2), "C24.delay: half a cycle, on battery twice the cycle"); CHECK (state->time == was.time + (int) ev[0].s, "C24.clock: advances by the delay until the next step");
  CHECK (scan ? state->dirty && state->model_dirty : KEEPS (dirty) && KEEPS (model_dirty), "C24.mark: a scan, and nothing else, marks the model unsaved and due for an update"); FRAME;
  COVER (scan && !predict, "scan only"); COVER (bat && conf->system.doscan, "on battery"); COVER (!bat && !scan && predict, "predict only");
}
void h_second (void)
{
  setup (); again (preload_state_tick2 (0), preload_state_tick2);
  CHECK (nev == 1 && ev[0].f == preload_state_tick, "C24.one: the second half leaves exactly the next first half pending");
  CHECK (updates == (was.model_dirty ? 1 : 0), "C24.update: updates iff a scan is waiting for it"); CHECK (!updates || t_update == was.time, "C24.update: at the present time"); CHECK (!state->model_dirty, "C24.update: no scan is waiting afterwards");
  CHECK (!scans && !predicts && !writes && !cleanups && KEEPS (dirty), "C24.second: it does nothing else");
  CHECK (ev[0].s == (guint) (conf->model.cycle - conf->model.cycle / 2), "C24.delay: the rest of the cycle"); CHECK (state->time == was.time + (int) ev[0].s, "C24.clock: advances by the delay until the next step"); FRAME; CHECK (KEEPS (running_exes), "C24.frame: a step changes nothing else");
  COVER (updates && ev[0].s > 5, "an update"); COVER (!updates, "no update");
}
static char vp_name[8];
static void saved (_Bool to)
{
  CHECK (writes == (was.dirty && to ? 1 : 0) && !wrong_file, "C24.save: an unsaved model is written to the state file, once"); CHECK (writes && !wfail ? !state->dirty : KEEPS (dirty), "C24.mark: a completed save, and only that, clears the unsaved mark");
  CHECK (cleanups == 1, "C24.save: vanished programs are cleaned up"); CHECK (!msg_live, "C24.release: the message is released"); CHECK (KEEPS (time) && KEEPS (model_dirty) && KEEPS (running_exes), "C24.frame: a save changes nothing else"); FRAME;
}
void h_save (void)
{
  setup (); vp_name[0] = nondet_bool () ? '/' : 0; saved_to = vp_name; if (nondet_bool ()) saved_to = 0; preload_state_save (saved_to); saved (saved_to && saved_to[0]); CHECK (nev == 0, "C24.one: saving schedules nothing");
  COVER (writes && wfail, "a failed save"); COVER (was.dirty && !writes, "no file"); COVER (writes && !wfail, "a save");
}
void h_autosave (void)
{
  setup (); vp_name[0] = '/'; if (nondet_bool ()) vp_name[0] = 0; saved_to = autosave_statefile = vp_name; ASSUME (conf->system.autosave >= 0); guint before = conf->system.autosave;
  again (preload_state_autosave (0), preload_state_autosave); saved (vp_name[0] != 0);
  CHECK (nev == 1 && ev[0].f == (GSourceFunc) preload_state_autosave && ev[0].s == before, "C24.one: the next autosave, and nothing else, is pending after the configured time"); CHECK (!scans && !updates && !predicts, "C24.save: nothing else is done");
  COVER (writes, "a save");
}
void h_run (void)
{
  setup (); char *f = vp_str_new (nondet_u64 (), '/'), *g = f; ASSUME (conf->system.autosave >= 0); if (nondet_bool ()) g = 0; preload_state_run (g); int ticks = 0, saves = 0;
  for (int i = 0; i < nev; i++) { if (ev[i].f == preload_state_tick && ev[i].s == 0) ticks++; if (ev[i].f == (GSourceFunc) preload_state_autosave && ev[i].s == (guint) conf->system.autosave) saves++; }
  CHECK (nev == ticks + saves && ticks == 1 && saves == (g ? 1 : 0), "C24.one: once started, one first half at once and, with a state file, one autosave are pending");
  CHECK (!g || (autosave_statefile && autosave_statefile != f && SID (autosave_statefile) == SID (f)), "C24.save: autosave goes to the state file given"); CHECK (!scans && !updates && !predicts && !writes && KEEPS (time) && KEEPS (dirty) && KEEPS (model_dirty), "C24.start: nothing is done yet");
  CHECK (inits == vomm_on && hydrates == (vomm_on && vomm_ok), "C24.start: the sequence model is set up iff it is used"); COVER (saves == 1, "with a state file"); COVER (nev == 1, "without");
}
