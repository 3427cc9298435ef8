/* C24: a simulated event loop around the real cycle steps. */
#include "vpn.h"
#include "common.h"
#include "state.h"
#include "state_io.h"
#include "conf.h"
#include "proc.h"
#include "spy.h"
#include "prophet.h"
#include "vomm.h"
#include "power.h"
#include "log.h"
static struct { long due, delay; GSourceFunc f; gpointer d; int live; unsigned id; } ev[16]; static long now; static unsigned nid;
static int bat, scans, updates, predicts, writes, cleanups, wfail, order; static int at_scan, at_update, at_predict, t_scan, t_predict, t_update; static char *saved_to;
static unsigned add (long delay, GSourceFunc f, gpointer d) { for (int i = 0; i < 16; i++) if (!ev[i].live) { ev[i].live = 1; ev[i].delay = delay; ev[i].due = now + delay; ev[i].f = f; ev[i].d = d; return ev[i].id = ++nid; } vp_fail ("steps pile up"); return 0; }
guint __wrap_g_timeout_add (guint ms, GSourceFunc f, gpointer d) { EXPECT (ms % 1000 == 0, "whole seconds"); return add (ms / 1000, f, d); }
guint __wrap_g_timeout_add_full (gint p, guint ms, GSourceFunc f, gpointer d, GDestroyNotify n) { EXPECT (ms % 1000 == 0, "whole seconds"); return add (ms / 1000, f, d); }
guint __wrap_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return add (s, f, d); }
guint __wrap_g_timeout_add_seconds_full (gint p, guint s, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (s, f, d); }
guint __wrap_g_idle_add (GSourceFunc f, gpointer d) { return add (0, f, d); }
gboolean __wrap_g_source_remove (guint id) { for (int i = 0; i < 16; i++) if (ev[i].live && ev[i].id == id) { ev[i].live = 0; return TRUE; } return FALSE; }
gboolean __wrap_preload_on_battery (void) { return bat; }
void __wrap_preload_spy_scan (gpointer d) { scans++; at_scan = order++; t_scan = state->time; }
void __wrap_preload_spy_update_model (gpointer d) { updates++; at_update = order++; t_update = state->time; }
void __wrap_preload_prophet_predict (gpointer d) { predicts++; at_predict = order++; t_predict = state->time; }
char *__wrap_preload_state_write_file (const char *f) { writes++; EXPECT (f && !strcmp (f, saved_to), "the state file given is written"); return wfail ? g_strdup ("no") : NULL; }
int __wrap_preload_cleanup_invalid_entries (GHashTable *a, GHashTable *b) { cleanups++; return 0; }
void __wrap_proc_foreach (GHFunc f, gpointer d) { } void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
static int live (void) { int n = 0; for (int i = 0; i < 16; i++) n += ev[i].live; return n; }
static void one_case (void)
{
  memset (ev, 0, sizeof ev); now = 0; memset (conf, 0, sizeof *conf); conf->system.prediction_algorithm = chance (50) ? "VOMM" : "Markov"; preload_log_level = 4;
  conf->model.cycle = 20; conf->system.autosave = 3600; conf->system.doscan = conf->system.dopredict = 1;
  preload_state_load (NULL); state->time = rnd (100000); scans = updates = predicts = writes = cleanups = 0; saved_to = "st";
  char name[8] = "st"; int file = chance (75), empty = chance (10); preload_state_run (file ? empty ? "" : name : NULL); strcpy (name, "zz");
  int start = state->time; long sum = 0; int half = 0, waiting = 0, dirty = 0, last_auto = 0;
  EXPECT (live () == 1 + (file != 0), "one cycle step, and with a state file one autosave, are pending");
  GSourceFunc save_f = NULL; for (int i = 0; i < 16; i++) if (ev[i].live && ev[i].delay == 3600) save_f = ev[i].f;
  for (int s = rnd (40); s >= 0; s--) {
    if (chance (30)) conf->model.cycle = chance (80) ? 1 + rnd (60) : 1 + rnd (100000);
    if (chance (30)) conf->system.doscan = rnd (2); if (chance (30)) conf->system.dopredict = rnd (2); if (chance (20)) conf->system.autosave = 1 + rnd (200); if (chance (20)) bat = rnd (2);
    wfail = chance (20); if (chance (10)) { state->dirty = rnd (2); dirty = state->dirty; }
    int cyc = conf->model.cycle, k = -1;
    for (int i = 0; i < 16; i++) if (ev[i].live && (k < 0 || ev[i].due < ev[k].due || (ev[i].due == ev[k].due && ev[i].id < ev[k].id))) k = i;
    now = ev[k].due; int saving = save_f && ev[k].f == save_f; gpointer d = ev[k].d; GSourceFunc f = ev[k].f; long dl = ev[k].delay; ev[k].live = 0;
    int sc = scans, up = updates, pr = predicts, wr = writes, cl = cleanups, t = state->time, md = state->model_dirty, before = live (); unsigned ids = nid;
    note ("\n@%ld %s cycle %d scan %d predict %d battery %d time %d", now, saving ? "autosave" : half ? "second half" : "first half", cyc, conf->system.doscan, conf->system.dopredict, bat, t);
    int again = f (d); if (again) add (dl, f, d);
    EXPECT (live () == before + 1, "each step leaves exactly one successor");
    int n = -1; for (int i = 0; i < 16; i++) if (ev[i].live && ev[i].id > ids) n = i;
    if (saving) {
      EXPECT (scans == sc && updates == up && predicts == pr && state->time == t, "autosave only saves"); int w = dirty && !empty;
      EXPECT (writes == wr + w, "an unsaved state is saved"); EXPECT (cleanups == cl + 1, "cleanup follows"); if (w && !wfail) dirty = 0; EXPECT (!!state->dirty == dirty, "a completed save clears the unsaved mark, a failed one does not");
      EXPECT (ev[n].f == save_f && ev[n].delay == conf->system.autosave, "the next autosave is due after the configured time"); continue;
    }
    EXPECT (ev[n].f != save_f, "the next step of the cycle is pending"); EXPECT (state->time - t == ev[n].delay, "the clock advances by the delay until the next step"); EXPECT (writes == wr && cleanups == cl, "no save in a cycle step");
    if (!half) {
      int s1 = !bat && conf->system.doscan, p1 = !bat && conf->system.dopredict;
      EXPECT (scans == sc + s1, "scans iff scanning is on and not on battery"); EXPECT (predicts == pr + p1, "predicts iff prediction is on and not on battery"); EXPECT (updates == up, "no update in the first half");
      if (s1) { EXPECT (t_scan == t, "scanned at the current time"); waiting = dirty = 1; } if (p1) EXPECT (t_predict == t, "predicted at the current time"); if (s1 && p1) EXPECT (at_scan < at_predict, "after the scan");
      EXPECT (ev[n].delay == (bat ? 2 * cyc : cyc / 2), "half a cycle, on battery two cycles");
    } else {
      EXPECT (scans == sc && predicts == pr, "no scan in the second half"); EXPECT (updates == up + waiting, "updates iff a scan is waiting"); if (waiting) EXPECT (t_update == t, "at the current time"); waiting = 0;
      EXPECT (ev[n].delay == cyc - cyc / 2, "the rest of the cycle");
    }
    EXPECT (!!state->dirty == dirty, "a scan marks the state as unsaved, nothing else changes the mark");
    half = !half;
  }
}
