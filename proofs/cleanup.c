/* C19: model_utils.c - one arbitrary known program W, one arbitrary other O, any number of further ones (inductively), any
 * outcome of looking at their files.  exe_is_running and unregistering appear as their contracts (C03). */
#include "common.h"
#include "model_utils.h"
#include "log.h"
#include "state.h"
#include "exe.h"
#include <sys/stat.h>
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
preload_state_t state[1]; int preload_log_level;
/* ---- a path: only its first bytes are looked at; what it names is arbitrary but fixed */
struct what { int kind, err; };                 /* 0 a regular file, 1 something else, 2 the look fails with err */
static struct { char c[8]; struct what w; } pw, po, pv;
#define VANISHED(p) ((p).w.kind == 1 || ((p).w.kind == 2 && ((p).w.err == ENOENT || (p).w.err == ENOTDIR)))
static int vp_errno; int *__errno_location (void) { return &vp_errno; }
#undef stat
static int vp_stat (const char *p, struct stat *s)
{
  struct what w = p == pw.c ? pw.w : p == po.c ? po.w : pv.w;
  CHECK (p == pw.c || p == po.c || p == pv.c, "C19.path: the program's own path is looked at");
  HAVOC (*s); HAVOC (vp_errno);
  if (w.kind == 2) { vp_errno = w.err; return -1; }
  if (w.kind == 0) s->st_mode = (s->st_mode & 07777) | S_IFREG; else ASSUME ((s->st_mode & S_IFMT) != S_IFREG);
  return 0;
}
#define stat(p, s) vp_stat (p, s)
int strncmp (const char *a, const char *b, size_t n) { return nondet_int (); }

static preload_exe_t *W, *O; static preload_exe_t wcopy; static int wreg, oreg, removed, wremoved, walks, lists, cur_is; static GHashTable *t_exes, *t_maps;
static _Bool wrun, orun;
gboolean exe_is_running (preload_exe_t *e) { CHECK (e == W || e == O, "C19.running: of the program at hand"); return e == W ? wrun : orun; }      /* contract: C03 */
static void any_what (struct what *w) { HAVOC (*w); ASSUME (w->kind >= 0 && w->kind <= 2 && w->err > 0); }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{ CHECK (t == t_exes && (k == pw.c || k == po.c), "C19.table: programs are looked up by path"); return k == pw.c ? (wreg ? W : 0) : oreg ? O : 0; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
guint g_hash_table_size (GHashTable *t) { return nondet_uint (); }
void preload_state_unregister_exe (preload_exe_t *e)
{
  CHECK (e == (cur_is == 1 ? W : O) && cur_is, "C19.remove: the program at hand is removed"); CHECK (e == W ? wreg : oreg, "C19.remove: once");
  if (e == W) { wreg = 0; wremoved++; pw.c[0] = 0; } else { oreg = 0; po.c[0] = 0; }
  CHECK (removed < 2000000000, "fewer than 2^31 programs"); removed++;
}
/* ---- a list: how often W and O are in it, and whether others are; number 1 + w + 3 o + 9 any */
#define LIST(i) ((GSList *) (gsize) (i))
#define LW(l)   ((l) ? ((int) (gsize) (l) - 1) % 3 : 0)
#define LO(l)   ((l) ? ((int) (gsize) (l) - 1) / 3 % 3 : 0)
GSList *g_slist_prepend (GSList *l, gpointer x)
{
  CHECK (x == (cur_is == 1 ? W : O) && cur_is, "C19.collect: the program at hand is collected");
  CHECK ((x == W ? LW (l) : LO (l)) < 2, "C19.collect: once");
  int i = l ? (int) (gsize) l : 1; return LIST (i + (x == W ? 1 : 3));
}
GSList *g_slist_append (GSList *l, gpointer x) { return g_slist_prepend (l, x); }
void g_slist_free (GSList *l) { if (l) { CHECK (lists == 1, "C19.release: the list is released once"); lists = 2; } }

#include "handling/model_utils.c"

static void step (GHFunc f, preload_exe_t *e, gpointer d)
{
  cleanup_context_t *c = d, c0 = *c; cur_is = e == W ? 1 : 2; int v = e == W ? VANISHED (pw) : VANISHED (po);
  int run = exe_is_running (e) != 0;
  f (e->path, e, d);
  cur_is = 0;
  CHECK (c->removed_count == c0.removed_count && c->maps_to_remove == 0, "C19.collect: nothing is removed while walking");
  if (v && !run) CHECK ((e == W ? LW (c->exes_to_remove) : LO (c->exes_to_remove)) == 1, "C19.exact: a vanished program that is not running is collected once");
  else CHECK (c->exes_to_remove == c0.exes_to_remove, "C19.exact: a program that is running or still there is not");
}
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  CHECK (t == t_exes && !walks, "C19.walk: all programs are looked at, once"); walks++; cleanup_context_t *c = d;
  CHECK (c->exes_to_remove == 0 && c->removed_count == 0 && c->maps_to_remove == 0, "C19.walk: from an empty list");
  if (nondet_bool ()) c->exes_to_remove = LIST (10);        /* by induction: programs seen before */
  if (nondet_bool ()) step (f, O, d);
  step (f, W, d);
  if (LO (c->exes_to_remove) == 0 && nondet_bool ()) step (f, O, d);
  if (c->exes_to_remove) lists = 1;
}
void g_slist_foreach (GSList *l, GFunc f, gpointer d)
{
  if (!l) return;
  cleanup_context_t *c = d; CHECK (l == c->exes_to_remove && lists == 1, "C19.remove: the programs collected are removed");
  CHECK (c->removed_count == removed, "C19.count: counted so far");
  if (nondet_bool ()) { int k = nondet_int (); ASSUME (k >= 0 && k < 1000000000); c->removed_count = removed = k; }   /* by induction: programs before */
  for (int i = 0; i < 3; i++) {
    preload_exe_t *e = i == 1 ? W : O; if (i == 1 ? !LW (l) : !LO (l)) continue; if (i != 1 && nondet_bool ()) continue;
    cur_is = i == 1 ? 1 : 2; int r0 = removed, n0 = c->removed_count; _Bool was = e == W ? wreg : oreg;
    f (e, d); cur_is = 0;
    CHECK (!(e == W ? wreg : oreg) && removed == r0 + was, "C19.remove: each program collected is removed, once");
    CHECK (c->removed_count == n0 + (removed - r0), "C19.count: and counted");
    CHECK (c->exes_to_remove == l, "C19.remove: the list stays while it is walked");
  }
}
static void setup (void)
{
  HAVOC (state[0]); static char a[8], b[8]; t_exes = (GHashTable *) a; t_maps = (GHashTable *) b; state->exes = t_exes; state->maps = t_maps;
  W = malloc (sizeof *W); O = malloc (sizeof *O); ASSUME (W && O); HAVOC (*W); HAVOC (*O); ASSUME (W->lnprob == W->lnprob); pw.c[0] = po.c[0] = '/'; pw.c[1] = po.c[1] = 'x'; W->path = pw.c; O->path = po.c;
  any_what (&pw.w); any_what (&po.w); HAVOC (wrun); HAVOC (orun); wreg = oreg = 1; removed = wremoved = walks = lists = cur_is = 0; wcopy = *W;
}
void h_cleanup (void)
{
  setup (); _Bool run = exe_is_running (W) != 0; time_t ts = state->last_running_timestamp;
  int r = preload_cleanup_invalid_entries (state->exes, state->maps);
  CHECK (walks == 1, "C19.walk: all programs are looked at"); CHECK (wremoved == (VANISHED (pw) && !run), "C19.exact: removed iff it is not running and its file is gone");
  CHECK (r == removed, "C19.count: it returns how many were removed"); CHECK (lists != 1, "C19.release: the list is released");
  if (!wremoved) CHECK (W->path == wcopy.path && W->time == wcopy.time && W->update_time == wcopy.update_time && W->markovs == wcopy.markovs && W->exemaps == wcopy.exemaps && W->size == wcopy.size && W->running_timestamp == wcopy.running_timestamp && W->change_timestamp == wcopy.change_timestamp && W->lnprob == wcopy.lnprob && W->seq == wcopy.seq, "C19.frame: other programs stay as they were");
  CHECK (state->last_running_timestamp == ts && state->exes == t_exes && state->maps == t_maps, "C19.frame: and so does the state");
  COVER (wremoved && r > 3, "removed after others"); COVER (!wremoved && run && VANISHED (pw), "running"); COVER (!wremoved && pw.w.kind == 2 && r > 0, "another error");
}
void h_cleanup_null (void) { setup (); CHECK (preload_cleanup_invalid_entries (0, 0) == 0 && !walks && !removed, "C19.null: nothing to clean up"); }
void h_validate (void)
{
  setup (); any_what (&pv.w); int c = nondet_int (); pv.c[0] = '/'; pv.c[1] = 'y'; _Bool none = nondet_bool ();
  const char *q = pv.c; if (none) q = 0; int r = preload_validate_exe (q, 0, 0);
  CHECK (none ? r == -1 : (r == -1) == VANISHED (pv), "C19.validate: gone iff there is no such regular file; other errors count as still there");
  HAVOC (vp_errno); int a = preload_validate_exe (pv.c, nondet_long (), nondet_long ());
  CHECK ((a == -1) == VANISHED (pv) && a >= -1 && a <= 1, "C19.validate: whatever is known about the old file");
  COVER (r == -1 && pv.w.kind == 1, "not a regular file"); COVER (a == 1, "replaced");
}
