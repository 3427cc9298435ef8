/* C19: cleanup over any set of programs and any outcome of looking at their files. */
#include "world.h"
#include "spy.h"
#include "model_utils.h"
#include "state_io.h"
#include <sys/stat.h>
#include <errno.h>
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); m->total = m->free = m->available = 1000; }
static int live; static char livep[8][32];
void __wrap_proc_foreach (GHFunc f, gpointer d) { for (int i = 0; i < live; i++) f (GINT_TO_POINTER (100 + i), livep[i], d); }
size_t __wrap_proc_get_maps (pid_t p, GHashTable *m, GPtrArray **e) { if (e) *e = g_ptr_array_new (); return 0; }
int __wrap_preload_readahead (preload_map_t **f, int n) { for (int i = 0; i < n; i++) vp_checks += f[i]->length > 0; return n; }
char *__wrap_preload_state_write_file (const char *f) { return NULL; }
static int kind[MAXE], asked[MAXE];   /* 0 regular file, 1 directory, 2 other, >9 errno */
#define MANY 1500
static int many, mkind[MANY];
static int ix (const char *p) { int i = -1; EXPECT (sscanf (p, "/bin/e%d", &i) == 1 && i >= 0 && i < MAXE, "only files of known programs are looked at"); asked[i]++; return i; }
int __wrap_stat (const char *p, struct stat *s)
{ int k = many ? !strncmp (p, "/opt/m", 6) ? mkind[atoi (p + 6) % MANY] : 0 : kind[ix (p)]; memset (s, 0x5a, sizeof *s); if (k > 9) { errno = k - 10; return -1; } s->st_mode = k == 0 ? S_IFREG | (rnd (2) ? 0755 : 0) : k == 1 ? S_IFDIR | 0755 : k == 2 ? S_IFIFO : S_IFCHR; s->st_ino = rnd64 (); s->st_mtime = rnd (1 << 30); return 0; }
int __wrap_stat64 (const char *p, struct stat *s) { return __wrap_stat (p, s); }
static void touch_all (gpointer k, gpointer v, gpointer d) { preload_exe_t *e = v; vp_checks += strlen (e->path) > 0; }
static void touch_chain (gpointer k, gpointer d) { preload_markov_t *m = k; vp_checks += strlen (m->a->path) + strlen (m->b->path) > 0; }
static void exp_cb (gint64 id, gint64 seq, int c, gint64 parent, gpointer u) { vp_checks++; }
/* a model with very many programs */
static void many_case (void)
{
  memset (conf, 0, sizeof *conf); conf->system.prediction_algorithm = "Markov"; preload_state_load (NULL); state->time = 1000; state->last_running_timestamp = 1000;
  int n = many = 1 + rnd (MANY), want = 0, p = rnd (101); char b[32]; static int gone[MANY];
  for (int i = 0; i < n; i++) { int run = chance (10); sprintf (b, "/opt/m%d", i); preload_exe_t *e = preload_exe_new (b, run, NULL); preload_state_register_exe (e, FALSE); if (run) state->running_exes = g_slist_prepend (state->running_exes, e); mkind[i] = chance (p) ? 10 + ENOENT : 0; gone[i] = mkind[i] && !run; want += gone[i]; }
  note ("%d programs, %d to remove", n, want); int r = preload_cleanup_invalid_entries (state->exes, state->maps);
  EXPECT (r == want, "returns how many it removed"); EXPECT ((int) g_hash_table_size (state->exes) == n - want, "exactly the vanished programs that are not running are removed");
  for (int i = 0; i < n; i++) { sprintf (b, "/opt/m%d", i); EXPECT ((g_hash_table_lookup (state->exes, b) == NULL) == gone[i], "exactly these"); }
  many = 0; preload_state_free ();
}
static void one_case (void)
{
  if (chance (2)) { many_case (); return; }
  static const int errs[] = { ENOENT, ENOTDIR, EACCES, EIO, ELOOP, ENAMETOOLONG, ENOMEM, EOVERFLOW, ESTALE, ETIMEDOUT };
  world_build (chance (80));
  int vomm = chance (50); if (vomm) { conf->system.prediction_algorithm = "VOMM"; vomm_init (); for (int i = rnd (12); i > 0 && wne; i--) vomm_update (we[rnd (wne)]); }
  live = 0; for (int i = 0; i < wne; i++) if (chance (30) && live < 8) sprintf (livep[live++], "/bin/e%d", i);
  if (chance (30) && live < 8) sprintf (livep[live++], "/bin/new");
  int scanned = chance (60); if (scanned) { state->time += 10; preload_spy_scan (NULL); note ("scan "); }
  int gone[MAXE], want = 0; memset (asked, 0, sizeof asked); struct { long t; int nm, run; gsize size; gint64 seq; } was[MAXE];
  for (int i = 0; i < wne; i++) { kind[i] = chance (40) ? 0 : chance (30) ? 1 + (int) rnd (3) : 10 + (chance (50) ? ENOENT : errs[rnd (10)]);
    int run = exe_is_running (we[i]) != 0, vanished = kind[i] == 10 + ENOENT || kind[i] == 10 + ENOTDIR || (kind[i] > 0 && kind[i] < 9);
    gone[i] = vanished && !run; want += gone[i]; note (" e%d:%s%d%s", i, run ? "running " : "", kind[i], gone[i] ? "-" : "");
    was[i].t = we[i]->time; was[i].nm = we[i]->exemaps->len; was[i].run = run; was[i].size = we[i]->size; was[i].seq = we[i]->seq; }
  int through = chance (40); preload_exe_t *keep[MAXE]; memcpy (keep, we, sizeof keep); int n = wne;
  if (through) { state->dirty = chance (70); preload_state_save (chance (80) ? "x" : NULL); note (" [by saving]"); }
  else { int r = preload_cleanup_invalid_entries (state->exes, state->maps); EXPECT (r == want, "returns how many it removed"); }
  EXPECT ((int) g_hash_table_size (state->exes) == n - want, "exactly the vanished programs that are not running are removed");
  for (int i = 0; i < n; i++) {
    char p[32]; sprintf (p, "/bin/e%d", i); preload_exe_t *e = g_hash_table_lookup (state->exes, p);
    if (gone[i]) { EXPECT (!e, "a vanished program is removed"); for (GSList *l = state->running_exes; l; l = l->next) EXPECT (l->data != keep[i], "and not listed as running"); continue; }
    EXPECT (e == keep[i], "other programs stay"); EXPECT (e->time == was[i].t && (int) e->exemaps->len == was[i].nm && e->size == was[i].size && (exe_is_running (e) != 0) == was[i].run && e->seq == was[i].seq, "as they were");
    for (guint k = 0; k < e->markovs->len; k++) { preload_markov_t *m = e->markovs->pdata[k]; int ia = -1, ib = -1; for (int j = 0; j < n; j++) { if (keep[j] == m->a) ia = j; if (keep[j] == m->b) ib = j; } EXPECT (ia >= 0 && ib >= 0 && !gone[ia] && !gone[ib], "no pair record with a removed program"); }
  }
  /* nothing can reach a removed program (watched by the address sanitizer) */
  g_hash_table_foreach (state->exes, touch_all, NULL); preload_markov_foreach (touch_chain, NULL);
  if (scanned && chance (60)) { state->time += 10; preload_spy_update_model (NULL); }
  if (chance (70)) { state->time += 10; preload_prophet_predict (NULL); }
  if (vomm) { vomm_export_state (exp_cb, NULL); }
  state->time += 10; preload_spy_scan (NULL); preload_spy_update_model (NULL);
  if (vomm) { preload_prophet_predict (NULL); vomm_export_state (exp_cb, NULL); }
  world_end ();
}
