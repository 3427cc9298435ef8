/* C17: write_state and then read_state, the real code, over a model with one object of every kind and arbitrary values: every
 * record comes back under the same identity with the same values.  Printing and scanning are exact (lib/text.h).
 * Programs, regions, pairs and links are made by their contracts (C01, C02, C03), the tree by vomm.c's (bundles below). */
#include "common.h"
#include <glib/gstdio.h>
#include "state_io.h"
#include "state.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "vomm.h"
#include "log.h"
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
#include "../lib/text.h"
#undef open
#undef close
preload_state_t state[1]; int preload_log_level;
int errno_; int *__errno_location (void) { return &errno_; }
#undef g_string_free
#undef g_string_append_c
#undef g_string_append
#undef g_string_truncate
#undef g_string_assign
#undef g_string_new
#undef g_string_append_len
/* ---- the saved model: two programs, a region one of them uses, a pair, a program too small, a tree node */
static preload_map_t M; static preload_exe_t A, B; static preload_exemap_t L; static preload_markov_t K; static gint64 v_id, v_parent; static int v_count, bad_size, clock_;
static char p_M[4], p_A[4], p_B[4], p_bad[4];          /* the paths; any text */
static char u_M[4], u_A[4], u_B[4], u_bad[4];          /* and as URIs (any text without spaces, up to VP_TEXT_MAX long) */
static char t_maps[4], t_exes[4], t_bad[4];
/* ---- the file */
static struct { char c[224]; vp_tok t[224]; } out; static int out_n, out_at; static GIOChannel *vp_f; static char vp_fobj[4];
static vp_line wl, rl; static GString g_w, g_r; static int lines_made; static _Bool reading;
static int wrote_exes, order, at_map, at_exe, at_link, at_pair, at_node;
static vp_line *line_of (const char *p) { if (__CPROVER_same_object (p, &wl)) return &wl; if (__CPROVER_same_object (p, &rl)) return &rl; return 0; }
static vp_line *buf_of (GString *s) { return s == &g_w ? &wl : &rl; }
GString *g_string_sized_new (gsize n) { GString *s = lines_made++ ? &g_r : &g_w; s->str = buf_of (s)->c; s->len = 0; s->str[0] = 0; s->allocated_len = VP_CELLS; return s; }
GString *g_string_new (const gchar *t) { CHECK (!t || !t[0], "an empty line is made"); return g_string_sized_new (0); }
gchar *g_string_free (GString *s, gboolean all) { CHECK (all, "the line is released with its text"); return 0; }
GString *g_string_truncate (GString *s, gsize n) { CHECK (n <= s->len, "shortened"); s->len = n; s->str[n] = 0; return s; }
GString *g_string_append (GString *s, const gchar *t) { vp_arg a[1] = { vp_as (t, 8) }; int n = s->len; vp_print (buf_of (s), &n, "%s", 1, a); s->len = n; s->str[n] = 0; return s; }
GString *g_string_assign (GString *s, const gchar *t) { s->len = 0; return g_string_append (s, t); }
GString *g_string_append_c (GString *s, gchar c) { s->str[s->len++] = c; s->str[s->len] = 0; return s; }
static void sprint (GString *s, int app, const char *f, int n, vp_arg *a) { int k = app ? (int) s->len : 0; vp_print (buf_of (s), &k, f, n, a); s->len = k; s->str[k] = 0; }
#undef g_string_printf
#undef g_string_append_printf
#define g_string_printf(s, ...) sprint (s, 0, VP_FMT (VP_PA, __VA_ARGS__))
#define g_string_append_printf(s, ...) sprint (s, 1, VP_FMT (VP_PA, __VA_ARGS__))
#undef sscanf
#define sscanf(l, ...) line_scan (l, VP_FMT (VP_SA, __VA_ARGS__))
static int line_scan (const char *s, const char *f, int n, vp_arg *a)
{ vp_line *l = line_of (s); CHECK (l == &rl, "C17.line: the line read is taken apart"); return vp_scan (l, (int) __CPROVER_POINTER_OFFSET (s), f, n, a); }
GIOStatus g_io_channel_write_chars (GIOChannel *f, const gchar *s, gssize len, gsize *w, GError **e)
{
  CHECK (f == vp_f, "C17.file: written to the file"); vp_line *l = line_of (s); int o = l ? (int) __CPROVER_POINTER_OFFSET (s) : 0;
  for (int i = 0; len < 0 ? s[i] != 0 : i < len; i++) { CHECK (out_n < 224, "room"); out.c[out_n] = s[i]; if (l) out.t[out_n] = l->t[o + i]; out_n++; }
  return G_IO_STATUS_NORMAL;
}
GIOStatus g_io_channel_read_line_string (GIOChannel *f, GString *b, gsize *t, GError **e)
{
  CHECK (f == vp_f && reading, "C17.file: read from the file"); if (out_at == out_n) return G_IO_STATUS_EOF;
  int n = 0; while (out_at < out_n) { char c = out.c[out_at]; rl.c[n] = c; rl.t[n] = out.t[out_at]; n++; out_at++; if (c == '\n') break; }
  rl.c[n] = 0; b->len = n; return G_IO_STATUS_NORMAL;
}
gchar *g_filename_to_uri (const gchar *p, const gchar *h, GError **e)
{ CHECK (!h, "no host"); char *u = p == p_M ? u_M : p == p_A ? u_A : p == p_B ? u_B : u_bad; CHECK (p == p_M || p == p_A || p == p_B || p == p_bad, "C17.path: the path is written"); u[0] = VP_TOKEN; return u; }
gchar *g_filename_from_uri (const gchar *u, gchar **h, GError **e)
{ CHECK (u == vp_got.to && u[0] == VP_TOKEN, "C17.path: the path just read is used"); const void *t = vp_got.text; return t == u_M ? p_M : t == u_A ? p_A : t == u_B ? p_B : p_bad; }
void g_free (gpointer p) { }       /* releases are C18's */
void g_error_free (GError *e) { CHECK (0, "C17.error: there is no error"); }
gchar *g_strdup (const gchar *s) { CHECK (0, "C17.error: there is no error"); return 0; }
#undef g_strdup_printf
#define g_strdup_printf(...) g_strdup ("")
/* ---- the loaded model */
static preload_map_t M2; static preload_exe_t A2, B2; static preload_exemap_t L2; static preload_markov_t K2; static int maps_, exes_, links_, pairs_, nodes_, refs_, regA, regB; static gint64 id2, par2; static int cnt2; static preload_exe_t *node_exe;
static struct { int kind; gpointer k[2], v[2]; int n; } T[2]; static char t_obj[2][4]; static int tabs;
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc q, GDestroyNotify a, GDestroyNotify b)
{ CHECK (tabs < 2, "two tables"); CHECK (h == g_direct_hash || h == 0, "C17.index: by number"); return (GHashTable *) t_obj[tabs++]; }
GHashTable *g_hash_table_new (GHashFunc h, GEqualFunc q) { return g_hash_table_new_full (h, q, 0, 0); }
void g_hash_table_destroy (GHashTable *t) { }
void g_hash_table_unref (GHashTable *t) { }
static int tab (GHashTable *t) { return t == (GHashTable *) t_obj[0] ? 0 : t == (GHashTable *) t_obj[1] ? 1 : -1; }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{
  int x = tab (t); if (x < 0) { CHECK (t == (GHashTable *) t_maps || t == (GHashTable *) t_exes, "a table of the model"); return 0; }   /* nothing there yet is the same */
  for (int i = 0; i < 2; i++) if (i < T[x].n && T[x].k[i] == k) return T[x].v[i];
  return 0;
}
gboolean g_hash_table_lookup_extended (GHashTable *t, gconstpointer k, gpointer *a, gpointer *b) { gpointer v = g_hash_table_lookup (t, k); if (a) *a = (gpointer) k; if (b) *b = v; return v != 0; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{ int x = tab (t); CHECK (x >= 0, "C17.bad: programs that were too small are forgotten"); if (x < 0) return 1; CHECK (T[x].n < 2, "C17.one: every record gives one object"); if (T[x].n < 2) { T[x].k[T[x].n] = k; T[x].v[T[x].n++] = v; } return 1; }
preload_map_t *preload_map_new (const char *p, size_t o, size_t l) { CHECK (!maps_++, "C17.one: one region"); M2.path = (char *) p; M2.offset = o; M2.length = l; M2.update_time = state->time; M2.refcount = 0; M2.block = -1; return &M2; }
void preload_map_ref (preload_map_t *m) { CHECK (m == &M2, "the region"); refs_++; m->seq = ++state->map_seq; }
void preload_map_unref (preload_map_t *m) { refs_--; }
preload_exe_t *preload_exe_new (const char *p, gboolean run, GPtrArray *x)
{ CHECK (!run && !x, "C17.new: a loaded program is not running"); CHECK (exes_ < 2, "C17.one: every program once"); preload_exe_t *e = exes_++ ? &B2 : &A2; e->path = (char *) p; e->time = 0; e->size = 0; e->update_time = e->running_timestamp = -1; e->change_timestamp = state->time; return e; }
void preload_state_register_exe (preload_exe_t *e, gboolean mk)
{ CHECK (!mk, "C17.pairs: pairs are read, not made up"); CHECK (e->path == p_A || e->path == p_B, "C17.path: of a saved program"); if (e == &A2) regA++; else regB++; e->seq = ++state->exe_seq; }
preload_exemap_t *preload_exemap_new_from_exe (preload_exe_t *e, preload_map_t *m) { CHECK (!links_++, "C17.one: every link once"); CHECK (e->path == p_A && m == &M2, "C17.link: between the same program and region"); L2.map = m; L2.prob = 1.0; return &L2; }
preload_markov_t *preload_markov_new (preload_exe_t *a, preload_exe_t *b, gboolean init) { CHECK (!pairs_++, "C17.one: every pair once"); CHECK (a && b && a->path == p_A && b->path == p_B, "C17.pair: of the same programs"); HAVOC (K2); K2.a = a; K2.b = b; if (!init) { K2.time = 0; } return &K2; }
void vomm_import_node (gint64 id, preload_exe_t *e, int count, gint64 parent) { CHECK (!nodes_++, "C17.one: every node once"); node_exe = e; id2 = id; cnt2 = count; par2 = parent; }
void vomm_import_done (void) { }
int markov_compute_state (preload_markov_t *m) { return 0; }
double strtod (const char *s, char **e) { double v = 0; CHECK (!e, "strtod"); for (int i = 0; VP_DIGIT (s[i]); i++) v = v * 10 + (s[i] - '0'); return v; }
int atoi (const char *s) { return (int) strtod (s, 0); }
size_t strlen (const char *s) { size_t i = 0; while (s[i]) i++; return i; }
int strcmp (const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } }
int strncmp (const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
gboolean g_str_equal (gconstpointer a, gconstpointer b) { return !strcmp (a, b); }
int g_strcmp0 (const char *a, const char *b) { return strcmp (a, b); }
/* ---- every object of a table once */
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  int was = out_n;
  if (t == (GHashTable *) t_maps) { CHECK (!reading && !at_map, "C17.once: the regions are written once"); at_map = ++order; f (&M, GINT_TO_POINTER (1), d); }
  else if (t == (GHashTable *) t_bad) f (p_bad, GINT_TO_POINTER (bad_size), d);
  else {
    CHECK (t == (GHashTable *) t_exes && !reading, "C17.once: the programs are gone through"); CHECK (wrote_exes < 2, "C17.once: for their records and their links");
    int nl = links_; f (p_A, &A, d); f (p_B, &B, d); wrote_exes++; order++; if (!at_exe) at_exe = order;
  }
}
void preload_exe_foreach_exemap (preload_exe_t *e, GFunc f, gpointer d) { if (e != &A) return; CHECK (!at_link, "C17.once: the links are written once"); at_link = order + 1; f (&L, d); }
void preload_markov_foreach (GFunc f, gpointer d) { if (reading) { f (&K2, d); return; } CHECK (!at_pair, "C17.once: the pairs are written once"); at_pair = ++order; f (&K, d); }
void vomm_export_state (VommNodeWriter w, gpointer d) { CHECK (!at_node, "C17.once: the tree is written once"); at_node = ++order; w (v_id, B.seq, v_count, v_parent, d); }

#include "handling/state_io.c"

#define ROUND(r) __CPROVER_uninterpreted_round (r, 6)
static _Bool same_real (double saved, double loaded, int exact) { return loaded == saved || loaded == __CPROVER_uninterpreted_round (saved, 6) || loaded == __CPROVER_uninterpreted_round (saved, 7) || loaded == __CPROVER_uninterpreted_round (saved, 9) || loaded == __CPROVER_uninterpreted_round (saved, 15) || loaded == __CPROVER_uninterpreted_round (saved, 17); }
void h_roundtrip (void)
{
  HAVOC (M); HAVOC (A); HAVOC (B); HAVOC (L); HAVOC (K); HAVOC (v_id); HAVOC (v_parent); HAVOC (v_count); HAVOC (bad_size); HAVOC (clock_); HAVOC (state[0]); HAVOC (wl); HAVOC (rl);
  M.path = p_M; A.path = p_A; B.path = p_B; L.map = &M; K.a = &A; K.b = &B; state->maps = (GHashTable *) t_maps; state->exes = (GHashTable *) t_exes; state->bad_exes = (GHashTable *) t_bad;
  ASSUME (A.seq != B.seq); ASSUME (state->map_seq >= 0 && state->map_seq < (1l << 62)); ASSUME (state->exe_seq >= 0 && state->exe_seq < (1l << 62)); state->time = clock_; p_bad[0] = p_M[0] = p_A[0] = p_B[0] = '/';
  ASSUME (L.prob == L.prob); for (int i = 0; i < 4; i++) ASSUME (K.time_to_leave[i] == K.time_to_leave[i]);
  vp_f = (GIOChannel *) vp_fobj; out_n = out_at = 0; lines_made = 0; reading = 0;
  char *e = write_state (vp_f); CHECK (e == 0, "C17.write: nothing fails"); CHECK (out_n > 0 && out.c[out_n - 1] == '\n', "C17.write: the last line is ended");
  CHECK (at_map && at_exe && at_link && at_pair && at_node && wrote_exes, "C17.all: every kind of record is written");
  CHECK (at_map < at_link && at_exe <= at_link && at_exe < at_pair && at_exe < at_node, "C17.order: nothing is referred to before it is written");
  HAVOC (state->time); HAVOC (state->last_accounting_timestamp); reading = 1; lines_made = 1;
  e = read_state (vp_f); CHECK (e == 0, "C17.read: what was written can be read"); CHECK (out_at == out_n, "C17.read: to the end");
  CHECK (state->time == clock_, "C17.clock: the clock is the saved one");
  CHECK (maps_ == 1 && refs_ == 1 && M2.path == p_M && M2.offset == M.offset && M2.length == M.length, "C17.region: same path, offset and length"); CHECK (M2.update_time == M.update_time, "C17.region: same time");
  CHECK (exes_ == 2 && regA == 1 && regB == 1 && A2.path == p_A && B2.path == p_B, "C17.program: same paths"); CHECK (A2.time == A.time && A2.update_time == A.update_time && B2.time == B.time && B2.update_time == B.update_time, "C17.program: same times");
  CHECK (links_ == 1, "C17.link: is there"); CHECK (same_real (L.prob, L2.prob, 0), "C17.link: same weight to six digits");
  CHECK (pairs_ == 1 && K2.a == &A2 && K2.b == &B2, "C17.pair: of the same programs in the same order"); CHECK (K2.time == K.time, "C17.pair: same time together");
  for (int i = 0; i < 4; i++) { CHECK (same_real (K.time_to_leave[i], K2.time_to_leave[i], 0), "C17.pair: same mean times to six digits"); for (int j = 0; j < 4; j++) CHECK (K2.weight[i][j] == K.weight[i][j], "C17.pair: same counts"); }
  CHECK (nodes_ == 1 && node_exe == &B2 && id2 == v_id && cnt2 == v_count && par2 == v_parent, "C17.node: same program, number, count and parent");
  COVER (M.length > (1ul << 40) && A.seq > (1l << 40), "large values"); COVER (v_count > 5, "a count");
}
