/* C18: read_state and preload_state_read_file, the real code, on any file.  The loop over the lines is under an invariant, each
 * line is any text (lib/text.h says what a format is; here every conversion may fail or give any value), and the tables hold
 * anything that lines before can have put there.  The loop is cut: its variables and the world are made any that agree with
 * the invariant (checked at the start and after the line), and one more line is read.  What programs, regions, links, pairs and nodes do is C01-C03 and vomm.c's. */
#include "common.h"
#include <glib/gstdio.h>
#include "state_io.h"
#include "state.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "vomm.h"
#include "log.h"
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
#define VP_TEXT_ANY
#include "../lib/text.h"
#undef open
#undef close
preload_state_t state[1]; int preload_log_level;
int errno_; int *__errno_location (void) { return &errno_; }
#undef g_string_free
#undef g_string_new
#undef g_string_truncate
typedef struct { gpointer key, val; _Bool used; } vp_memo;
#define VP_FIELDS 32
static struct {
  gint64 lines; char *cur; size_t len;                             /* lines read; the present one and its length */
  _Bool header, ignore; int major;                                 /* line 1 is the header of this version / says the file is to be ignored */
  _Bool first_tag; int conv, nv; uint64_t v[VP_FIELDS];            /* what was converted on this line */
  vp_memo m[3], e[3]; int fresh;                                   /* what its lookups said */
  _Bool map_dup, exe_dup, path, path_freed, map, map_in, map_freed, mpath_freed, exe, exe_in, exe_reg, exe_freed, pair, err, ioerr; int refs;
} G;
static char *vp_b[2]; static size_t vp_bsize; static GString g_l; static _Bool l_live;
static char vp_fobj[4], t_maps[4], t_exes[4], t_im[4], t_ie[4], vp_p[4], vp_mp[4], vp_ep[4], vp_m1[4], vp_m2[4], vp_em[4]; static int m1, m2; static _Bool names_line[2], im, ie, im_owns;
static preload_map_t NM, D1m, D2m; static preload_exe_t NE, D1, D2; static preload_markov_t K; static preload_exemap_t X; static GError vp_e; static int major_run; static int f_live; static _Bool loaded_, over;
static int *l_no, calls; static char *l_tag; struct _read_context_t; static struct _read_context_t *l_rc;
static void vp_locals (int *no, char *tag, struct _read_context_t *rc) { l_no = no; l_tag = tag; l_rc = rc; }
static void vp_cut (GString *b);
static void line_done (void)      /* a line that was not refused: what it made is complete */
{
  if (G.map) { CHECK (G.map_in == !G.map_freed, "C18.region: a region is kept or released"); CHECK (!G.map_in || G.refs == 1, "C18.region: a region that is kept is referred to once"); CHECK (!G.map_in || G.conv >= 7, "C18.complete: a region's record is complete"); }
  if (G.exe) { CHECK (G.exe_in == G.exe_reg && G.exe_in == !G.exe_freed, "C18.program: a program is kept or released"); CHECK (!G.exe_in || G.conv >= 6, "C18.complete: a program's record is complete"); }
  CHECK (!G.pair || G.conv >= 24, "C18.complete: a pair's record is complete");
}
static void next_line (void)
{
  CHECK (G.lines < (1l << 31) - 2, "lines"); G.conv = G.nv = 0; G.fresh = 0; for (int i = 0; i < 3; i++) G.m[i].used = G.e[i].used = 0;
  G.map_dup = nondet_bool (); G.exe_dup = nondet_bool (); G.path = G.path_freed = G.map = G.map_in = G.map_freed = G.mpath_freed = G.exe = G.exe_in = G.exe_reg = G.exe_freed = G.pair = 0; G.refs = 0;
}
GString *g_string_sized_new (gsize n) { CHECK (!l_live, "one line buffer"); l_live = 1; g_l.str = vp_b[0]; g_l.len = 0; g_l.str[0] = 0; G.cur = vp_b[0]; G.len = 0; return &g_l; }
GString *g_string_new (const gchar *t) { return g_string_sized_new (0); }
gchar *g_string_free (GString *s, gboolean all) { CHECK (s == &g_l && l_live && all, "C18.memory: the line is released once"); l_live = 0; return 0; }
GIOStatus g_io_channel_read_line_string (GIOChannel *f, GString *b, gsize *t, GError **e)
{
  CHECK (f == (GIOChannel *) vp_fobj && f_live == 1 && b == &g_l && l_live, "C18.memory: read from the open file into the line"); CHECK (e && *e == 0, "C18.memory: an error is reported before the next one");
  line_done (); CHECK (*l_no == G.lines, "C18.error: lines are counted"); CHECK (G.lines == 0 || G.header, "C18.header: nothing more is read from a file of another version, or without the header");
  if (calls++) STOP ();
  vp_cut (b);
  int how = nondet_int ();
  if (how == 1) { next_line (); return G_IO_STATUS_AGAIN; }
  if (how == 2) { next_line (); G.ioerr = G.err = 1; *e = &vp_e; return G_IO_STATUS_ERROR; }
  if (how == 3) { next_line (); return G_IO_STATUS_EOF; }
  next_line (); ASSUME (G.lines < (1l << 31) - 4); G.lines++; if (nondet_bool ()) G.cur = vp_b[1]; else G.cur = vp_b[0]; G.len = nondet_size (); ASSUME (G.len < vp_bsize);
  b->str = G.cur; ASSUME (b->len >= G.len && b->len < vp_bsize); char c = (char) nondet_int (); G.cur[0] = c; if (G.len) ASSUME (c != 0); else ASSUME (c == 0);
  return G_IO_STATUS_NORMAL;
}
#undef sscanf
#define sscanf(l, ...) line_scan (l, VP_FMT (VP_SA, __VA_ARGS__))
static int line_scan (const char *s, const char *f, int na, vp_arg *a)
{
  CHECK (__CPROVER_same_object (s, G.cur) && (size_t) __CPROVER_POINTER_OFFSET (s) <= G.len, "C18.memory: the text scanned is within the line"); ASSUME (__CPROVER_same_object (s, G.cur) && (size_t) __CPROVER_POINTER_OFFSET (s) <= G.len);     /* just shown */
  size_t left = G.len - (size_t) __CPROVER_POINTER_OFFSET (s); int k = 0, got = 0; _Bool start = left == G.len;
  for (int i = 0; f[i]; ) {
    if (VP_SPACE (f[i])) { i++; continue; }
    if (f[i] != '%') { if (left == 0 || nondet_bool ()) return got; start = 0; i++; continue; }
    vp_conv c; i = vp_directive (f, i + 1, &c, 1);
    if (!c.skip && k >= na) { CHECK (0, "scan: a variable for every conversion"); STOP (); }
    if (c.conv == 'n') { CHECK (a[k].kind == T_INT && a[k].size == c.len && c.len == 4, "scan: the variable has the size of the conversion"); unsigned n = nondet_uint (); ASSUME (n <= (unsigned) left && n >= (unsigned) got); *(int *) a[k].p = (int) n; k++; continue; }
    if (c.conv == '[') { if (f[i] == '^' && f[i + 1]) i++; i++; while (f[i] && f[i] != ']') i++; if (f[i]) i++; if (!c.skip) { vp_format_without_contract (); return got; } }
    else if (c.conv != 's' && c.conv != 'd' && c.conv != 'u' && c.conv != 'x' && c.conv != 'g' && c.conv != 'e' && c.conv != 'f') { vp_format_without_contract (); return got; }
    if (left < (size_t) got + 1 || nondet_bool ()) return got || nondet_bool () ? got : -1;          /* the line ends, or something else is there */
    if (c.skip) { start = 0; continue; }
    if (c.conv == 's') {
      CHECK (a[k].kind == T_TEXT && c.width > 0 && (size_t) c.width < a[k].room, "C18.memory: the text fits into its buffer");
      char *d = a[k].p; size_t n = nondet_size (); ASSUME (n >= 1 && n <= (size_t) c.width && n <= left);
      if (a[k].room <= 64) { for (size_t j = 0; j < 64; j++) { if (j >= n) break; char ch = (char) nondet_int (); ASSUME (ch != 0 && !VP_SPACE (ch)); d[j] = ch; } }
      else { char ch = (char) nondet_int (); ASSUME (ch != 0 && !VP_SPACE (ch)); d[0] = ch; d[c.width] = 0; }
      if (a[k].room <= 64) d[n] = 0; if (start && (!VP_SPACE (G.cur[0]))) ASSUME (d[0] == G.cur[0]);
      if (G.lines == 1 && !G.conv) { static const char h[] = "PRELOAD"; _Bool same = 1; for (int j = 0; j < 8; j++) { if (d[j] != h[j]) { same = 0; break; } } G.first_tag = same; G.ignore = !same; }
    } else if (c.conv == 'g' || c.conv == 'e' || c.conv == 'f') {
      CHECK (a[k].kind == T_REAL && a[k].size == c.len, "scan: the variable has the size of the conversion"); if (c.len == 8) *(double *) a[k].p = nondet_double (); else { float r; *(float *) a[k].p = r; }
    } else {
      CHECK (a[k].kind == T_INT && a[k].size == c.len, "scan: the variable has the size of the conversion"); uint64_t v = nondet_u64 ();
      if (c.len == 8) *(uint64_t *) a[k].p = v; else if (c.len == 4) *(uint32_t *) a[k].p = (uint32_t) v; else { vp_format_without_contract (); return got; }
      if (G.nv < VP_FIELDS) G.v[G.nv++] = v;
      if (G.lines == 1 && G.first_tag && G.nv == 1) { G.major = (int) v; G.header = (int) v == major_run; G.ignore = !G.header; }
    }
    start = 0; k++; got++; G.conv++;
  }
  return got;
}
static _Bool field (uint64_t v) { for (int i = 0; i < 8; i++) if (i < G.nv && G.v[i] == v) return 1; return 0; }
#define LOADS(what) CHECK (G.header && !over, "C18.header: " what " only from a file of this version")
gchar *g_filename_from_uri (const gchar *u, gchar **h, GError **e)
{
  CHECK (e && *e == 0, "C18.memory: an error is reported before the next one"); CHECK (!G.path, "a path of a record");
  if (nondet_bool ()) { G.err = 1; *e = &vp_e; return 0; }
  G.path = 1; G.path_freed = 0; return vp_p;
}
void g_free (gpointer p)
{
  if (!p) return;
  if (p == vp_p) { CHECK (G.path && !G.path_freed, "C18.memory: released once"); G.path_freed = 1; }
  else if (p == vp_mp) { CHECK (G.map && !G.map_in && G.refs == 0 && !G.mpath_freed && !G.map_freed, "C18.memory: a region that is used is not released"); G.mpath_freed = 1; }
  else if (p == &NM) { CHECK (G.map && !G.map_in && G.refs == 0 && !G.map_freed, "C18.memory: a region that is used is not released"); G.map_freed = 1; }
  else if (p == vp_m1) { CHECK (m1 == 1, "C18.memory: released once"); m1 = 2; } else if (p == vp_m2) { CHECK (m2 == 1, "C18.memory: released once"); m2 = 2; }
  else vp_format_without_contract ();
}
void g_error_free (GError *e) { CHECK (e == &vp_e && G.err, "C18.memory: the error is released once"); G.err = 0; }
void g_clear_error (GError **e) { if (e && *e) { g_error_free (*e); *e = 0; } }
static gchar *message (const char *f, int n, vp_arg *a)
{
  _Bool line = 0; for (int i = 0; i < n; i++) {
    if (a[i].kind == T_INT && (gint64) (int) a[i].v == G.lines) line = 1;
    if (a[i].kind == T_TEXT) { CHECK (a[i].p != 0, "C18.error: the error is described"); if (a[i].p == vp_em) CHECK (G.err, "C18.memory: the error is still there"); if (a[i].p == vp_m1) { CHECK (m1 == 1, "C18.memory: the message is still there"); if (names_line[0]) line = 1; } }
  }
  if (!m1) { m1 = 1; names_line[0] = line; return vp_m1; } CHECK (!m2, "two messages"); m2 = 1; names_line[1] = line; return vp_m2;
}
#undef g_strdup_printf
#define g_strdup_printf(...) message (VP_FMT (VP_PA, __VA_ARGS__))
/* ---- tables */
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc q, GDestroyNotify a, GDestroyNotify b)
{
  CHECK (h == g_direct_hash || h == 0, "C18.index: by number");
  if (b == (GDestroyNotify) preload_map_unref) { CHECK (!im, "one table of regions"); im = 1; im_owns = 1; return (GHashTable *) t_im; }
  if (a || b) vp_format_without_contract ();
  CHECK (!ie, "one table of programs"); ie = 1; return (GHashTable *) t_ie;
}
GHashTable *g_hash_table_new (GHashFunc h, GEqualFunc q) { return g_hash_table_new_full (h, q, 0, 0); }
void g_hash_table_destroy (GHashTable *t) { if (t == (GHashTable *) t_im) { CHECK (im, "C18.memory: released once"); im = 0; } else { CHECK (t == (GHashTable *) t_ie && ie, "C18.memory: released once"); ie = 0; } over = 1; }
void g_hash_table_unref (GHashTable *t) { g_hash_table_destroy (t); }
static gpointer recall (vp_memo *m, gconstpointer k, gpointer a, gpointer b)
{
  for (int i = 0; i < 3; i++) { if (!m[i].used) { m[i].used = 1; m[i].key = (gpointer) k; m[i].val = 0; _Bool x = i == 0 || (m[0].val != a && (i == 1 || m[1].val != a)), y = i == 0 || (m[0].val != b && (i == 1 || m[1].val != b));
      if (nondet_bool ()) { if (x) m[i].val = a; else if (y) m[i].val = b; } return m[i].val; }     /* nothing, or a program or region of its own */
    if (m[i].key == k) return m[i].val; }
  vp_format_without_contract (); return 0;
}
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{
  if (t == (GHashTable *) t_im) { CHECK (im, "C18.memory: the table is still there"); return recall (G.m, k, &D1m, &D2m); }
  if (t == (GHashTable *) t_ie) { CHECK (ie, "C18.memory: the table is still there"); return recall (G.e, k, &D1, &D2); }
  if (t == (GHashTable *) t_maps) { if (k != &NM) { vp_format_without_contract (); return 0; } CHECK (G.map && !G.map_freed, "C18.memory: the region is still there"); if (G.map_dup) return &D1m; return 0; }
  if (t == (GHashTable *) t_exes) { if (k != vp_ep && k != vp_p) { vp_format_without_contract (); return 0; } CHECK (k == vp_p ? G.path && !G.path_freed : G.exe && !G.exe_freed, "C18.memory: the path is still there"); if (G.exe_dup) return &D1; return 0; }
  vp_format_without_contract (); return 0;
}
gboolean g_hash_table_lookup_extended (GHashTable *t, gconstpointer k, gpointer *a, gpointer *b) { gpointer v = g_hash_table_lookup (t, k); if (a) *a = (gpointer) k; if (b) *b = v; return v != 0; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{
  LOADS ("indexes are given");
  if (t == (GHashTable *) t_im) { CHECK (v == &NM && G.map && !G.map_in && !G.map_freed && !G.mpath_freed, "C18.region: the region of the record gets the index"); CHECK (recall (G.m, k, &D1m, &D2m) == 0, "C18.index: an index is given once"); CHECK (field ((uint64_t) k), "C18.index: the index of the record"); CHECK (G.refs == 1, "C18.memory: a region in the table is referred to"); CHECK (!G.map_dup, "C18.region: no two regions are the same"); G.map_in = 1; }
  else { CHECK (t == (GHashTable *) t_ie, "C18.index: programs and regions have indexes"); CHECK (v == &NE && G.exe && !G.exe_in && !G.exe_freed, "C18.program: the program of the record gets the index"); CHECK (recall (G.e, k, &D1, &D2) == 0, "C18.index: an index is given once"); CHECK (field ((uint64_t) k), "C18.index: the index of the record"); G.exe_in = 1; }
  return 1;
}
gboolean g_hash_table_replace (GHashTable *t, gpointer k, gpointer v) { return g_hash_table_insert (t, k, v); }
/* ---- the model */
preload_map_t *preload_map_new (const char *p, size_t o, size_t l)
{ CHECK (p == vp_p && G.path && !G.path_freed, "C18.region: has the path of the record"); CHECK (!G.map, "one region"); CHECK (field (o) && field (l), "C18.region: has the offset and length of the record"); G.map = 1; NM.path = vp_mp; NM.offset = o; NM.length = l; NM.refcount = 0; NM.block = -1; NM.update_time = state->time; return &NM; }
void preload_map_ref (preload_map_t *m) { LOADS ("regions are loaded"); CHECK (m == &NM && G.map && !G.map_freed && !G.mpath_freed && !G.refs, "C18.region: the region is kept once"); CHECK (!G.map_dup, "C18.region: no two regions are the same"); G.refs++; }
void preload_map_unref (preload_map_t *m) { CHECK (m == &NM && G.refs == 1 && !G.map_in, "C18.region: a region is released only when it is not kept"); G.refs--; G.map_freed = G.mpath_freed = 1; }
void preload_map_free (preload_map_t *m) { CHECK (m == &NM && G.map && !G.map_freed && !G.mpath_freed && !G.refs && !G.map_in, "C18.memory: a region that is used is not released"); G.map_freed = G.mpath_freed = 1; }
preload_exe_t *preload_exe_new (const char *p, gboolean run, GPtrArray *x)
{ CHECK (p == vp_p && G.path && !G.path_freed && !x, "C18.program: has the path of the record"); CHECK (!run, "C18.program: is not running"); CHECK (!G.exe, "one program"); G.exe = 1; NE.path = vp_ep; NE.running_timestamp = -1; return &NE; }
void preload_exe_free (preload_exe_t *e) { CHECK (e == &NE && G.exe && !G.exe_freed && !G.exe_in && !G.exe_reg, "C18.memory: a program that is used is not released"); G.exe_freed = 1; }
void preload_state_register_exe (preload_exe_t *e, gboolean mk)
{ LOADS ("programs are loaded"); CHECK (e == &NE && G.exe && !G.exe_reg && !G.exe_freed && !mk, "C18.program: the program of the record is registered, without pairs"); CHECK (!G.exe_dup, "C18.program: no two programs share a path"); G.exe_reg = 1; }
preload_exemap_t *preload_exemap_new_from_exe (preload_exe_t *e, preload_map_t *m)
{ LOADS ("links are loaded"); CHECK ((e == &D1 || e == &D2) && (m == &D1m || m == &D2m), "C18.index: a link is between a program and a region defined earlier"); CHECK (G.conv >= 4, "C18.complete: a link's record is complete"); return &X; }
preload_markov_t *preload_markov_new (preload_exe_t *a, preload_exe_t *b, gboolean init)
{ LOADS ("pairs are loaded"); CHECK ((a == &D1 || a == &D2) && (b == &D1 || b == &D2), "C18.index: a pair is of programs defined earlier"); CHECK (a != b, "C18.pair: no pair links a program to itself"); CHECK (!init && !G.pair, "one pair"); G.pair = 1; K.a = a; K.b = b; return &K; }
void vomm_import_node (gint64 id, preload_exe_t *e, int count, gint64 parent) { LOADS ("nodes are loaded"); CHECK (e == &D1 || e == &D2, "C18.index: a node is of a program defined earlier"); CHECK (G.conv >= 5 && field ((uint64_t) id) && field ((uint64_t) parent), "C18.complete: a node's record is complete"); }
void vomm_import_done (void) { }
int markov_compute_state (preload_markov_t *m) { return nondet_int (); }
void preload_markov_foreach (GFunc f, gpointer d) { if (nondet_bool ()) f (&K, d); }
double strtod (const char *s, char **e) { double v = 0; CHECK (!e, "strtod"); for (int i = 0; VP_DIGIT (s[i]); i++) v = v * 10 + (s[i] - '0'); return v; }
int atoi (const char *s) { return (int) strtod (s, 0); }
size_t strlen (const char *s) { size_t i = 0; while (s[i]) i++; return i; }
int strcmp (const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } }
int strncmp (const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
gboolean g_str_equal (gconstpointer a, gconstpointer b) { return !strcmp (a, b); }
int g_strcmp0 (const char *a, const char *b) { return strcmp (a, b); }
static int opened;
GIOChannel *g_io_channel_new_file (const gchar *n, const gchar *m, GError **e)
{ CHECK (m[0] == 'r' && !m[1] && !opened++, "C18.read: the file is opened for reading"); CHECK (e && *e == 0, "an error place"); if (nondet_bool ()) { G.err = 1; *e = &vp_e; return 0; } f_live = 1; return (GIOChannel *) vp_fobj; }
void g_io_channel_unref (GIOChannel *f) { CHECK (f == (GIOChannel *) vp_fobj && f_live == 1, "C18.memory: the file is released once"); f_live = 2; }

#include "handling/state_io.c"
static void vp_cut (GString *b)
{
  HAVOC (*l_rc); l_rc->err = 0; l_rc->errmsg = 0; l_rc->maps = (GHashTable *) t_im; l_rc->exes = (GHashTable *) t_ie; HAVOC (*l_no); ASSUME (*l_no >= 0 && *l_no < (1l << 31) - 4); G.lines = *l_no; G.header = G.lines > 0; G.ignore = 0; G.first_tag = G.header; G.major = major_run;
  for (int i = 0; i < 31; i++) l_tag[i] = (char) nondet_int (); HAVOC (state->time); HAVOC (state->last_accounting_timestamp); HAVOC (b->len); if (nondet_bool ()) b->str = vp_b[1];
}

void h_load (void)
{
  HAVOC (NM); HAVOC (NE); HAVOC (K); HAVOC (X); HAVOC (state[0]); HAVOC (vp_e); vp_e.message = vp_em; HAVOC (g_l);
  D1.path = vp_ep; D2.path = vp_ep; K.a = &D1; K.b = &D2;
  vp_bsize = nondet_size (); ASSUME (vp_bsize >= 1 && vp_bsize < (1u << 30)); vp_b[0] = malloc (vp_bsize); vp_b[1] = malloc (vp_bsize); ASSUME (vp_b[0] != 0 && vp_b[1] != 0);
  state->maps = (GHashTable *) t_maps; state->exes = (GHashTable *) t_exes; major_run = (int) strtod (VERSION, 0);
  calls = 0; G.lines = 0; G.header = G.ignore = G.err = G.ioerr = G.first_tag = 0; next_line (); l_live = 0; m1 = m2 = 0; names_line[0] = names_line[1] = im = ie = im_owns = over = 0; opened = f_live = 0;
  char *e = preload_state_read_file ("/state");
  if (f_live) {
    CHECK (f_live == 2 && !l_live && !im && !ie && !G.err, "C18.memory: the file, the tables, the line and the error are released");
    if (!e) line_done ();
    CHECK (!G.ioerr || e, "C18.error: a file that cannot be read is refused");
    CHECK (!e || (e == vp_m1 ? m1 == 1 && names_line[0] : e == vp_m2 && m2 == 1 && names_line[1]), "C18.error: an error names the offending line");
    CHECK (!G.ignore || !e || (G.first_tag && G.conv < 3), "C18.header: a file of another version, or without the header, is ignored");
  }
  COVER (f_live && G.lines > 5 && !e, "a long file is loaded"); COVER (f_live && G.lines > 5 && e != 0, "a long file is refused"); COVER (G.ignore && G.first_tag, "a file of another version"); COVER (G.ignore && !G.first_tag, "no header");
}
