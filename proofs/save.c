/* C16: preload_state_write_file with every call that can fail failing or not, over a model of any size: the state file is
 * touched by nothing but one rename of a file that is complete, flushed and synced; whatever fails is reported.
 * The walks over the model are contracts: any number of earlier records, then one arbitrary real one. */
#include "common.h"
#include <glib/gstdio.h>
#include "state_io.h"
#include "state.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "vomm.h"
#include "log.h"
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
preload_state_t state[1]; int preload_log_level;
static int vp_errno; int *__errno_location (void) { return &vp_errno; }
void vp_format_without_contract (void);
/* ---- what the code owns: texts, one error, one channel, one file */
static char sf[4], err_text[4], chan_[4]; static char *tmp; static int texts; static GError vp_err; static _Bool err_live, chan_live, fd_open, ours, on_disk, lost, flushed, synced, replaced, removed, closed_once, empty; static int vp_fd, at_maps, at_exes, at_links, at_pairs, at_tree, writes;
static char t_maps[4], t_exes[4], t_bad[4];
static char *text_new (void) { char *p = malloc (2); ASSUME (p != 0); p[0] = 'x'; p[1] = 0; texts++; return p; }
void g_free (gpointer p) { if (!p) return; CHECK (p != sf, "C16.release: only its own texts are released"); texts--; free (p); }
gchar *g_strdup (const gchar *s) { CHECK (s && (s != err_text || err_live), "C16.report: the message of an error"); return text_new (); }
#undef g_strconcat
#undef g_strdup_printf
#define g_strconcat(a, ...) (CHECK_ARG (a), text_new ())
#define CHECK_ARG(a) vp_same_dir (a)
#define g_strdup_printf(...) text_new ()
static void vp_same_dir (const char *a) { CHECK (a == sf, "C16.temporary: beside the state file"); }
char *strerror (int e) { return err_text; }
#undef g_string_printf
#undef g_string_append_printf
#undef g_string_free
#define g_string_printf(...) ((void) 0)
#define g_string_append_printf(...) ((void) 0)
static GString gs; static char gs_text[8]; static int strs;
GString *g_string_sized_new (gsize n) { gs.str = gs_text; gs_text[0] = 'l'; gs_text[1] = 0; strs++; return &gs; }
GString *(g_string_new) (const gchar *t) { return g_string_sized_new (0); }
gchar *(g_string_free) (GString *s, gboolean all) { CHECK (s == &gs && strs == 1 && all, "C16.release: the line is released once"); strs--; return 0; }
static void raise_error (GError **e) { CHECK (e && !*e && !err_live, "C16.report: no error is overwritten or ignored"); if (!e) return; vp_err.message = err_text; err_live = 1; *e = &vp_err; }
void g_error_free (GError *e) { CHECK (e == &vp_err && err_live, "C16.release: the error is released once"); err_live = 0; }
void g_clear_error (GError **e) { if (e && *e) { g_error_free (*e); *e = 0; } }
/* ---- the file */
static int vp_open (const char *p, int fl)
{
  CHECK (p && p != sf, "C16.atomic: the state file itself is never opened for writing"); CHECK (!fd_open, "C16.close: one file at a time"); CHECK ((fl & O_ACCMODE) != O_RDONLY && ((fl & O_CREAT) || on_disk), "C16.temporary: a file of its own");
  CHECK (!tmp || tmp == p, "C16.temporary: one temporary file"); tmp = (char *) p;
  if ((fl & O_EXCL) && on_disk) { vp_errno = EEXIST; return -1; }
  if (nondet_bool ()) { HAVOC (vp_errno); ASSUME (vp_errno > 0); if (fl & O_EXCL) ASSUME (vp_errno != EEXIST); return -1; }
  if (!on_disk) { if (!(fl & O_CREAT)) { vp_errno = ENOENT; return -1; } empty = 1; } else empty = (fl & O_TRUNC) != 0;
  fd_open = on_disk = ours = 1; removed = lost = flushed = synced = 0; HAVOC (vp_fd); ASSUME (vp_fd >= 0); return vp_fd;
}
#undef open
#define open(p, f, ...) vp_open (p, f)
#undef g_open
#define g_open(p, f, ...) vp_open (p, f)
static int shut (int fd) { CHECK (fd_open && fd == vp_fd, "C16.close: the file is closed once"); fd_open = 0; if (nondet_bool ()) { HAVOC (vp_errno); return -1; } return 0; }
int close (int fd) { return shut (fd); }
gboolean g_close (gint fd, GError **e) { if (shut (fd)) { if (e) raise_error (e); return FALSE; } return TRUE; }
int fsync (int fd) { CHECK (fd_open && fd == vp_fd, "C16.sync: the open file is synced"); if (nondet_bool ()) { HAVOC (vp_errno); return -1; } synced = flushed; return 0; }
int fdatasync (int fd) { return fsync (fd); }
#undef g_unlink
#undef g_rename
#undef g_remove
#undef g_lstat
#undef g_stat
#undef g_access
static int gone (const char *p) { CHECK (p && p != sf, "C16.atomic: the old state file is never removed"); CHECK (!tmp || p == tmp, "C16.temporary: only the temporary file is removed"); tmp = (char *) p; if (replaced || !on_disk) { vp_errno = ENOENT; return -1; } if (nondet_bool ()) { HAVOC (vp_errno); if (ours) removed = 1; return -1; } on_disk = 0; removed = 1; return 0; }
int ftruncate (int fd, __off_t n) { CHECK (fd_open && fd == vp_fd && n == 0 && !writes, "C16.temporary: only an old temporary file is cut off"); if (nondet_bool ()) { HAVOC (vp_errno); return -1; } empty = 1; return 0; }
static int vp_stat (const char *p, struct stat *b) { CHECK (p && b && (p == sf || p == tmp), "C16.temporary: its own files"); HAVOC (*b); if (nondet_bool () || (p == tmp && !on_disk)) { HAVOC (vp_errno); return -1; } return 0; }
int lstat (const char *p, struct stat *b) { return vp_stat (p, b); }
int stat (const char *p, struct stat *b) { return vp_stat (p, b); }
int g_lstat (const gchar *p, GStatBuf *b) { return vp_stat (p, b); }
int g_stat (const gchar *p, GStatBuf *b) { return vp_stat (p, b); }
int access (const char *p, int m) { if (nondet_bool () || (p == tmp && !on_disk)) { HAVOC (vp_errno); return -1; } return 0; }
gboolean g_file_test (const gchar *p, GFileTest t) { return nondet_bool () && !(p == tmp && !on_disk); }
int unlink (const char *p) { return gone (p); }
int g_unlink (const gchar *p) { return gone (p); }
int remove (const char *p) { return gone (p); }
int g_remove (const gchar *p) { return gone (p); }
static int moved (const char *a, const char *b)
{
  CHECK (a == tmp && b == sf && ours && !replaced, "C16.atomic: the temporary file takes the place of the state file"); CHECK (!lost && !err_live, "C16.complete: only when nothing failed");
  CHECK (flushed && synced, "C16.complete: and everything is on disk"); CHECK (at_maps == 1 && at_exes >= 1 && at_links && at_pairs == 1 && at_tree == 1 && writes, "C16.complete: and everything was written");
  if (nondet_bool ()) { HAVOC (vp_errno); return -1; } replaced = 1; on_disk = 0; return 0;
}
int rename (const char *a, const char *b) { return moved (a, b); }
int g_rename (const gchar *a, const gchar *b) { return moved (a, b); }
/* ---- the channel */
GIOChannel *g_io_channel_unix_new (gint fd) { CHECK (fd_open && fd == vp_fd && !chan_live, "C16.file: the temporary file is written"); chan_live = 1; return (GIOChannel *) chan_; }
#define LIVE(f) CHECK (chan_live && (f) == (GIOChannel *) chan_ && fd_open, "C16.file: the open file is written")
GIOStatus g_io_channel_write_chars (GIOChannel *f, const gchar *s, gssize n, gsize *w, GError **e)
{ LIVE (f); CHECK (s != 0, "a text"); CHECK (empty, "C16.temporary: written into an empty file"); flushed = synced = 0; writes = 1; if (nondet_bool ()) { lost = 1; raise_error (e); return G_IO_STATUS_ERROR; } return G_IO_STATUS_NORMAL; }
GIOStatus g_io_channel_flush (GIOChannel *f, GError **e) { LIVE (f); if (nondet_bool ()) { if (e) raise_error (e); lost = 1; return G_IO_STATUS_ERROR; } flushed = 1; return G_IO_STATUS_NORMAL; }
void g_io_channel_unref (GIOChannel *f) { CHECK (chan_live && f == (GIOChannel *) chan_, "C16.close: the channel is released once"); chan_live = 0; }
void g_io_channel_set_close_on_unref (GIOChannel *f, gboolean b) { if (b) vp_format_without_contract (); }
GIOStatus g_io_channel_shutdown (GIOChannel *f, gboolean fl, GError **e) { vp_format_without_contract (); return G_IO_STATUS_NORMAL; }
GIOStatus g_io_channel_set_encoding (GIOChannel *f, const gchar *c, GError **e) { LIVE (f); return G_IO_STATUS_NORMAL; }
void g_io_channel_set_buffered (GIOChannel *f, gboolean b) { LIVE (f); }
void g_io_channel_set_buffer_size (GIOChannel *f, gsize n) { LIVE (f); }
gchar *g_filename_to_uri (const gchar *p, const gchar *h, GError **e) { CHECK (p && p[0] == '/', "C16.path: paths are absolute (C20)"); return text_new (); }
/* ---- the model */
static preload_map_t M; static preload_exe_t A, B; static preload_exemap_t L; static preload_markov_t K; static char path_[4];

#include "handling/state_io.c"

/* after any number of earlier records: nothing failed, or a write did and the error is kept */
static void jump (write_context_t *wc)
{
  CHECK (!wc->err && !lost, "C16.stop: nothing more is written after an error"); CHECK (wc->f == (GIOChannel *) chan_, "C16.file: the open file is written"); CHECK (empty, "C16.temporary: written into an empty file");
  flushed = synced = 0; writes = 1; if (nondet_bool ()) { lost = 1; raise_error (&wc->err); }
}
static write_context_t *cur;
static void kept (void) { CHECK (!lost || (cur->err == &vp_err && err_live), "C16.report: a record that could not be written is reported"); CHECK (!err_live || cur->err == &vp_err, "C16.report: and its error kept"); }
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  cur = d; jump (cur);
  if (t == (GHashTable *) t_maps) { at_maps++; f (&M, GINT_TO_POINTER (1), d); }
  else if (t == (GHashTable *) t_bad) f (path_, GINT_TO_POINTER (nondet_int ()), d);
  else { CHECK (t == (GHashTable *) t_exes, "C16.all: the tables of the model"); at_exes++; f (path_, &A, d); }
  kept ();
}
void preload_exe_foreach_exemap (preload_exe_t *e, GFunc f, gpointer d) { CHECK (e == &A, "a program's links"); at_links = 1; f (&L, d); kept (); f (&L, d); kept (); }
void preload_markov_foreach (GFunc f, gpointer d) { cur = d; jump (cur); at_pairs++; f (&K, d); kept (); }
void vomm_export_state (VommNodeWriter w, gpointer d) { cur = d; jump (cur); at_tree++; w (nondet_long (), nondet_long (), nondet_int (), nondet_long (), d); kept (); }
void h_write (void)
{
  HAVOC (state[0]); HAVOC (M); HAVOC (A); HAVOC (B); HAVOC (L); HAVOC (K); M.path = A.path = B.path = path_; path_[0] = '/'; L.map = &M; K.a = &A; K.b = &B;
  state->maps = (GHashTable *) t_maps; state->exes = (GHashTable *) t_exes; state->bad_exes = (GHashTable *) t_bad; preload_state_t was = state[0];
  on_disk = nondet_bool (); _Bool stale = on_disk; sf[0] = '/'; if (nondet_bool ()) sf[0] = 0; char *name = sf; if (nondet_bool ()) name = 0; _Bool none = !name || !sf[0];
  char *m = preload_state_write_file (name);
  CHECK (!fd_open && !chan_live, "C16.close: every opened file is closed"); CHECK (!err_live && strs == 0, "C16.release: the error and the line are released");
  if (none) { CHECK (!m && !tmp && !writes, "C16.none: without a state file nothing is written"); return; }
  CHECK (replaced == (m == 0), "C16.report: success is reported iff the state file was replaced"); CHECK (!m || m[0], "C16.report: a failure has a message");
  CHECK (!ours || replaced || removed, "C16.temporary: a temporary file that is not needed any more is removed");
  CHECK (state->dirty == was.dirty && state->time == was.time, "C16.frame: the model is as it was");
  COVER (replaced && stale, "saved over a stale temporary file"); COVER (m && ours && !lost && flushed && !synced, "the sync failed"); COVER (m && synced, "the rename failed"); COVER (m && !ours, "no file"); COVER (m && lost, "a write failed");
}
