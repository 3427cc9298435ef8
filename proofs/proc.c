/* C20, C21, C22: proc.c under contract.  Texts that the code only hands on are abstract (a pointer and facts about it);
 * directories, mappings and reports are arbitrary and of any length (loop contracts, inserted mechanically). */
#include "common.h"
#include "log.h"
#include "proc.h"
#include "conf.h"
#include "state.h"
#include <dirent.h>
#include <ctype.h>
#include <stdarg.h>
#undef isdigit
static int vp_isdigit (int c) { return c >= 48 && c <= 57; }
#define isdigit(c) vp_isdigit (c)
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
void vp_format_without_contract (void);
void g_free (gpointer p) { CHECK (p == 0, "nothing is released here"); }
#if defined VP_MAPS || defined VP_PROCS || defined VP_SANITIZE || defined VP_MEM     /* the verifier keeps one object per literal text */
#define same_text(a, b) ((const char *) (a) == (const char *) (b))
#else
static int same_text (const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } }
#endif

/* ------------------------------------------------------------------ C20: the filters */
#if defined VP_SANITIZE
static char *vp_file; static size_t vp_at_prelink; static _Bool has_prelink, has_deleted;
char *strstr (const char *h, const char *n)
{
  if (h != vp_file) { CHECK (0, "C20.sanitize: the path itself is searched"); STOP (); }
  if (same_text (n, ".#prelink#.")) return has_prelink ? vp_file + vp_at_prelink : 0;
  if (same_text (n, "(deleted)")) { char *r; size_t k; ASSUME (k < FILELEN); r = vp_file + k; return has_deleted ? r : 0; }
  vp_format_without_contract (); return 0;
}
#endif
#if defined VP_ACCEPT
/* a list of vp_n prefixes: vp_neg[i], entry i is negated; vp_match[i], the rest of it is a prefix of the path.
 * vp_w is the first matching entry (vp_n: none). */
extern _Bool vp_neg[__CPROVER_constant_infinity_uint], vp_match[__CPROVER_constant_infinity_uint];
static char **vp_list;   /* never dereferenced: every access goes through vp_pfx */
static int vp_n, vp_w, vp_cur; static char vp_entry[2]; static char *vp_slot, *vp_file, vp_path[8];
#define VP_IDX(p) ((long) (__CPROVER_POINTER_OFFSET (p) / sizeof (char *)))
static char **vp_pfx (char * const *p)
{
  long i = VP_IDX (p);
  CHECK (i >= 0 && i <= vp_n, "C20.accept: entries of the list are looked at");
  vp_cur = i; vp_entry[0] = vp_neg[i] ? '!' : '/'; vp_entry[1] = 0;
  ASSUME (i == vp_n || i != vp_w || vp_match[i]); ASSUME (i >= vp_w || !vp_match[i]);
  vp_slot = vp_entry; if (i == vp_n) vp_slot = 0;
  return &vp_slot;
}
size_t __CPROVER_uninterpreted_len (int i, int off);
size_t strlen (const char *s) { CHECK (s == vp_entry || s == vp_entry + 1, "C20.accept: the length of the entry"); return __CPROVER_uninterpreted_len (vp_cur, s - vp_entry); }
/* whether the text t of the current entry is a prefix of the path: the marker itself never is (paths begin with /) */
static int is_prefix (const char *f, const char *t)
{
  CHECK (f == vp_file, "C20.accept: the path is compared"); CHECK (t == vp_entry || t == vp_entry + 1, "C20.accept: with the entry");
  if (t == vp_entry + 1) return vp_neg[vp_cur] ? vp_match[vp_cur] : nondet_bool ();
  return !vp_neg[vp_cur] && vp_match[vp_cur];
}
int strncmp (const char *f, const char *t, size_t n)
{ if (t == vp_file) { const char *x = f; f = t; t = x; }
  CHECK (n == __CPROVER_uninterpreted_len (vp_cur, t - vp_entry), "C20.accept: over the whole length of the entry"); return is_prefix (f, t) ? 0 : 1; }
gboolean (g_str_has_prefix) (const gchar *f, const gchar *t) { return is_prefix (f, t); }
#endif

/* ------------------------------------------------------------------ C21: mappings */
#if defined VP_MAPS
static int vp_open_, vp_ends, vp_cnt, vp_snaps; static FILE *vp_fp; static char vp_fobj[8]; static const char *vp_name; static pid_t vp_pid; static _Bool vp_nofile;
static GHashTable *vp_maps; static GPtrArray vp_arr; static int vp_arrs; static _Bool vp_wantlinks;
struct line { _Bool full, sane, accepted, known; long start, end, off; };
static struct { struct line l; char *filep, *buf; _Bool san, asked, read_, live, owned, made_, added_; size_t sum, links, nadded; } G;   /* the line being looked at, and the totals */
#define ln G.l
#define vp_filep G.filep
#define vp_buf G.buf
#define vp_sanitized G.san
#define vp_asked G.asked
#define vp_read G.read_
#define new_live G.live
#define new_owned G.owned
#define made G.made_
#define added G.added_
#define vp_sum G.sum
#define vp_links G.links
#define vp_added G.nadded
static preload_map_t vp_new, vp_old; static preload_exemap_t vp_link;
#define TRACKED (ln.full && ln.sane && ln.accepted)
/* the line that was read last has been dealt with completely */
#define LINE_DONE (!vp_read || (TRACKED && vp_wantlinks ? added && made && (!new_live || new_owned) : !added && !made && !new_live))
#define g_snprintf(o, n, f, v) vp_snprintf (o, n, f, v)      /* not variadic: the verifier's instrumentation cannot handle that */
static gint vp_snprintf (gchar *o, gulong n, gchar const *f, int v)
{
  CHECK (__CPROVER_w_ok (o, n) && n >= 19, "C21.name: room for the name"); if (!same_text (f, "/proc/%d/maps")) vp_format_without_contract ();
  CHECK (v == vp_pid, "C21.name: the process given is examined"); vp_name = o; return 12;
}
FILE *fopen (const char *p, const char *m)
{ CHECK (p == vp_name && p, "C21.name: its mappings are read"); CHECK (m[0] == 'r' && m[1] == 0, "C21.name: for reading"); if (vp_nofile) return 0; CHECK (!vp_open_, "C21.fd: opened once"); vp_open_ = 1; return (FILE *) vp_fobj; }
int fclose (FILE *f) { CHECK (vp_open_ && f == (FILE *) vp_fobj, "C21.fd: closed once"); vp_open_ = 0; CHECK (LINE_DONE, "C21.line: the last line has been dealt with"); return 0; }
char *fgets (char *b, int n, FILE *f)
{
  CHECK (vp_open_ && f == (FILE *) vp_fobj, "C21.fd: the open file is read"); CHECK (n >= 700 && __CPROVER_w_ok (b, n), "C21.buffer: the line fits into the buffer");
  CHECK (LINE_DONE, "C21.line: each accepted line has given exactly one link to the right region, every other none");
  vp_read = 0; if (nondet_bool ()) return 0;
  vp_read = 1; vp_buf = b; HAVOC (ln); ASSUME (ln.start >= 0 && ln.end > ln.start && ln.off >= 0);
  vp_filep = 0; vp_sanitized = vp_asked = new_live = new_owned = made = added = 0;
  if (TRACKED) { vp_sum += (size_t) (ln.end - ln.start); if (vp_wantlinks) vp_links++; }
  return b;
}
#undef sscanf
/* not variadic: the verifier's instrumentation cannot handle that */
#define VP_PICK(a, b, c, d, e, f, g, ...) g
#define sscanf(...) VP_PICK (__VA_ARGS__, vp_scan6, vp_scan5, vp_scan4, vp_scan3, 0, 0) (__VA_ARGS__)
static int vp_scan3 (const char *b, const char *f, void *a) { vp_format_without_contract (); return 0; }
static int vp_scan4 (const char *b, const char *f, void *a, void *c) { vp_format_without_contract (); return 0; }
static int vp_scan5 (const char *b, const char *f, void *a, void *c, void *d) { vp_format_without_contract (); return 0; }
static int vp_scan6 (const char *b, const char *f, long *s, long *e, long *o, char *path)
{
  CHECK (b == vp_buf && vp_read, "C21.line: the line read is taken apart");
  if (!same_text (f, "%lx-%lx %*15s %lx %*x:%*x %*u %511[^\n]")) vp_format_without_contract ();
  vp_filep = path;
  CHECK (__CPROVER_w_ok (vp_filep, 512), "C21.buffer: the path fits");
  *s = ln.start; *e = ln.end; *o = ln.off; return ln.full ? 4 : 3;
}
static gboolean sanitize_file (char *file)
  __CPROVER_requires (file == vp_filep && ln.full) __CPROVER_assigns (vp_sanitized) __CPROVER_ensures (vp_sanitized && (__CPROVER_return_value != 0) == ln.sane);
static gboolean accept_file (char *file, char * const *prefix)
  __CPROVER_requires (file == vp_filep && vp_sanitized && ln.sane && prefix == conf->system.mapprefix) __CPROVER_assigns (vp_asked) __CPROVER_ensures (vp_asked && (__CPROVER_return_value != 0) == ln.accepted);
preload_map_t *preload_map_new (const char *p, size_t off, size_t len)
{
  CHECK (TRACKED && vp_asked && p == vp_filep, "C21.region: a region is made for an accepted path only"); CHECK (off == (size_t) ln.off && len == (size_t) (ln.end - ln.start), "C21.region: with the line's offset and length");
  CHECK (!new_live, "C21.region: one per line"); new_live = 1; return &vp_new;
}
void preload_map_free (preload_map_t *m) { CHECK (m == &vp_new && new_live && !new_owned, "C21.free: only the new, unused region is freed, once"); new_live = 0; }
gboolean g_hash_table_lookup_extended (GHashTable *t, gconstpointer k, gpointer *ok, gpointer *ov)
{
  CHECK (t == vp_maps && t, "C21.reuse: looked up in the registry"); CHECK (k == &vp_new && new_live, "C21.reuse: by the new region");
  if (!ln.known) return FALSE; if (ok) *ok = &vp_old; if (ov) HAVOC (*ov); return TRUE;
}
preload_exemap_t *preload_exemap_new (preload_map_t *m)
{
  CHECK (vp_wantlinks && TRACKED, "C21.link: links are made when asked for");
  if (vp_maps && ln.known) CHECK (m == &vp_old, "C21.reuse: the registered region is used where there is one");
  else { CHECK (m == &vp_new && new_live, "C21.link: the new region is linked"); new_owned = 1; }
  CHECK (!made, "C21.link: one link per line"); made = 1; return &vp_link;
}
GPtrArray *g_ptr_array_new (void) { CHECK (vp_wantlinks && !vp_arrs, "C21.link: one list, when asked for"); vp_arrs = 1; return &vp_arr; }
void g_ptr_array_add (GPtrArray *a, gpointer p) { CHECK (a == &vp_arr && p == (gpointer) &vp_link && made && !added, "C21.link: the link is listed once"); added = 1; vp_added++; }
#endif

/* ------------------------------------------------------------------ C21: processes */
#if defined VP_PROCS
static char vp_dobj[8]; static int vp_dirs; static struct dirent vp_ent; static pid_t vp_self;
struct entry { _Bool digits, sane, accepted; int pid, len; };
static struct { struct entry e; int calls; _Bool read_, san, acc, linked, asked; char *exe; const char *name; } G;      /* the entry being looked at */
#define en G.e
#define vp_calls G.calls
#define vp_read G.read_
#define vp_san G.san
#define vp_acc G.acc
#define vp_linked G.linked
#define vp_digits_asked G.asked
#define vp_exe G.exe
#define vp_name G.name
static gpointer vp_data;
#define TRACKED (en.digits && en.pid != vp_self && en.len > 0 && en.len < FILELEN && en.sane && en.accepted)
#define ENTRY_DONE (!vp_read || vp_calls == (TRACKED ? 1 : 0))
pid_t getpid (void) { return vp_self; }
DIR *opendir (const char *p) { CHECK (same_text (p, "/proc"), "C21.dir: the process directory"); CHECK (!vp_dirs, "C21.dir: once"); vp_dirs = 1; return (DIR *) vp_dobj; }
int closedir (DIR *d) { CHECK (vp_dirs && d == (DIR *) vp_dobj, "C21.dir: closed once"); vp_dirs = 0; CHECK (ENTRY_DONE, "C21.entry: the last entry has been dealt with"); return 0; }
struct dirent *readdir (DIR *d)
{
  CHECK (vp_dirs && d == (DIR *) vp_dobj, "C21.dir: the open directory is read");
  CHECK (ENTRY_DONE, "C21.entry: an entry is reported exactly once if it qualifies, and otherwise not at all");
  vp_read = 0; if (nondet_bool ()) return 0;
  vp_read = 1; HAVOC (en); ASSUME (en.len >= -1 && en.pid > 0); vp_calls = 0; vp_san = vp_acc = vp_linked = 0; vp_exe = 0; vp_name = 0; return &vp_ent;
}
int atoi (const char *s) { CHECK (s == vp_ent.d_name && en.digits, "C21.pid: the number of the entry"); return en.pid; }
#define g_snprintf(o, n, f, v) vp_snprintf (o, n, f, v)
static gint vp_snprintf (gchar *o, gulong n, gchar const *f, const char *v)
{
  CHECK (__CPROVER_w_ok (o, n) && n >= 18, "C21.name: room for the name"); if (!same_text (f, "/proc/%s/exe")) vp_format_without_contract ();
  CHECK (v == vp_ent.d_name, "C21.name: the entry is examined"); vp_name = o; return 12;
}
ssize_t readlink (const char *p, char *b, size_t n)
{
  CHECK (p == vp_name && p, "C21.name: its executable is read"); CHECK (__CPROVER_w_ok (b, n), "C21.buffer: the path fits into the buffer"); CHECK (n >= FILELEN - 1, "C21.buffer: paths are read in full");
  vp_exe = b; vp_linked = 1; return en.len < 0 ? -1 : (size_t) en.len > n ? (ssize_t) n : en.len;
}
static gboolean all_digits (const char *s)
  __CPROVER_requires (s == vp_ent.d_name) __CPROVER_assigns (vp_digits_asked) __CPROVER_ensures ((__CPROVER_return_value != 0) == en.digits);
static gboolean sanitize_file (char *file)
  __CPROVER_requires (file == vp_exe && vp_linked && en.len > 0 && en.len < FILELEN && file[en.len] == 0) __CPROVER_assigns (vp_san) __CPROVER_ensures (vp_san && (__CPROVER_return_value != 0) == en.sane);
static gboolean accept_file (char *file, char * const *prefix)
  __CPROVER_requires (file == vp_exe && vp_san && en.sane && prefix == conf->system.exeprefix) __CPROVER_assigns (vp_acc) __CPROVER_ensures (vp_acc && (__CPROVER_return_value != 0) == en.accepted);
static void vp_func (gpointer pid, gpointer path, gpointer data)
{
  CHECK (TRACKED && vp_acc, "C21.report: only processes that qualify are reported"); CHECK (GPOINTER_TO_INT (pid) == en.pid, "C21.report: with their number"); CHECK (path == (gpointer) vp_exe, "C21.report: and path"); CHECK (data == vp_data, "C21.report: and the data given");
  vp_calls++;
}
#endif

/* ------------------------------------------------------------------ C22: reports */
#if defined VP_MEM
#define T(t) { t, t "%d", t "%d %d" }
static const char *const tags[][3] = { T ("MemTotal: "), T ("MemFree: "), T ("MemAvailable: "), T ("Buffers: "), T ("Cached: "), T ("Active: "), T ("Inactive: "), T ("Active(anon): "), T ("Inactive(anon): "), T ("Active(file): "), T ("Inactive(file): "), T ("pgpgin "), T ("pgpgout "), T ("page ") };
#define NT 14
static struct { _Bool present, numeric; int v, v2; } tg[NT];
static int vp_fds, vp_fd, vp_file, vp_len; static _Bool unreadable[3], broken[3]; static const char *vp_hit; static int vp_tag; static char *vp_buf; static int vp_psize, vp_mem_empty, vp_look;
int getpagesize (void) { return vp_psize; }
#undef open
static int vp_open (const char *p, int flags)
{
  vp_file = same_text (p, "/proc/meminfo") ? 0 : same_text (p, "/proc/vmstat") ? 1 : same_text (p, "/proc/stat") ? 2 : -1; vp_len = 0;
  CHECK (vp_file >= 0 && (flags & O_ACCMODE) == O_RDONLY, "C22.file: the kernel's reports are read"); CHECK (!vp_fds, "C22.fd: one file is open at a time");
  if (unreadable[vp_file]) return -1; HAVOC (vp_fd); ASSUME (vp_fd >= 0); vp_fds = 1; return vp_fd;
}
#define open(p, f) vp_open (p, f)
int close (int fd) { CHECK (vp_fds && fd == vp_fd, "C22.fd: the open file is closed, once"); vp_fds = 0; return 0; }
ssize_t read (int fd, void *b, size_t n)
{
  CHECK (vp_fds && fd == vp_fd, "C22.fd: the open file is read"); CHECK (__CPROVER_w_ok (b, n), "C22.buffer: the buffer holds what is read"); CHECK (n >= 4000, "C22.buffer: and a usual report");
  if (broken[vp_file]) return -1;
  HAVOC (vp_len); ASSUME (vp_len >= 0 && (size_t) vp_len <= n); vp_buf = b; vp_look = 1; __CPROVER_havoc_slice (b, n); if (vp_file == 0) vp_mem_empty = vp_len == 0; return vp_len;
}
/* tag t is in the file being looked at (within what was read) */
static int here (int t) { return tg[t].present && !unreadable[vp_file] && !broken[vp_file] && vp_file == (t < 11 ? 0 : t < 13 ? 1 : 2) && vp_len > 0; }
char *strstr (const char *h, const char *n)
{
  if (vp_look) { CHECK (h == vp_buf && h[vp_len] == 0, "C22.buffer: the text that was read is terminated"); vp_look = 0; }
  for (int t = 0; t < NT; t++) if (n == tags[t][0]) {
    if (!here (t)) return 0;
    size_t k; ASSUME (k < (size_t) vp_len); vp_hit = h + k; vp_tag = t; return (char *) vp_hit;
  }
  vp_format_without_contract (); return 0;
}
#undef sscanf
#define VP_PICK(a, b, c, d, e, f, g, ...) g
#define sscanf(...) VP_PICK (__VA_ARGS__, vp_scan6, vp_scan5, vp_scan4, vp_scan3, 0, 0) (__VA_ARGS__)
static int vp_scan6 (const char *b, const char *f, void *a, void *c, void *d, void *e) { vp_format_without_contract (); return 0; }
static int vp_scan5 (const char *b, const char *f, void *a, void *c, void *d) { vp_format_without_contract (); return 0; }
static int vp_scan4 (const char *b, const char *f, int *v, int *w)
{
  CHECK (b == vp_hit && b, "C22.number: the text from the name on is read");
  int two = w != 0; if (f != tags[vp_tag][two ? 2 : 1]) vp_format_without_contract ();
  if (!tg[vp_tag].numeric) return 0;
  *v = tg[vp_tag].v; if (two) *w = tg[vp_tag].v2; return 1 + two;
}
static int vp_scan3 (const char *b, const char *f, int *v) { return vp_scan4 (b, f, v, 0); }
#endif

#include "monitoring/proc.c"

#if defined VP_SANITIZE
void h_sanitize (void)
{
  char *f = malloc (FILELEN); ASSUME (f != 0); vp_file = f; HAVOC (has_prelink); HAVOC (has_deleted); HAVOC (vp_at_prelink);
  ASSUME (vp_at_prelink > 0 && vp_at_prelink < FILELEN - 11); size_t w; ASSUME (w < FILELEN); char was = f[w], first = f[0];
  gboolean r = sanitize_file (f);
  CHECK ((r != 0) == (first == '/' && (has_prelink || !has_deleted)), "C20.sanitize: absolute paths are tracked unless deleted; files renamed by prelink always");
  if (first == '/' && has_prelink) { CHECK (f[vp_at_prelink] == 0, "C20.sanitize: under the original name"); CHECK (w == vp_at_prelink || f[w] == was, "C20.sanitize: nothing else is changed"); }
  else CHECK (f[w] == was, "C20.sanitize: other paths are not changed");
  COVER (r && has_prelink && has_deleted, "a deleted file renamed by prelink"); COVER (!r && first == '/', "a deleted file"); COVER (r && !has_prelink, "an ordinary file");
}
#endif
#if defined VP_ACCEPT
void h_accept (void)
{
  HAVOC (vp_n); HAVOC (vp_w); ASSUME (vp_n >= 0 && vp_n < 0x7ffffff0 && vp_w >= 0 && vp_w <= vp_n); vp_path[0] = '/'; vp_path[1] = 0; vp_file = vp_path;
  if (vp_w < vp_n) ASSUME (vp_match[vp_w]);
  vp_list = malloc (((size_t) vp_n + 1) * sizeof (char *)); ASSUME (vp_list != 0); _Bool none = nondet_bool ();
  gboolean r = none ? accept_file (vp_file, 0) : accept_file (vp_file, (char * const *) vp_list);
  if (none) CHECK (r, "C20.accept: an absent list accepts everything");
  else if (vp_w == vp_n) CHECK (r, "C20.accept: accepted if no entry matches");
  else CHECK ((r != 0) == !vp_neg[vp_w], "C20.accept: decided by the first matching entry");
  COVER (!none && !r && vp_w > 3, "rejected by a later entry"); COVER (!none && r && vp_w == vp_n && vp_n > 3, "no match"); COVER (!none && r && vp_w < vp_n, "accepted");
}
#endif
#if defined VP_MAPS
void h_maps (void)
{
  HAVOC (vp_pid); HAVOC (vp_nofile); HAVOC (vp_wantlinks); HAVOC (conf[0]); HAVOC (state[0]); vp_open_ = vp_arrs = 0; vp_sum = 0; vp_links = vp_added = 0; vp_read = 0; vp_name = 0; new_live = 0;
  static char tab[8]; vp_maps = nondet_bool () ? (GHashTable *) tab : 0; GPtrArray *l = 0;
  size_t r = vp_wantlinks ? proc_get_maps (vp_pid, vp_maps, &l) : proc_get_maps (vp_pid, vp_maps, 0);
  CHECK (!vp_open_, "C21.fd: every file opened is closed"); CHECK (r == vp_sum, "C21.size: the sum of the lengths of the accepted regions");
  CHECK (!vp_wantlinks || (l == &vp_arr && vp_added == vp_links), "C21.links: one link per accepted region"); CHECK (!vp_nofile || r == 0, "C21.gone: a process that is gone has no mappings");
  COVER (vp_links > 1, "several regions"); COVER (r > 0 && !vp_wantlinks && vp_maps, "size only");
}
#endif
#if defined VP_PROCS
void h_procs (void)
{
  HAVOC (conf[0]); HAVOC (vp_self); vp_dirs = vp_calls = 0; vp_read = 0; static char any[8]; vp_data = nondet_bool () ? (gpointer) any : 0;
  proc_foreach (vp_func, vp_data);
  CHECK (!vp_dirs, "C21.dir: the directory is closed");
  COVER (1, "end");
}
void h_digits (void)
{
  char s[256]; int n; ASSUME (n >= 0 && n < 256 && s[n] == 0); _Bool d = 1;
  for (int i = 0; i < 256; i++) if (i < n) { ASSUME (s[i] > 0); if (s[i] < '0' || s[i] > '9') d = 0; }
  CHECK ((all_digits (s) != 0) == d, "C21.entry: an entry is numeric iff it consists of digits");
}
#endif
#if defined VP_MEM
void h_mem (void)
{
  preload_memory_t m; HAVOC (m); vp_fds = vp_mem_empty = 0; vp_hit = 0; vp_len = 0; HAVOC (vp_psize); ASSUME (vp_psize == 4096 || vp_psize == 16384 || vp_psize == 65536);
  vp_look = 0; for (int t = 0; t < NT; t++) { HAVOC (tg[t]); ASSUME (tg[t].v >= 0 && tg[t].v2 >= 0); if (t > 10) ASSUME (tg[t].v < (1 << 24) && tg[t].v2 < (1 << 24)); }
  for (int i = 0; i < 3; i++) { unreadable[i] = nondet_bool (); broken[i] = nondet_bool (); }
  ASSUME ((gint64) tg[1].v + tg[3].v + tg[4].v < (1ll << 31));
  proc_get_memstat (&m);
  /* an empty report is the same as one without any name */
  _Bool readable = !unreadable[0] && !broken[0];
#define SAYS(t) (readable && tg[t].present && tg[t].numeric ? tg[t].v : 0)
  CHECK (!vp_fds, "C22.fd: every file opened is closed");
  if (vp_mem_empty) { CHECK (m.total == 0 && m.free == 0 && m.cached == 0 && m.buffers == 0 && m.available == 0, "C22.zero: an empty report gives zeroes"); return; }
  CHECK (m.total == SAYS (0), "C22.total: the number behind MemTotal"); CHECK (m.free == SAYS (1), "C22.free: the number behind MemFree");
  CHECK (m.buffers == SAYS (3), "C22.buffers: the number behind Buffers"); CHECK (m.cached == SAYS (4), "C22.cached: the number behind Cached");
  CHECK (SAYS (2) == 0 || m.available == SAYS (2), "C22.available: the number behind MemAvailable, if the kernel gives one");
#ifdef VP_ESTIMATE
  CHECK (SAYS (2) != 0 || m.available == 0 || m.available == m.free + (int) ((gint64) m.cached * 80 / 100) + (int) ((gint64) m.buffers * 75 / 100), "C22.estimate: and otherwise the estimate");
  CHECK (SAYS (2) != 0 || m.available != 0 || m.free == 0, "C22.estimate: there is one if any memory is known to be free");
#endif
  COVER (m.available > 0 && SAYS (2) == 0, "estimated"); COVER (SAYS (2) > 0, "reported"); COVER (m.total == 0 && readable, "missing");
}
#endif
