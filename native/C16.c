/* C16: saving under failing system calls and death at any of them, in a scratch directory. */
#include "dump.h"
#include "state_io.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static int cleanups; int __wrap_preload_cleanup_invalid_entries (GHashTable *a, GHashTable *b) { cleanups++; return 0; }
static int on, calls, die_at, die_after, f_open, f_sync, f_rename, f_close, f_unlink, renames, synced_size, tmp_ok;
static char *oldc, *newc; static gsize oldn, newn;
int __real_open (const char *, int, ...); int __real_fsync (int); int __real_rename (const char *, const char *); int __real_g_unlink (const char *); int __real_unlink (const char *); int __real_close (int);
static void point (int after) { if (on && calls == die_at && die_after == after) _exit (9); }
static char *slurp (const char *f, gsize *n) { char *s = NULL; *n = 0; return g_file_get_contents (f, &s, n, NULL) ? s : NULL; }
static int is (const char *s, gsize n, const char *t, gsize m) { return s && t ? n == m && !memcmp (s, t, n) : s == t; }
static void intact (const char *when)
{ int er = errno; gsize n; char *s = slurp ("state", &n); if (!is (s, n, oldc, oldn) && !is (s, n, newc, newn)) { note (" [%s: %zu bytes, old %zu new %zu]", when, n, oldn, newn); vp_fail ("the state file is neither the complete old nor the complete new state"); } vp_checks++; free (s); errno = er; }
int __wrap_open (const char *p, int fl, ...)
{ if (!on) return __real_open (p, fl, 0660); calls++; point (0); intact ("open"); EXPECT (strcmp (p, "state"), "the state file itself is not written to");
  int r; if (f_open && chance (60)) { errno = chance (50) ? ENOSPC : EACCES; r = -1; } else r = __real_open (p, fl, 0660); point (1); intact ("opened"); return r; }
int __wrap_open64 (const char *p, int fl, ...) { return __wrap_open (p, fl); }
int __wrap_fsync (int fd) { if (!on) return __real_fsync (fd); calls++; point (0); intact ("fsync"); if (f_sync) { errno = EIO; return -1; } off_t o = lseek (fd, 0, SEEK_END); synced_size = o; point (1); return 0; }
int __wrap_fdatasync (int fd) { return __wrap_fsync (fd); }
int __wrap_rename (const char *a, const char *b)
{
  if (!on) return __real_rename (a, b); calls++; point (0); intact ("rename");
  gsize n; char *s = slurp (a, &n); EXPECT (is (s, n, newc, newn), "everything has been written out before the old file is replaced"); EXPECT (synced_size == (int) newn, "and forced to the disk"); free (s);
  EXPECT (!strcmp (b, "state"), "the state file is replaced");
  if (f_rename) { errno = EXDEV; return -1; } renames++;
  int r = __real_rename (a, b); point (1); intact ("renamed"); return r;
}
int __wrap_g_rename (const char *a, const char *b) { return __wrap_rename (a, b); }
int __wrap_unlink (const char *p) { if (!on) return __real_unlink (p); calls++; point (0); EXPECT (strcmp (p, "state"), "the state file is not removed"); if (f_unlink) { errno = EPERM; return -1; } int r = __real_unlink (p); point (1); intact ("unlink"); return r; }
int __wrap_g_unlink (const char *p) { return __wrap_unlink (p); }
int __wrap_close (int fd) { if (!on) return __real_close (fd); calls++; point (0); int r = __real_close (fd); EXPECT (r == 0, "files are closed once"); point (1); return f_close ? -1 : 0; }
static int low (void) { int a = dup (0); __real_close (a); return a; }
static void one_case (void)
{
  if (!vp_case) { int z = __real_open ("/dev/null", O_RDONLY); if (z > 0) dup2 (z, 0), __real_close (z); signal (SIGXFSZ, SIG_IGN); }
  g_free (oldc); g_free (newc); oldc = newc = NULL; oldn = newn = 0;
  __real_unlink ("state"); __real_unlink ("state.tmp"); __real_unlink ("target");
  on = 0; wild_world ();
  char *e = preload_state_write_file ("newstate"); EXPECT (!e, "a save to a healthy disk succeeds"); newc = slurp ("newstate", &newn);
  if (chance (85)) { FILE *f = fopen ("state", "w"); for (int k = rnd (3000); k >= 0; k--) fputc ('a' + k % 26, f); fclose (f); oldc = slurp ("state", &oldn); }
  int stale = chance (30); if (stale) { if (chance (50)) { FILE *f = fopen ("state.tmp", "w"); for (int k = chance (50) ? 0 : rnd (2 * newn + 10); k >= 0; k--) fputs ("stale\n", f); fclose (f); } else { FILE *f = fopen ("target", "w"); fputs ("keep", f); fclose (f); if (symlink ("target", "state.tmp")) abort (); } }
  f_open = chance (15); f_sync = chance (15); f_rename = chance (15); f_close = chance (10); f_unlink = chance (8); int limit = chance (35) ? (int) rnd (newn + 10) : -1, die = chance (25);
  die_at = die ? 1 + (int) rnd (5) : 0; die_after = rnd (2); int through = chance (70), sig = die && chance (50) && limit >= 0;
  note ("size %zu old %d stale %d faults: open%d fsync%d rename%d close%d unlink%d limit %d die %d/%d/%d", newn, oldc != NULL, stale, f_open, f_sync, f_rename, f_close, f_unlink, limit, die_at, die_after, sig);
  struct rlimit rl, r0; getrlimit (RLIMIT_FSIZE, &r0); rl = r0; if (limit >= 0) rl.rlim_cur = limit;
  calls = renames = cleanups = 0; synced_size = -1;
  if (die) {
    fflush (stdout); pid_t c = fork ();
    if (!c) { if (sig) signal (SIGXFSZ, SIG_DFL); setrlimit (RLIMIT_FSIZE, &rl); on = 1; char *x = preload_state_write_file ("state"); _exit (x ? 3 : 0); }
    int st; waitpid (c, &st, 0); on = 0;
    if (WIFEXITED (st) && WEXITSTATUS (st) == 1) vp_fail ("(in the process that was to be killed, see above)");
    intact ("after death");
  } else {
    int l0 = low (); state->dirty = TRUE; gboolean ok;
    setrlimit (RLIMIT_FSIZE, &rl); on = 1;
    if (through) { preload_state_save ("state"); ok = !state->dirty; on = 0; setrlimit (RLIMIT_FSIZE, &r0); EXPECT (cleanups == 1, "the cleanup follows the save"); }
    else { e = preload_state_write_file ("state"); on = 0; setrlimit (RLIMIT_FSIZE, &r0); ok = !e; g_free (e); EXPECT (state->dirty, "unsaved"); }
    gsize n; char *s = slurp ("state", &n);
    if (ok) EXPECT (is (s, n, newc, newn) && renames == 1, "success is reported only for a complete save");
    else EXPECT (is (s, n, oldc, oldn) && !renames, "a failed save leaves the old state");
    if (!f_open && !f_sync && !f_rename && !(f_unlink && stale) && (limit < 0 || limit >= (int) newn)) EXPECT (ok, "a save without a failure succeeds");
    if (limit >= 0 && limit < (int) newn) EXPECT (!ok, "a save that cannot write everything fails");
    if (!f_open && !f_unlink) EXPECT (access ("state.tmp", F_OK), "no temporary file is left behind");
    EXPECT (low () == l0, "every file opened is closed"); free (s);
    /* nothing to do when nothing changed */
    if (ok && through) { on = 1; calls = 0; state->dirty = FALSE; preload_state_save ("state"); on = 0; EXPECT (calls == 0, "a saved model is not saved again"); }
  }
  if (access ("target", F_OK) == 0) { gsize n; char *s = slurp ("target", &n); EXPECT (n == 4, "nothing is written through a planted link"); free (s); }
  world_end ();
}
