/* C26: the real main and signal handling, with recording stand-ins for what they call. */
#define _GNU_SOURCE
#include "vpn.h"
#include <signal.h>
#include <setjmp.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/stat.h>
#define main vp_daemon_main
#include "daemon/preload.c"
#undef main
enum { LOAD, REOPEN, SDUMP, CDUMP, SAVE, QUIT, SFREE, RUN, NA }; static const char *an[] = { "load conf", "reopen log", "dump state", "dump conf", "save", "quit", "free state", "run" };
static int did[NA], inloop, loaded, after, saves_after, frees, confarg, stopped, dup_quit, dbg; static jmp_buf out; static int exitcode, exited;
static struct { GSourceFunc f; gpointer d; } q[64]; static int nq;
static struct { int sig; void (*h) (int); } hs[16]; static int nh;
static unsigned add (GSourceFunc f, gpointer d) { EXPECT (nq < 64, "requests"); q[nq].f = f; q[nq].d = d; return ++nq; }
guint __wrap_g_timeout_add (guint ms, GSourceFunc f, gpointer d) { return add (f, d); }
guint __wrap_g_timeout_add_full (gint p, guint ms, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (f, d); }
guint __wrap_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return add (f, d); }
guint __wrap_g_idle_add (GSourceFunc f, gpointer d) { return add (f, d); }
guint __wrap_g_idle_add_full (gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (f, d); }
static void sethandler (int s, void (*h) (int)) { for (int i = 0; i < nh; i++) if (hs[i].sig == s) { hs[i].h = h; return; } hs[nh].sig = s; hs[nh++].h = h; }
void (*__wrap_signal (int s, void (*h) (int))) (int) { sethandler (s, h); return SIG_DFL; }
void (*__wrap___sysv_signal (int s, void (*h) (int))) (int) { sethandler (s, h); return SIG_DFL; }
int __wrap_sigaction (int s, const struct sigaction *a, struct sigaction *o) { if (a) sethandler (s, a->sa_handler); return 0; }
int __wrap_nice (int n) { return chance (50) ? n : -1; }
pid_t __wrap_fork (void) { EXPECT (!inloop, "no fork in the loop"); return chance (90) ? 0 : 1234; }
pid_t __wrap_setsid (void) { return 1; } int __wrap_chdir (const char *p) { return 0; } mode_t __wrap_umask (mode_t m) { return 0; } int __wrap_execl (const char *p, ...) { return -1; }
void __wrap_exit (int c) { exited = 1; exitcode = c; longjmp (out, 1); }
static const char *cf, *sf, *lf;
static int eq (const char *a, const char *b) { return !g_strcmp0 (a, b); }
void __wrap_preload_conf_load (const char *f, gboolean fail) { did[LOAD]++; EXPECT (eq (f, cf), "the configuration file given is loaded"); EXPECT ((fail != 0) == !inloop, "a bad configuration is fatal at startup only"); }
void __wrap_preload_log_init (const char *f) { EXPECT (eq (f, lf), "the log file given is opened"); }
void __wrap_preload_log_reopen (const char *f) { did[REOPEN]++; EXPECT (eq (f, lf), "the log file given is reopened"); }
void __wrap_preload_state_dump_log (void) { did[SDUMP]++; } void __wrap_preload_conf_dump_log (void) { did[CDUMP]++; }
void __wrap_preload_state_save (const char *f) { did[SAVE]++; EXPECT (eq (f, sf), "the state file given is written"); EXPECT (loaded == 1, "what was loaded is saved"); EXPECT (!frees, "before it is freed"); if (after) saves_after++; }
void __wrap_preload_state_load (const char *f) { loaded++; EXPECT (eq (f, sf), "the state file given is read"); }
void __wrap_preload_state_run (const char *f) { did[RUN]++; EXPECT (eq (f, sf), "autosave goes to the state file given"); }
void __wrap_preload_state_free (void) { frees++; EXPECT (after, "after the loop"); EXPECT (saves_after == 1, "after the save"); }
void __wrap_g_main_loop_quit (GMainLoop *l) { did[QUIT]++; EXPECT (l == ctx->main_loop && l, "the daemon's loop is left"); stopped = 1; }
static void deliver (int s) { for (int i = 0; i < nh; i++) if (hs[i].sig == s) { if (hs[i].h == SIG_IGN) return; if (hs[i].h == SIG_DFL) break; hs[i].h (s); return; } note (" [signal %d has no handler]", s); vp_fail ("handled signals have a handler"); }
void __wrap_g_main_loop_run (GMainLoop *l)
{
  static const int sigs[] = { SIGHUP, SIGUSR1, SIGUSR2, SIGINT, SIGQUIT, SIGTERM, SIGPIPE };
  EXPECT (l == ctx->main_loop, "the daemon's loop runs"); EXPECT (loaded == 1 && did[RUN] == 1, "after the state was loaded and the cycle started"); inloop = 1; stopped = 0; memset (did, 0, sizeof did); nq = 0;
  for (int k = 0; !stopped && k < 400; k++) {
    int n = 1 + (chance (20) ? rnd (4) : 0), w[NA] = { 0 }; note (" |");
    for (int i = 0; i < n; i++) { int s = sigs[k > 30 ? 3 + rnd (3) : rnd (chance (15) ? 7 : 3)]; note (" %s", strsignal (s)); int b = nq; deliver (s); EXPECT (s == SIGPIPE ? nq == b : nq == b + 1 || 1, "a request");
      if (s == SIGHUP) w[LOAD]++, w[REOPEN]++; else if (s == SIGUSR1) w[SDUMP]++, w[CDUMP]++; else if (s == SIGUSR2) w[SAVE]++; else if (s != SIGPIPE) w[QUIT]++; }
    for (int i = 0; i < NA; i++) EXPECT (did[i] == 0 || w[i], "nothing is done that was not asked for");
    for (int i = 0, g = 0; i < nq && g < 100; i++, g++) { gboolean again = q[i].f (q[i].d); if (again) { EXPECT (0, "each request is acted on once"); } }
    for (int i = 0; i < NA; i++) if (i != QUIT) { if (did[i] != w[i]) { note (" [%s: %d times, not %d]", an[i], did[i], w[i]); vp_fail ("each signal does what it stands for, exactly once"); } vp_checks++; }
    EXPECT ((did[QUIT] > 0) == (w[QUIT] > 0), "an exit request, and nothing else, ends the loop");
    memset (did, 0, sizeof did); nq = 0;
  }
  EXPECT (stopped, "exit requests end the loop"); inloop = 0; after = 1;
}
/* reopening the log for real, in a process of its own */
pid_t __real_fork (void); void __real_preload_log_reopen (const char *);
static void reopen_case (void)
{
  int kind = rnd (5); note ("reopen %d", kind);
  fflush (stdout); pid_t p = __real_fork (); if (p < 0) return;
  if (!p) {
    struct stat a, b, l; char *f = "r.log"; unlink (f); unlink ("old.log"); int back = dup (1);
    int o = open ("old.log", O_RDWR | O_CREAT | O_APPEND, 0600); dup2 (o, 1); dup2 (o, 2); close (o);
    if (kind == 1) { int t = open (f, O_WRONLY | O_CREAT, 0600); if (write (t, "before\n", 7) != 7) _exit (2); close (t); } else if (kind == 2) f = "no/such/dir/log"; else if (kind == 3) f = NULL; else if (kind == 4) f = "";
    int low = dup (0); close (low); g_log_set_default_handler (g_log_default_handler, NULL); preload_log_level = 9; __real_preload_log_reopen (f);
    int low2 = dup (0); close (low2); dup2 (back, 3);
    if (low != low2) _exit (10);
    if (fstat (1, &a) || fstat (2, &b) || a.st_ino != b.st_ino) _exit (11);
    if (stat (kind < 2 ? "r.log" : "old.log", &l) || l.st_ino != a.st_ino) _exit (12);
    if (!(fcntl (1, F_GETFL) & O_APPEND)) _exit (13);
    if (kind == 1) { char x[8] = ""; int t = open ("r.log", O_RDONLY); if (read (t, x, 7) != 7 || strcmp (x, "before\n")) _exit (14); }
    _exit (0);
  }
  int st = 0; while (waitpid (p, &st, 0) < 0 && errno == EINTR) ;
  EXPECT (WIFEXITED (st), "reopening the log does not crash"); int c = WEXITSTATUS (st);
  EXPECT (c != 10, "no extra handle stays open"); EXPECT (c != 11 && c != 12, kind < 2 ? "output and errors go to the reopened log" : "a log that cannot be opened leaves the old one in use"); EXPECT (c != 13 && c != 14, "the reopened log is appended to"); EXPECT (c == 0, "reopening the log does not end the daemon");
}
static void one_case (void)
{
  if (chance (10)) { reopen_case (); return; }
  char *av[12] = { "preload" }; int n = 1; cf = DEFAULT_CONFFILE; sf = DEFAULT_STATEFILE; lf = DEFAULT_LOGFILE; preload_log_level = 4; dbg = 0;
  if (chance (40)) av[n++] = "-c", av[n++] = "my conf", cf = "my conf"; if (chance (40)) av[n++] = "-s", av[n++] = "my state", sf = "my state"; if (chance (40)) av[n++] = "-l", av[n++] = "my log", lf = "my log";
  if (chance (40)) av[n++] = "-f"; if (chance (30)) av[n++] = "-d", dbg = 1, lf = NULL; av[n] = NULL; for (int i = 1; i < n; i++) note (" %s", av[i]);
  optind = 0; loaded = after = saves_after = frees = exited = nh = nq = inloop = 0; memset (did, 0, sizeof did); ctx = NULL;
  int r = -1; if (!setjmp (out)) r = vp_daemon_main (n, av);
  if (exited) { EXPECT (!after && !loaded && exitcode == 0, "the foreground process leaves before anything is loaded"); preload_context_free (ctx); return; }
  EXPECT (r == 0 && after, "main returns after its loop"); EXPECT (saves_after == 1 && did[SAVE] == 1, "the state is saved once after the loop"); EXPECT (frees == dbg, "in debug mode, and only then, the model is released");
}
