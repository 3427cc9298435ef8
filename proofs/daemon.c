/* C26: daemon/preload.c - from the installed handlers through the delivery of arbitrary signals to the actions taken, and the
 * order of what main does.  What the actions themselves do is the subject of C16, C19, C23. */
#define main vp_daemon_main
#include "common.h"
#include "preload.h"
#include "log.h"
#include "cmdline.h"
#include "conf.h"
#include "state.h"
#include "context.h"
#include <signal.h>
#include <grp.h>
#include <sys/stat.h>
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#define VP_OWN_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
enum { LOAD, REOPEN, SDUMP, CDUMP, SAVE, QUIT, NA };
static int did[NA], phase, loaded, runs, frees, ctx_frees, logs, exits, forked, news, saves_late, parsed, quit_wrong;
static preload_ctx_t *c; static char cf[2], sf[2], lf[2], lp[2]; static char vp_strings[2];
static struct { GSourceFunc f; gpointer d; int live; } q[6]; static int nq;
static void (*handler[65]) (int); static int cur_vol;
int vp_errno; int *__errno_location (void) { return &vp_errno; }
char *strerror (int e) { return vp_strings; }
static guint add (GSourceFunc f, gpointer d) { CHECK (nq < 6, "C26.once: requests do not multiply"); q[nq].f = f; q[nq].d = d; q[nq].live = 1; return ++nq; }
guint g_timeout_add_full (gint p, guint ms, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (f, d); }
guint g_timeout_add (guint ms, GSourceFunc f, gpointer d) { return add (f, d); }
guint g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return add (f, d); }
guint g_idle_add (GSourceFunc f, gpointer d) { return add (f, d); }
guint g_idle_add_full (gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { return add (f, d); }
static void install (int s, void (*h) (int)) { CHECK (s > 0 && s < 65, "C26.signal: a signal"); if (s > 0 && s < 65) handler[s] = h; }
#undef signal
#define signal(s, h) (install (s, h), 0)
#undef sigaction
static int vp_sigaction (int s, const struct sigaction *a, struct sigaction *o) { if (a) install (s, a->sa_handler); return 0; }
#define sigaction(s, a, o) vp_sigaction (s, a, o)
int sigemptyset (sigset_t *s) { return 0; }
int sigfillset (sigset_t *s) { return 0; }
int sigaddset (sigset_t *s, int n) { return 0; }
int nice (int n) { HAVOC (vp_errno); return nondet_int (); }
pid_t fork (void) { CHECK (phase < 2 && !loaded, "C26.start: the daemon detaches before it loads anything"); forked++; int r = nondet_int (); ASSUME (r >= -1); if (r != 0) phase = -1; return r; }
pid_t getpid (void) { return nondet_int (); }
pid_t setsid (void) { return 1; }
mode_t umask (mode_t m) { return 0; }
int chdir (const char *p) { return nondet_int (); }
#undef execl
#define execl(...) (-1)
void exit (int x) { CHECK (phase == -1, "C26.exit: only the process that started the daemon exits early"); STOP (); }
void g_log (const gchar *d, GLogLevelFlags l, const gchar *f, ...) { if (l & G_LOG_LEVEL_ERROR) { CHECK (phase == -1, "C26.exit: the daemon does not abort"); STOP (); } }
preload_ctx_t *preload_context_new (void) { CHECK (!news, "C26.start: one context"); news = 1; return c; }
void preload_context_free (preload_ctx_t *x) { CHECK (x == c && !ctx_frees, "C26.exit: the context is released once"); CHECK (phase == 3 && saves_late == 1, "C26.exit: at the very end"); ctx_frees++; }
void preload_cmdline_parse (preload_ctx_t *x, int *n, char ***v) { CHECK (x == c && news, "C26.start: the command line is read"); parsed++; HAVOC (c->foreground); HAVOC (c->nicelevel); HAVOC (preload_log_level); ASSUME (preload_log_level >= 0 && preload_log_level < 20); }
void preload_log_init (const char *f) { CHECK (f == c->logfile && parsed, "C26.start: the log file given is opened"); logs++; }
void preload_log_reopen (const char *f) { CHECK (f == c->logfile, "C26.reopen: the log file given is reopened"); did[REOPEN]++; }
void preload_conf_load (const char *f, gboolean fail) { CHECK (f == c->conffile && (parsed || phase == 2), "C26.reload: the configuration file given is loaded"); CHECK ((fail != 0) == (phase < 2), "C26.reload: a bad configuration is fatal at startup only"); did[LOAD]++; }
void preload_conf_dump_log (void) { did[CDUMP]++; }
void preload_state_dump_log (void) { did[SDUMP]++; }
void preload_state_save (const char *f) { CHECK (f == c->statefile, "C26.save: the state file given is written"); did[SAVE]++; if (phase != 2) { CHECK (phase == 3 && loaded == 1 && !frees, "C26.exit: saved after the loop, before anything is released"); saves_late++; } }
void preload_state_load (const char *f) { CHECK (f == c->statefile && parsed && did[LOAD] == 1 && phase < 2, "C26.start: the state file given is read once the configuration is"); loaded++; }
void preload_state_run (const char *f) { CHECK (f == c->statefile && loaded == 1 && phase < 2, "C26.start: the cycle starts on the loaded state"); runs++; }
void preload_state_free (void) { CHECK (phase == 3 && saves_late == 1, "C26.exit: the model is released after it has been saved"); frees++; }
GMainLoop *g_main_loop_new (GMainContext *x, gboolean r) { return (GMainLoop *) lp; }
void g_main_loop_unref (GMainLoop *l) { }
gboolean g_main_loop_is_running (GMainLoop *l) { return nondet_bool (); }
void g_main_loop_quit (GMainLoop *l) { CHECK (l == c->main_loop, "C26.quit: the daemon's loop is left"); did[QUIT]++; }
static int handled (int s) { return s == SIGHUP || s == SIGUSR1 || s == SIGUSR2 || s == SIGINT || s == SIGQUIT || s == SIGTERM; }
void g_main_loop_run (GMainLoop *l)
{
  CHECK (l == (GMainLoop *) lp && c->main_loop == l, "C26.start: the daemon's loop is run"); CHECK (loaded == 1 && runs == 1 && logs == 1 && did[LOAD] == 1 && phase < 2, "C26.start: once everything is set up");
  int s = nondet_int (); if (handled (s)) CHECK (handler[s] != 0 && handler[s] != SIG_IGN, "C26.start: all signals have handlers");
  for (int i = 0; i < NA; i++) HAVOC (did[i]);             /* signals processed meanwhile */
  did[SAVE] = 0; phase = 3;
}

#include "daemon/preload.c"

static void setup (void)
{
  c = malloc (sizeof *c); ASSUME (c != 0); HAVOC (*c); c->conffile = cf; c->statefile = sf; c->logfile = lf; if (nondet_bool ()) c->logfile = 0; c->main_loop = (GMainLoop *) lp;
  for (int i = 0; i < NA; i++) did[i] = 0; phase = loaded = runs = frees = ctx_frees = logs = forked = news = saves_late = parsed = nq = 0; HAVOC (preload_log_level); ASSUME (preload_log_level >= 0 && preload_log_level < 20);
}
static void expect (int s, int *w)
{ if (s == SIGHUP) { w[LOAD]++; w[REOPEN]++; } else if (s == SIGUSR1) { w[SDUMP]++; w[CDUMP]++; } else if (s == SIGUSR2) w[SAVE]++; else if (s != SIGPIPE) w[QUIT]++; }
static void deliver (int s)
{
  CHECK (handler[s] != 0, "C26.handler: every handled signal has a handler"); if (handler[s] == SIG_IGN) { CHECK (s == SIGPIPE, "C26.handler: none but a broken pipe is ignored"); return; }
  int d0[NA]; for (int i = 0; i < NA; i++) d0[i] = did[i];
  handler[s] (s);
  for (int i = 0; i < NA; i++) CHECK (did[i] == d0[i], "C26.handler: nothing is done before the request is processed");
}
static int first;
static void process (void)
{ int n = nq; for (int i = first; i < n; i++) if (q[i].live) { q[i].live = 0; gboolean again = q[i].f (q[i].d); CHECK (!again, "C26.once: a request is not repeated"); } CHECK (nq == n, "C26.once: processing requests makes no new ones"); first = n; }
/* any two signals, processed together or one after the other */
void h_signals (void)
{
  setup (); ctx = c; set_sig_handlers (); phase = 2; first = 0; CHECK (nq == 0, "C26.handler: setting up requests nothing"); int w[NA] = { 0 }, s = nondet_int (), t = nondet_int (); ASSUME (handled (s) || s == SIGPIPE); ASSUME (handled (t) || t == SIGPIPE); _Bool together = nondet_bool ();
  deliver (s); if (!together) process (); deliver (t); process (); expect (s, w); expect (t, w);
  for (int i = 0; i < NA; i++) CHECK (did[i] == w[i], "C26.exact: each signal does what it stands for, exactly once, and nothing else");
  CHECK (!loaded && !runs && !frees && !ctx_frees && !saves_late && ctx == c, "C26.exact: and nothing else");
  COVER (s == SIGHUP && t == SIGHUP && together, "twice"); COVER (s == SIGUSR2 && t == SIGTERM, "save, then exit"); COVER (s == SIGUSR1, "dump");
}
void h_main (void)
{
  setup (); ctx = 0; c->main_loop = 0; for (int i = 0; i < 65; i++) handler[i] = 0; char *av[2]; av[0] = cf; av[1] = 0; int r = vp_daemon_main (1, av);
  CHECK (r == 0 && phase == 3 && saves_late == 1 && did[SAVE] == 1, "C26.exit: the state is saved exactly once after the loop has ended"); CHECK (frees == (preload_is_debugging () ? 1 : 0), "C26.exit: in debug mode, and only then, the model is released"); CHECK (ctx_frees == 1, "C26.exit: the context is released");
  CHECK (!forked || !c->foreground, "C26.start: it stays in the foreground if told so");
  COVER (frees == 1 && forked == 1, "debug"); COVER (frees == 0 && forked == 0, "foreground");
}
