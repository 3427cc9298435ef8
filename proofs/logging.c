/* C32: what is logged, at which verbosity, what ends the daemon (preload_log), and where output goes (preload_log_init). */
#include "common.h"
#include "log.h"
#include "preload.h"
#include <time.h>
#define VP_NO_LOG
#define VP_OWN_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
static char nm[4], vp_msg[2], vp_text[2], vp_dom[2], vp_time[8]; static _Bool nofile, nonull, dupfail[3], given; static int lfd, nfd, lopen, nopen, goes[3], prints, others, ended, hooks;
static GLogFunc hook;
static int vp_errno; int *__errno_location (void) { return &vp_errno; }
char *strerror (int e) { return vp_msg; }
FILE *stdout, *stderr; static int vp_file[2]; int fflush (FILE *f) { return nondet_int (); }
static int vp_print (FILE *f, const void *const *a, int n)
{
  CHECK (f == stderr, "C32.where: messages go to standard error"); CHECK (!ended, "C32.once: nothing is logged after the end");
  _Bool m = 0; for (int i = 0; i < 7; i++) if (i < n && a[i] == (const void *) vp_text) m = 1;
  if (m) prints++; else others++; return 1;
}
#undef fprintf
#define fprintf(f, ...) vp_print (f, (const void *const[]) { __VA_ARGS__ }, (int) (sizeof ((const void *const[]) { __VA_ARGS__ }) / sizeof (void *)))
#undef open
static int vp_open (const char *p, int fl)
{
  if (p == nm) { CHECK (given && !lopen, "C32.init: the log given is opened once"); CHECK ((fl & O_ACCMODE) == O_WRONLY && (fl & O_CREAT) && (fl & O_APPEND) && !(fl & O_TRUNC), "C32.init: for appending, made if missing"); if (nofile) return -1; lopen = 1; return lfd; }
  CHECK (given && !nopen && strcmp (p, "/dev/null") == 0, "C32.init: nothing else is opened"); if (nonull) return -1; nopen = 1; return nfd;
}
#define open(p, f, ...) vp_open (p, f)
int dup2 (int a, int b)
{
  CHECK (b >= 0 && b <= 2 && (b == 0 ? nopen && a == nfd : lopen && a == lfd), "C32.init: input comes from nowhere, output goes to the log"); if (b < 0 || b > 2 || dupfail[b]) return -1; goes[b] = a; return b;
}
int close (int f) { CHECK ((lopen && f == lfd) || (nopen && f == nfd), "C32.init: extra handles are closed once"); if (f == lfd) lopen = 0; else nopen = 0; return 0; }
static int level; static _Bool may_fail;
void exit (int x) { CHECK ((level & G_LOG_FLAG_FATAL) && x == EXIT_FAILURE, "C32.end: only an error ends the daemon, with a failure status"); CHECK (prints == 1, "C32.error: the error is logged first, once"); ended = 1; COVER (preload_log_level == 0, "an error at verbosity 0"); STOP (); }
static void vp_error (void) { CHECK (may_fail, "C32.init: only a log that cannot be opened ends the daemon"); STOP (); }
#undef g_error
#define g_error(...) vp_error ()
time_t time (time_t *t) { time_t n = nondet_long (); if (t) *t = n; return n; }
char *ctime (const time_t *t) { vp_time[0] = 'T'; vp_time[1] = '\n'; vp_time[2] = 0; return vp_time; }
GLogFunc g_log_set_default_handler (GLogFunc f, gpointer d) { hook = f; hooks++; return 0; }
#include "utils/log.c"
static void setup (void)
{
  stderr = (FILE *) &vp_file[0]; stdout = (FILE *) &vp_file[1]; HAVOC (lfd); HAVOC (nfd); ASSUME (lfd > 2 && nfd > 2 && lfd != nfd); preload_log_level = nondet_int (); ASSUME (preload_log_level >= 0 && preload_log_level <= 10);
  nofile = nondet_bool (); nonull = nondet_bool (); for (int i = 0; i < 3; i++) { goes[i] = -1; dupfail[i] = nondet_bool (); } lopen = nopen = prints = others = ended = hooks = 0; level = 0; hook = 0; may_fail = 0;
}
void h_log (void)
{
  setup (); int n = nondet_int (); ASSUME (n >= 0 && n <= 5); level = G_LOG_LEVEL_ERROR << n;
  if (nondet_bool ()) level |= G_LOG_FLAG_RECURSION; if (n == 0 || nondet_bool ()) level |= G_LOG_FLAG_FATAL;       /* an error is always fatal (GLib) */
  if (n > preload_log_level) ASSUME (!(level & G_LOG_FLAG_FATAL));
  const char *dom = vp_dom; if (nondet_bool ()) dom = 0;
  preload_log (dom, (GLogLevelFlags) level, vp_text, 0);
  CHECK (prints == (n <= preload_log_level ? 1 : 0), "C32.level: a message is logged, once, iff the verbosity asks for it"); CHECK (!others, "C32.level: and nothing else"); CHECK (!(level & G_LOG_FLAG_FATAL), "C32.error: an error ends the daemon");
  COVER (n == 4 && preload_log_level == 4, "information"); COVER (n == 5 && preload_log_level == 4, "details left out");
}
void h_init (void)
{
  setup (); nm[0] = nondet_bool () ? '/' : 0; nm[1] = 0; char *p = nm; if (nondet_bool ()) p = 0; given = p && nm[0]; may_fail = given && (nofile || nonull || dupfail[0] || dupfail[1] || dupfail[2]);
  preload_log_init (p);
  CHECK (!may_fail, "C32.init: a log that cannot be used is not passed over"); CHECK (!lopen && !nopen, "C32.init: no extra handle stays open");
  CHECK (given ? goes[0] == nfd && goes[1] == lfd && goes[2] == lfd : goes[0] == -1 && goes[1] == -1 && goes[2] == -1, "C32.init: with a log file input comes from nowhere and output goes to it; without, nothing changes");
  CHECK (hooks >= 1 && hook == preload_log, "C32.init: messages go through the verbosity from then on"); COVER (given, "a log file"); COVER (!given, "none");
}
