/* C26: reopening the log, whatever fails: standard output and error go to the newly opened log, or stay as they were. */
#include "common.h"
#include "log.h"
#include "preload.h"
#include <time.h>
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
static char nm[4]; static int fd, is_open, goes[3], closed, nofile, dupfail[3], order; static char vp_msg[2];
static int vp_errno; int *__errno_location (void) { return &vp_errno; }
char *strerror (int e) { return vp_msg; }
FILE *stdout, *stderr; int fflush (FILE *f) { return nondet_int (); }
#undef fprintf
#define fprintf(...) ((void) 0)
#undef open
static int vp_open (const char *p, int fl)
{ CHECK (p == nm, "C26.reopen: the log file given is opened"); CHECK ((fl & O_ACCMODE) == O_WRONLY && (fl & O_CREAT) && (fl & O_APPEND), "C26.reopen: for appending, made if missing"); CHECK (!is_open, "C26.reopen: once"); if (nofile) return -1; is_open = 1; return fd; }
#define open(p, f, ...) vp_open (p, f)
int dup2 (int a, int b) { CHECK (is_open && a == fd && (b == 1 || b == 2), "C26.reopen: output goes to the open log"); if (dupfail[b]) return -1; goes[b] = fd; return b; }
int close (int f) { CHECK (is_open && f == fd, "C26.reopen: the extra handle is closed once"); is_open = 0; closed++; return 0; }
void exit (int x) { CHECK (0, "C26.reopen: the daemon does not end"); STOP (); }
time_t time (time_t *t) { return 0; }
char *ctime (const time_t *t) { return vp_msg; }
GLogFunc g_log_set_default_handler (GLogFunc f, gpointer d) { return 0; }
#include "utils/log.c"
void h_reopen (void)
{
  HAVOC (fd); ASSUME (fd > 2); HAVOC (preload_log_level); ASSUME (preload_log_level >= 0 && preload_log_level < 20); nofile = nondet_bool (); is_open = closed = 0; for (int i = 0; i < 3; i++) { goes[i] = -1; dupfail[i] = nondet_bool (); }
  nm[0] = nondet_bool () ? '/' : 0; nm[1] = 0; char *p = nm; if (nondet_bool ()) p = 0; _Bool given = p && nm[0];
  preload_log_reopen (p);
  CHECK (!is_open, "C26.reopen: nothing is left open"); if (!given || nofile) CHECK (goes[1] == -1 && goes[2] == -1, "C26.reopen: without a log nothing changes");
  else { CHECK (dupfail[1] || goes[1] == fd, "C26.reopen: standard output goes to the log"); CHECK (dupfail[1] || dupfail[2] || goes[2] == fd, "C26.reopen: standard error goes to the log"); }
  COVER (goes[1] == fd && goes[2] == fd, "reopened"); COVER (given && nofile, "failed");
}
