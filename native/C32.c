/* the real log handler under the real GLib: what reaches the log, what ends the daemon */
#include <setjmp.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "vpn.h"
#include "common.h"
#include "log.h"
static jmp_buf out; static int ended, armed, redirect, opened[3], goes[3], nofile, nonull, dupfail;
void __real_exit (int); int __real_open (const char *, int, int); int __real_dup2 (int, int); int __real_close (int);
void __wrap_exit (int x) { if (!armed) __real_exit (x); ended = x ? x : -1; longjmp (out, 1); }
static int any_open (const char *p, int f, int mode)
{ if (!redirect) return __real_open (p, f, mode);
  if (!strcmp (p, "/dev/null")) { if (nonull) { errno = EMFILE; return -1; } opened[0]++; return 901; }
  EXPECT (!strcmp (p, "the.log"), "the log given is opened"); EXPECT ((f & O_ACCMODE) == O_WRONLY && (f & O_APPEND) && (f & O_CREAT) && !(f & O_TRUNC), "for appending, made if missing"); if (nofile) { errno = EACCES; return -1; } opened[1]++; return 902; }
int __wrap_open (const char *p, int f, int mode) { return any_open (p, f, mode); }
int __wrap_open64 (const char *p, int f, int mode) { return any_open (p, f, mode); }
int __wrap_dup2 (int a, int b) { if (!redirect) return __real_dup2 (a, b); EXPECT (b >= 0 && b <= 2 && a == (b ? 902 : 901) && opened[b > 0] == 1, "input comes from nowhere, output goes to the log"); if (b == dupfail) { errno = EBUSY; return -1; } goes[b] = a; return b; }
int __wrap_close (int f) { if (!redirect) return __real_close (f); EXPECT ((f == 901 && opened[0] == 1) || (f == 902 && opened[1] == 1), "extra handles are closed once"); opened[f == 902]--; return 0; }
static char buf[8192];
static void in_child (void)
{
  static const int lv[6] = { G_LOG_LEVEL_ERROR, G_LOG_LEVEL_CRITICAL, G_LOG_LEVEL_WARNING, G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_INFO, G_LOG_LEVEL_DEBUG };
  int save = preload_log_level; static int n; char text[64]; volatile int l = rnd (6);
  preload_log_level = rnd (11); note ("verbosity %d level %d ", preload_log_level, (int) l);
  armed = 1; ended = 0; fflush (stderr); int keep = dup (2), tmp = __real_open ("log.out", O_RDWR | O_CREAT | O_TRUNC, 0600); __real_dup2 (tmp, 2);
  if (chance (60)) {
    preload_log_init (NULL); sprintf (text, "text %d of case", n++);
    if (!setjmp (out)) g_log (chance (50) ? "preload" : NULL, lv[l], "%s", text);
    fflush (stderr); __real_dup2 (keep, 2); lseek (tmp, 0, SEEK_SET); ssize_t z = read (tmp, buf, sizeof buf - 1); buf[z > 0 ? z : 0] = 0; __real_close (tmp); __real_close (keep); armed = 0;
    int times = 0; for (char *p = buf; (p = strstr (p, text)); p++) times++; note ("[%s]", buf);
    EXPECT (times == (l <= preload_log_level), "a message is logged, once, iff the verbosity asks for it");
    EXPECT (ended == (l == 0 ? EXIT_FAILURE : 0), "an error, and nothing else, ends the daemon with a failure status");
    if (l && l > preload_log_level) EXPECT (buf[0] == 0, "nothing else is logged");
    if (times) { char *p = strstr (buf, text); EXPECT (buf[0] == '[' && p[strlen (text)] == '\n', "a message is a line of its own with its time"); }
  } else {
    nofile = chance (20); nonull = chance (20); dupfail = chance (20) ? (int) rnd (3) : -1; volatile int given = chance (80); goes[0] = goes[1] = goes[2] = -1; opened[0] = opened[1] = 0; redirect = 1;
    redirect = 0; preload_log_init (NULL); redirect = 1;   /* an earlier handler */
    if (!setjmp (out)) preload_log_init (given ? "the.log" : chance (50) ? "" : NULL);
    redirect = 0; fflush (stderr); __real_dup2 (keep, 2); __real_close (tmp); __real_close (keep); armed = 0;
    if (!given) EXPECT (!ended && goes[0] < 0 && goes[1] < 0 && goes[2] < 0, "without a log file nothing changes");
    else if (nofile || nonull || dupfail >= 0) EXPECT (ended == EXIT_FAILURE, "a log that cannot be used ends the daemon");
    else { EXPECT (!ended && !opened[0] && !opened[1], "no extra handle stays open"); EXPECT (goes[0] == 901 && goes[1] == 902 && goes[2] == 902, "input comes from nowhere, output goes to the log"); }
  }
  g_log_set_default_handler (vp_log, NULL); preload_log_level = save;
}
/* GLib remembers that a message was being handled: every case in a process of its own */
static void one_case (void)
{
  fflush (stdout); pid_t p = fork (); if (p < 0) { printf ("fork fails\n"); _exit (2); }
  if (!p) { in_child (); _exit (0); }
  int st = 0; while (waitpid (p, &st, 0) < 0 && errno == EINTR) ; vp_checks += 3;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return; if (WIFEXITED (st)) _exit (WEXITSTATUS (st)); vp_fail ("the code crashes");
}
