/* C27: the command line.  getopt_long is libc's; its contract here: from the documented options (short or long), from unknown
 * ones and from the end it delivers any, as the tables handed to it by the code say.  Before the first option delivered, the settings are
 * put into an arbitrary consistent state (any number of earlier options, by induction). */
#include "common.h"
#include "cmdline.h"
#include "preload.h"
#include "context.h"
#include <getopt.h>
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
static struct { char t[8]; const char *src; int live; } tx[12]; static int ntx; static int live, ctx_live; static gpointer ctx_mem;
gchar *g_strdup (const gchar *s)
{ if (!s) return 0; CHECK (ntx < 12, "C27.once: texts are copied once"); tx[ntx].src = s; tx[ntx].live = 1; live++; return tx[ntx++].t; }
static int ix (gconstpointer p) { for (int i = 0; i < ntx; i++) if (p == (gconstpointer) tx[i].t) return i; return -1; }
void g_free (gpointer p)
{
  if (!p) return; if (p == ctx_mem) { CHECK (ctx_live, "C27.release: the context is released once"); ctx_live = 0; return; }
  int i = ix (p); CHECK (i >= 0 && tx[i].live, "C27.release: a setting is released once"); if (i >= 0) { tx[i].live = 0; live--; }
}
static int loops_unref; void g_main_loop_unref (GMainLoop *l) { CHECK (l != 0, "a loop"); loops_unref++; }
gpointer g_malloc0_n (gsize a, gsize b) { return g_malloc0 (a * b); }
static int out_n, err_n;
static int vp_print (FILE *f) { if (f == stdout) out_n++; else if (f == stderr) err_n++; return 1; }
FILE *stdout, *stderr; static char vp_files[2];
#undef printf
#undef fprintf
#define printf(...) vp_print (stdout)
#define fprintf(f, ...) vp_print (f)
#undef puts
#define puts(s) vp_print (stdout)
#undef fputs
#define fputs(s, f) vp_print (f)
static long vp_num; int optind, opterr, optopt; char *optarg; static char vp_args[4][4];
long strtol (const char *s, char **e, int b) { CHECK (s == optarg && s && b == 10, "C27.number: the argument of the option is read, as a decimal number"); if (e) *e = (char *) s + 1; return vp_num; }
int atoi (const char *s) { return (int) strtol (s, 0, 10); }
/* ---- the documented options */
enum { HELP, VERSION_, CONF, STATE, LOGF, FG, NICE, VERB, DEBUG, NOPT, UNKNOWN, END, NONE };
static const struct { const char *name; char c; int arg; } D[] = { { "help", 'h', 0 }, { "version", 'v', 0 }, { "conffile", 'c', 1 }, { "statefile", 's', 1 }, { "logfile", 'l', 1 }, { "foreground", 'f', 0 }, { "nice", 'n', 1 }, { "verbose", 'V', 1 }, { "debug", 'd', 0 } };
static int same_text (const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } }
static preload_ctx_t *c; static int calls, cur; static const char *arg; struct set { const char *f[3]; int null[3], nice, fg, lvl; }; static struct set want;
static void now (struct set *s)
{
  char *p[3]; p[0] = c->conffile; p[1] = c->statefile; p[2] = c->logfile;
  for (int i = 0; i < 3; i++) { s->null[i] = p[i] == 0; s->f[i] = 0; if (p[i]) { int k = ix (p[i]); CHECK (k >= 0 && tx[k].live, "C27.hold: the settings hold live texts of their own"); if (k >= 0) s->f[i] = tx[k].src; } }
  s->nice = c->nicelevel; s->fg = c->foreground != 0; s->lvl = preload_log_level;
}
static void step_done (void)
{
  struct set s; now (&s); CHECK (cur != HELP && cur != VERSION_ && cur != UNKNOWN, "C27.exit: help, version and unknown options end the program");
  static const char none[] = "";
  for (int i = 0; i < 3; i++) CHECK (s.null[i] == want.null[i] && s.f[i] == want.f[i], "C27.exact: each option sets the file it names, to its argument, and no other");
  CHECK (s.nice == want.nice, "C27.exact: only nice sets the nice level"); CHECK (s.fg == want.fg, "C27.exact: only foreground and debug mode set the foreground"); CHECK (s.lvl == want.lvl, "C27.exact: only verbose and debug mode set the verbosity");
  CHECK (live == !s.null[0] + !s.null[1] + !s.null[2], "C27.leak: nothing else is held"); CHECK (!out_n && !err_n, "C27.print: nothing is printed");
}
static void earlier (void)
{
  live = 0; ntx = 0; char **p[3]; p[0] = &c->conffile; p[1] = &c->statefile; p[2] = &c->logfile;
  static const char any[3][2]; for (int i = 0; i < 3; i++) if (nondet_bool ()) *p[i] = 0; else *p[i] = g_strdup (any[i]);
  HAVOC (c->nicelevel); c->foreground = nondet_bool (); HAVOC (preload_log_level); now (&want);
}
int getopt_long (int argc, char *const *argv, const char *so, const struct option *lo, int *ind)
{
  if (calls == 0) { cur = NONE; now (&want); if (nondet_bool ()) earlier (); } else step_done ();
  if (calls == 3) STOP ();
  cur = nondet_int (); ASSUME ((cur >= 0 && cur <= END) && cur != NOPT); calls++; if (calls == 3) cur = END;
  if (cur == END) return -1;
  optarg = 0; HAVOC (vp_num); ASSUME (vp_num > -(1l << 31) && vp_num < (1l << 31)); if (cur == UNKNOWN) return '?';
  arg = vp_args[calls]; int r = '?', has = 0;
  if (nondet_bool ()) { for (int i = 0; i < 24 && so[i]; i++) if (so[i] == D[cur].c) { r = so[i]; has = so[i + 1] == ':'; break; } }
  else for (int i = 0; i < 16 && lo[i].name; i++) if (same_text (lo[i].name, D[cur].name)) { CHECK (lo[i].flag == 0, "C27.table: options are returned"); r = lo[i].val; has = lo[i].has_arg; break; }
  if (has) optarg = (char *) arg;
  CHECK (has == D[cur].arg, "C27.table: an option takes an argument iff it is documented to"); if (has != D[cur].arg) STOP ();
  switch (cur) {
    case CONF: case STATE: case LOGF: want.f[cur - CONF] = arg; want.null[cur - CONF] = 0; break;
    case FG: want.fg = 1; break; case NICE: want.nice = (int) vp_num; break; case VERB: want.lvl = (int) vp_num; break;
    case DEBUG: want.fg = 1; want.lvl = 9; want.null[2] = 1; want.f[2] = 0; break;
  }
  return r;
}
void exit (int x)
{
  CHECK (cur == HELP || cur == VERSION_ || cur == UNKNOWN, "C27.exit: only help, version and unknown options end the program");
  CHECK (cur == UNKNOWN ? x != 0 : x == 0, "C27.exit: with the matching status"); CHECK (cur == UNKNOWN ? err_n > 0 : out_n > 0, "C27.print: after printing");
#ifdef VP_PARSE
  COVER (cur == HELP, "help"); COVER (cur == VERSION_, "version"); COVER (cur == UNKNOWN, "unknown");
#endif
  STOP ();
}

#include "handling/context.c"
#include "config/cmdline.c"

static void setup (void) { live = ntx = calls = out_n = err_n = loops_unref = 0; cur = NONE; optind = 1; stdout = (FILE *) &vp_files[0]; stderr = (FILE *) &vp_files[1]; HAVOC (preload_log_level); }
void h_parse (void)
{
  setup (); c = malloc (sizeof *c); ASSUME (c != 0); HAVOC (*c); c->conffile = g_strdup ("a"); c->statefile = g_strdup ("b"); c->logfile = g_strdup ("c"); c->foreground = 0; preload_ctx_t was = *c;
  int n = nondet_int (); char *av[4]; char **p = av; ASSUME (n > 0 && n < 1000000);
  preload_cmdline_parse (c, &n, &p);
  CHECK (cur == END, "C27.all: all options are read"); step_done ();
  CHECK (c->main_loop == was.main_loop && c->conf == was.conf && c->state == was.state, "C27.exact: nothing else is set");
  COVER (calls == 3 && want.null[2], "debug"); COVER (calls == 1, "no options"); COVER (calls == 3 && want.f[0] == arg, "a file");
}
void h_context (void)
{
  setup (); ctx_live = 1; c = preload_context_new (); ctx_mem = c; struct set s; now (&s);
  CHECK (s.f[0] && s.f[1] && s.f[2] && same_text (s.f[0], "/etc/preload.conf") && same_text (s.f[1], "/var/lib/preload/preload.state") && same_text (s.f[2], "/var/log/preload.log"), "C27.default: the documented default files");
  CHECK (!c->foreground && c->nicelevel == 15 && c->main_loop == 0 && live == 3, "C27.default: a daemon of nice level 15"); CHECK (c->conf == conf && c->state == state, "C27.default: the daemon's own configuration and state");
  if (nondet_bool ()) { g_free (c->logfile); c->logfile = 0; } _Bool l = nondet_bool (); static char lp[2]; if (l) c->main_loop = (GMainLoop *) lp;
  preload_context_free (c); CHECK (live == 0 && !ctx_live && loops_unref == l, "C27.release: everything is released once"); preload_context_free (0);
}
