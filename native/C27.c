/* C27: any list of arguments, with the real getopt. */
#define _GNU_SOURCE
#include "vpn.h"
#include "common.h"
#include "context.h"
#include "cmdline.h"
#include "preload.h"
#include <getopt.h>
#include <setjmp.h>
static jmp_buf out; static int exited, code, to_out, to_err;
void __wrap_exit (int c) { exited = 1; code = c; longjmp (out, 1); }
static int in;
int __real_vprintf (const char *, va_list); int __real_puts (const char *); int __real_putchar (int); size_t __real_fwrite (const void *, size_t, size_t, FILE *);
int __wrap_printf (const char *f, ...) { if (in) { to_out++; return 1; } va_list a; va_start (a, f); int r = vprintf (f, a); va_end (a); return r; }
int __wrap_puts (const char *s) { if (in) { to_out++; return 1; } return __real_puts (s); } int __wrap_putchar (int c) { if (in) { to_out++; return c; } return __real_putchar (c); }
int __wrap_fprintf (FILE *o, const char *f, ...) { if (o == stdout) to_out++; else to_err++; return 1; }
size_t __wrap_fwrite (const void *p, size_t a, size_t b, FILE *o) { if (!in) return __real_fwrite (p, a, b, o); if (o == stdout) to_out++; else to_err++; return b; }
static char store[64][80]; static int ns;
static char *S (const char *f, ...) { va_list a; va_start (a, f); char *b = store[ns++ % 64]; vsnprintf (b, 80, f, a); va_end (a); return b; }
static void one_case (void)
{
  static const char *vals[] = { "", "x", "/etc/other.conf", "a b", "-f", "--", "9", "log=1" };
  char *av[64]; int n = 0; ns = 0; av[n++] = "preload"; const char *want[3] = { DEFAULT_CONFFILE, DEFAULT_STATEFILE, DEFAULT_LOGFILE }; int nice_ = DEFAULT_NICELEVEL, lvl = 4, fg = 0, done = 0, wexit = 0, wout = 0, rest = 0;
  static const char *lo[3] = { "conffile", "statefile", "logfile" };
  for (int k = rnd (9); k > 0 && !done; k--) {
    int form = rnd (4); const char *v = vals[rnd (8)];
    switch (rnd (9)) {
      case 0: case 1: case 2: { int o = rnd (3); char c = "csl"[o]; want[o] = v;
        if (form == 0) av[n++] = S ("-%c", c), av[n++] = (char *) v; else if (form == 1 && *v) av[n++] = S ("-%c%s", c, v); else if (form == 2) av[n++] = S ("--%.*s=%s", 3 + (int) rnd (strlen (lo[o]) - 2), lo[o], v); else av[n++] = S ("--%s", lo[o]), av[n++] = (char *) v; break; }
      case 3: fg = 1; av[n++] = form % 2 ? "-f" : "--foreground"; break;
      case 4: { int x = (int) rnd (60) - 20; nice_ = x; const char *v = S (chance (20) ? "%03d" : chance (10) ? "%+d" : "%d", x); if (form == 0) av[n++] = "-n", av[n++] = (char *) v; else if (form == 1) av[n++] = S ("-n%s", v); else if (form == 2) av[n++] = "--nice", av[n++] = (char *) v; else av[n++] = S ("--nice=%s", v); break; }
      case 5: { int x = rnd (11); lvl = x; const char *v = S (chance (20) ? "%03d" : "%d", x); if (form == 0) av[n++] = "-V", av[n++] = (char *) v; else if (form == 1) av[n++] = S ("-V%s", v); else if (form == 2) av[n++] = "--verbose", av[n++] = (char *) v; else av[n++] = S ("--verbose=%s", v); break; }
      case 6: fg = 1; lvl = 9; want[2] = NULL; av[n++] = form % 2 ? "-d" : "--debug"; break;
      case 7: { int x = rnd (100); fg = 1; if (x < 50) { lvl = 9; want[2] = NULL; av[n++] = "-fd"; } else { want[1] = "st"; av[n++] = "-fsst"; } break; }
      case 8: if (chance (60)) break; done = 1; switch (rnd (7)) { case 0: av[n++] = "-h"; wout = 1; break; case 1: av[n++] = "--help"; wout = 1; break; case 2: av[n++] = "-v"; wout = 1; break; case 3: av[n++] = "--version"; wout = 1; break; case 4: av[n++] = "--nosuch"; wexit = 1; break; case 5: av[n++] = "-x"; wexit = 1; break; case 6: av[n++] = "-H"; wout = 1; break; } break;
    }
  }
  if (!done && chance (20)) { av[n++] = "rest"; rest = 1; } if (chance (20) && done) av[n++] = "-d";
  av[n] = NULL; for (int i = 1; i < n; i++) note (" '%s'", av[i]);
  preload_log_level = 4; exited = to_out = to_err = 0; opterr = 0; optind = 0; int ac = n; char **ap = av;
  preload_ctx_t *c = preload_context_new (); EXPECT (!c->foreground && c->nicelevel == DEFAULT_NICELEVEL, "defaults");
  in = 1; if (!setjmp (out)) preload_cmdline_parse (c, &ac, &ap); in = 0;
  if (done) { EXPECT (exited, "help, version and unknown options end the program"); EXPECT (code == wexit, "with the matching status"); EXPECT (wexit ? to_err > 0 && !to_out : to_out > 0, "and print"); }
  else {
    EXPECT (!exited, "a good command line is accepted");
    EXPECT (!g_strcmp0 (c->conffile, want[0]), "configuration file"); EXPECT (!g_strcmp0 (c->statefile, want[1]), "state file"); EXPECT (!g_strcmp0 (c->logfile, want[2]), "log file");
    EXPECT ((c->foreground != 0) == fg, "foreground"); EXPECT (c->nicelevel == nice_, "nice level"); EXPECT (preload_log_level == lvl, "verbosity"); EXPECT (ac == rest && (!rest || !strcmp (ap[0], "rest")), "the rest is left");
  }
  preload_context_free (c);
}
