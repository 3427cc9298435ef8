/* C23: any configuration file, at startup and on reload, with the real key file parser. */
#include "vpn.h"
#include "common.h"
#include "conf.h"
#include <setjmp.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sanitizer/asan_interface.h>
/* the settings and their documented defaults */
static struct { const char *grp, *key; int type; long def; const char *sdef; } K[] = {
  { "model", "cycle", 0, 20 }, { "model", "usecorrelation", 1, 1 }, { "model", "minsize", 0, 2000000 }, { "model", "memtotal", 0, -10 }, { "model", "memfree", 0, 50 }, { "model", "memcached", 0, 0 }, { "model", "membuffers", 0, 50 },
  { "system", "doscan", 1, 1 }, { "system", "dopredict", 1, 1 }, { "system", "autosave", 0, 3600 }, { "system", "mapprefix", 3, 0 }, { "system", "exeprefix", 3, 0 }, { "system", "prediction_algorithm", 2, 0, "VOMM" }, { "system", "maxprocs", 0, 30 }, { "system", "sortstrategy", 0, 3 } };
#define NK 15
static long num (int k)
{ switch (k) { case 0: return conf->model.cycle; case 1: return conf->model.usecorrelation; case 2: return conf->model.minsize; case 3: return conf->model.memtotal; case 4: return conf->model.memfree; case 5: return conf->model.memcached; case 6: return conf->model.membuffers; case 7: return conf->system.doscan; case 8: return conf->system.dopredict; case 9: return conf->system.autosave; case 13: return conf->system.maxprocs; default: return (int) conf->system.sortstrategy; } }
typedef struct { long n[NK]; char *s; int have[2], cnt[2]; char *l[2][8]; } want_t;
static want_t cur, nxt; static jmp_buf out; static int aborted, critical;
void __wrap_g_log (const char *d, GLogLevelFlags l, const char *f, ...)
{ char m[2000]; va_list a; va_start (a, f); vsnprintf (m, 2000, f, a); va_end (a);  if (l & G_LOG_LEVEL_ERROR) { aborted = 1; longjmp (out, 1); } if (l & G_LOG_LEVEL_CRITICAL) { if (strstr (m, "assertion")) { note (" [%s]", m); vp_fail ("a precondition check of the code fails"); } critical++; } }
static void defaults (want_t *w) { memset (w, 0, sizeof *w); for (int i = 0; i < NK; i++) w->n[i] = K[i].def; w->s = "VOMM"; }
static void same (const char *when)
{
  for (int i = 0; i < NK; i++) if (K[i].type < 2) { if ((K[i].type ? (num (i) != 0) != (cur.n[i] != 0) : num (i) != cur.n[i])) { note (" [%s %s: %ld, not %ld]", when, K[i].key, num (i), cur.n[i]); vp_fail ("the settings in effect are those of the last good configuration"); } vp_checks++; }
  EXPECT (conf->system.prediction_algorithm && !strcmp (conf->system.prediction_algorithm, cur.s), "the algorithm in effect is that of the last good configuration");
  char **l[2] = { conf->system.mapprefix, conf->system.exeprefix };
  for (int k = 0; k < 2; k++) { EXPECT ((l[k] != NULL) == cur.have[k], "a list is given iff it was"); if (l[k]) { EXPECT ((int) g_strv_length (l[k]) == cur.cnt[k], "all its items"); for (int i = 0; i < cur.cnt[k]; i++) EXPECT (!strcmp (l[k][i], cur.l[k][i]), "in order"); } }
}
static void one_case (void)
{
  static const char *algos[] = { "VOMM", "Markov", "\"VOMM\"", "x y", "" }, *pf[] = { "/usr/", "!/", "/lib", "!/dev", "/a b" };
  static const char *badint[] = { "x", "1.5", "", "12abc", "99999999999", "0x10", "--5" }, *badbool[] = { "yes", "", "2", "TRUE!", "maybe" }, *badstr[] = { "a\\qb", "\\", "x\\z" };
  memset (conf, 0, sizeof *conf); defaults (&cur); int loads = 1 + rnd (5);
  for (int t = 0; t < loads; t++) {
    GString *b = g_string_new (""); defaults (&nxt); int bad = 0, groups[2] = { chance (90), chance (90) }, fail = t == 0 && chance (50);
    if (chance (10)) g_string_append (b, "# comment\n\n");
    for (int g = 0; g < 2; g++) {
      if (!groups[g]) continue;
      g_string_append_printf (b, "[%s]\n", g ? "system" : "model"); if (chance (10)) g_string_append (b, "unknown = 1\n");
      for (int i = 0; i < NK; i++) {
        if ((strcmp (K[i].grp, "model") != 0) != g || chance (35)) continue;
        int wrong = chance (2); const char *sp = chance (50) ? " = " : "=";
        if (K[i].type == 0) { if (wrong) { g_string_append_printf (b, "%s%s%s\n", K[i].key, sp, badint[rnd (7)]); bad = 1; } else { long v = chance (30) ? (long) (int) rnd64 () : (long) rnd (200) - 100; nxt.n[i] = v; g_string_append_printf (b, "%s%s%ld%s\n", K[i].key, sp, v, chance (10) ? " " : ""); } }
        else if (K[i].type == 1) { if (wrong) { g_string_append_printf (b, "%s%s%s\n", K[i].key, sp, badbool[rnd (5)]); bad = 1; } else { int v = rnd (2); nxt.n[i] = v; g_string_append_printf (b, "%s%s%s\n", K[i].key, sp, chance (30) ? (v ? "1" : "0") : v ? "true" : "false"); } }
        else if (K[i].type == 2) { if (wrong) { g_string_append_printf (b, "%s%s%s\n", K[i].key, sp, badstr[rnd (3)]); bad = 1; } else { nxt.s = (char *) algos[rnd (5)]; g_string_append_printf (b, "%s%s%s\n", K[i].key, sp, nxt.s); } }
        else { int k = i - 10; if (wrong) { g_string_append_printf (b, "%s%s/usr;/a\\q;\n", K[i].key, sp); bad = 1; } else { nxt.have[k] = 1; int n = nxt.cnt[k] = rnd (6); g_string_append_printf (b, "%s%s", K[i].key, sp); for (int j = 0; j < n; j++) { nxt.l[k][j] = (char *) pf[rnd (5)]; g_string_append_printf (b, "%s%s", nxt.l[k][j], j + 1 < n || chance (50) ? ";" : ""); } g_string_append (b, "\n"); } }
      }
    }
    if (chance (4)) { g_string_append (b, "garbage line\n"); bad = 1; }
    const char *file = "conf"; g_file_set_contents ("conf", b->str, b->len, NULL); int none = 0;
    switch (rnd (20)) { case 0: file = "missing"; bad = 1; break; case 1: mkdir ("dir", 0700); file = "dir"; bad = 1; break; case 2: file = NULL; none = 1; break; case 3: file = ""; none = 1; break; }
    if (none) { defaults (&nxt); bad = 0; }
    note ("\nload %d%s %s:\n%s", t, fail ? " (startup)" : "", file ? file : "(none)", none ? "" : b->str);
    char *oa = conf->system.prediction_algorithm, **om = conf->system.mapprefix, **oe = conf->system.exeprefix; preload_conf_t old = conf[0];
    aborted = critical = 0;
    if (!setjmp (out)) preload_conf_load (file, fail);
    if (bad) { EXPECT (fail ? aborted : !aborted, "a bad configuration ends the daemon at startup and only then"); EXPECT (fail || critical, "and is reported"); EXPECT (!memcmp (conf, &old, sizeof old), "a bad configuration changes nothing"); if (fail || !oa) { g_string_free (b, TRUE); break; } }
    else { EXPECT (!aborted && !critical, "a good configuration is accepted"); cur = nxt;
      EXPECT (!oa || __asan_address_is_poisoned (oa), "the old algorithm name is released"); EXPECT (!om || __asan_address_is_poisoned (om), "the old list of map prefixes is released"); EXPECT (!oe || __asan_address_is_poisoned (oe), "the old list of program prefixes is released"); }
    g_string_free (b, TRUE);
    same (bad ? "after a bad one" : "after a good one");
  }
  g_strfreev (conf->system.mapprefix); g_strfreev (conf->system.exeprefix); g_free (conf->system.prediction_algorithm);
}
