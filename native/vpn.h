/* Native side of a check: the same contract as a runtime check around the real code and the real GLib (and stand-ins for
 * system calls where needed).  Used to replay a failed proof as a concrete failing input, as the bounded stand-in where a
 * proof cannot be redone, and to test the trusted environment contracts.  Prints FAIL lines and exits 1 on failure. */
#ifndef VPN_H
#define VPN_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <glib.h>
static uint64_t vp_rng_state = 88172645463325252ull;
static unsigned long vp_case, vp_checks;
static char vp_desc[1 << 16];
static uint64_t rnd64 (void) { uint64_t x = vp_rng_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return vp_rng_state = x; }
static uint64_t rnd (uint64_t n) { return n ? (rnd64 () >> 11) % n : 0; }
static int chance (int pct) { return (int) rnd (100) < pct; }
static void note (const char *f, ...)
{ size_t l = strlen (vp_desc); va_list a; va_start (a, f); if (l + 512 < sizeof vp_desc) vsnprintf (vp_desc + l, sizeof vp_desc - l, f, a); va_end (a); }
static void vp_fail (const char *what)
{ printf ("FAIL: %s\ncase %lu: %s\n", what, vp_case, vp_desc); fflush (stdout); _exit (1); }
#define EXPECT(c, what) do { vp_checks++; if (!(c)) vp_fail (what); } while (0)
static int vp_fatal_ok;
static void vp_log (const char *d, GLogLevelFlags l, const char *m, gpointer u)
{ if (vp_fatal_ok) return; if (l & (G_LOG_LEVEL_ERROR | G_LOG_FLAG_FATAL)) { note (" [g_error: %s]", m); vp_fail ("the code aborts"); }
  if ((l & G_LOG_LEVEL_CRITICAL) && strstr (m, "assertion")) { note (" [%s]", m); vp_fail ("a precondition check of the code fails"); } }
static void one_case (void);
#ifndef VPN_NO_MAIN
int main (int argc, char **argv)
{
  unsigned long seed = argc > 1 ? strtoul (argv[1], 0, 10) : 1, n = argc > 2 ? strtoul (argv[2], 0, 10) : 1000;
  g_log_set_default_handler (vp_log, NULL);
  for (vp_case = 0; vp_case < n; vp_case++) {
    vp_rng_state = (seed * 0x9E3779B97F4A7C15ull) ^ ((vp_case + 1) * 0xD1B54A32D192ED03ull); if (!vp_rng_state) vp_rng_state = 1;
    for (int i = 0; i < 4; i++) rnd64 ();
    vp_desc[0] = 0;
    one_case ();
  }
  printf ("OK cases=%lu checks=%lu\n", vp_case, vp_checks);
  return 0;
}
#endif
#endif
