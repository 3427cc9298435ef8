#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
static gint64 any_time (gint64 t)
{ switch (rnd (7)) { case 0: return 0; case 1: return t; case 2: return t + (gint64) rnd (1000); case 3: return 1; case 4: return rnd64 () >> rnd (64); case 5: return t - 1; default: return rnd (t ? t : 1); } }
static void one_case (void)
{
  preload_exe_t a = { 0 }, b = { 0 }; preload_markov_t m = { 0 }, s = { 0 };
  gint64 t = chance (20) ? rnd (4) : chance (30) ? 2147483647 - (gint64) rnd (3) : (gint64) rnd (1ull << rnd (31));
  state->time = t; a.time = any_time (t); b.time = any_time (t); m.time = chance (70) ? (gint64) rnd (t + 1) : any_time (t);
  if (chance (30)) m.time = MIN (a.time, b.time);
  if (chance (20) && t > 3) { gint64 k = 1 + rnd (t / 2 > 1000 ? 1000 : t / 2 ? t / 2 : 1); a.time = k; b.time = t / k; m.time = a.time * b.time / t; }
  m.a = &a; m.b = &b; s.a = &b; s.b = &a; s.time = m.time;
  note ("t=%d a=%ld b=%ld ab=%ld", state->time, (long) a.time, (long) b.time, (long) m.time);
  double r = preload_markov_correlation (&m), q = preload_markov_correlation (&s);
  EXPECT (r >= -1.0 && r <= 1.0, "a number from -1 to 1");
  EXPECT (fabs (r - q) <= 1e-9, "does not depend on the order of the programs");
  if (a.time == 0 || b.time == 0 || a.time == t || b.time == t) EXPECT (r == 0, "0 for a program that ran never or always");
  else if (a.time > 0 && a.time < t && b.time > 0 && b.time < t && m.time >= 0 && m.time <= MIN (a.time, b.time)) {
    long double T = t, A = a.time, B = b.time, AB = m.time;
    long double ref = (T * AB - A * B) / (sqrtl (A * (T - A)) * sqrtl (B * (T - B)));
    if (ref > 1) ref = 1; if (ref < -1) ref = -1;
    EXPECT (fabsl (r - ref) <= 1e-6, "the Pearson coefficient");
    __int128 x = (__int128) t * m.time, y = (__int128) a.time * b.time;
    if (t < (1 << 26)) EXPECT ((r > 0) == (x > y) && (r < 0) == (x < y), "sign");
  }
}
