#include "world.h"
#include "vshadow.h"
#include "predict.h"
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static int runs (int e) { return we[e]->running_timestamp >= state->last_running_timestamp; }
static void s_ppm (int n)
{ double total = 0; for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent == n) total += sn[i].count;
  if (total == 0) return;
  double prev = 0; (void) prev;
  for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent == n && !runs (sn[i].exe)) { double p = sn[i].count / total; if (p < 1e-9) p = 1e-9; if (p > 1 - 1e-9) p = 1 - 1e-9; want_e[sn[i].exe] += log (1 - p); } }
static void one_case (void)
{
  world_build (chance (50)); s_init (); vomm_init (); conf->system.prediction_algorithm = chance (80) ? "VOMM" : "vomm";
  if (!preload_is_vomm_algorithm ()) conf->system.prediction_algorithm = "VOMM";
  note ("programs=%d ", wne);
  if (chance (70)) s_random_tree (chance (50) ? 6 : 40);
  for (int k = wne ? rnd (12) : 0; k > 0; k--) { int e = rnd (wne); note (" %d", e); vomm_update (we[e]); s_update (e); }
  memset (want_e, 0, sizeof want_e); scramble ();
  for (int i = 0; i < shn; i++) { int c = s_child (0, shist[i]); if (c) s_ppm (c); }
  if (sctx) { int any = 0; for (int i = 1; i < sns; i++) any |= !sn[i].dead && sn[i].parent == sctx;
    if (any) { s_ppm (sctx); for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent == sctx && sn[i].count > 0 && !runs (sn[i].exe)) want_e[sn[i].exe] -= log (1.1); } }
  double total = 0;
  for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent && !sn[sn[i].parent].parent) total += sn[i].count;
  if (total) for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent && !sn[sn[i].parent].parent && sn[i].count > 0 && !runs (sn[i].exe)) { double g = 0.1 + 0.4 * (sn[i].count / total); if (g > 0.5) g = 0.5; want_e[sn[i].exe] += log (1 - g); }
  preload_prophet_predict (NULL);
  for (int i = 0; i < wne; i++) {
    note (" exe%d=%g/%g%s", i, we[i]->lnprob, want_e[i], runs (i) ? "(running)" : "");
    EXPECT (we[i]->lnprob == we[i]->lnprob && we[i]->lnprob <= 0 && we[i]->lnprob > -1e300, "a score is a finite number and not positive");
    EXPECT (fabs (we[i]->lnprob - want_e[i]) <= 1e-6 * (1 + fabs (want_e[i])), "the score is the sum of the bids");
    if (runs (i)) EXPECT (we[i]->lnprob == 0, "a running program gets no bid");
  }
  check_regions (); s_compare ();
  world_end ();
}
