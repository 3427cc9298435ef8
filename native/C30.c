/* the regions' scores with either predictor, whatever its bids; a model of one program or none included */
#include "world.h"
#include "predict.h"
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static void one_case (void)
{
  int vomm = chance (60);
  world_build (chance (50)); if (vomm) { vomm_init (); conf->system.prediction_algorithm = "VOMM"; }
  note ("%s programs=%d regions=%d ", vomm ? "sequence" : "pairs", wne, wnm);
  if (vomm) for (int k = wne ? rnd (12) : 0; k > 0; k--) vomm_update (we[rnd (wne)]);
  for (int round = 0; round < 2; round++) { scramble (); preload_prophet_predict (NULL); check_regions (); }
  world_end ();
}
