#include "world.h"
#include "markov.h"
#include "predict.h"
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static void bid (preload_markov_t *m)
{
  int s = m->state; if (!m->weight[s][s] || !(m->time_to_leave[s] > 1)) return;
  double c = conf->model.usecorrelation ? fabs (preload_markov_correlation (m)) : 1;
  double ch = 1 - exp (-1.5 * conf->model.cycle / m->time_to_leave[s]);
  for (int k = 0; k < 2; k++) if (!(s & (1 << k)))
    { double q = ((double) m->weight[s][1 << k] + m->weight[s][3]) / (m->weight[s][s] + 0.01); want_e[widx (k ? m->b : m->a)] += log (1 - c * ch * q); }
}
static void one_case (void)
{
  world_build (chance (95)); scramble ();
  memset (want_e, 0, sizeof want_e);
  note ("cycle=%d corr=%d programs=%d regions=%d", conf->model.cycle, conf->model.usecorrelation, wne, wnm);
  for (int i = 0; i < wne; i++) for (guint j = 0; j < we[i]->markovs->len; j++) { preload_markov_t *m = we[i]->markovs->pdata[j]; if (m->a == we[i]) bid (m); }
  preload_prophet_predict (NULL);
  for (int i = 0; i < wne; i++) {
    note (" exe%d=%g/%g%s", i, we[i]->lnprob, want_e[i], exe_is_running (we[i]) ? "(running)" : "");
    EXPECT (we[i]->lnprob == we[i]->lnprob && we[i]->lnprob <= 0 && we[i]->lnprob > -1e300, "a score is a number and not positive");
    EXPECT (fabs (we[i]->lnprob - want_e[i]) <= 1e-6 * (1 + fabs (want_e[i])), "the score is the sum of the bids");
    if (exe_is_running (we[i])) EXPECT (we[i]->lnprob == 0, "a running program gets no bid");
  }
  check_regions ();
  world_end ();
}
