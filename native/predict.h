/* what both predictors do: the regions' scores, their ranking, and the hand-over to readahead (C30) */
static preload_memory_t mem; static int calls, got; static preload_map_t *gotf[MAXM];
void __wrap_proc_get_memstat (preload_memory_t *m) { *m = mem; }
int __wrap_preload_readahead (preload_map_t **f, int n) { calls++; got = n; for (int i = 0; i < n && i < MAXM; i++) gotf[i] = f[i]; return n; }
static double want_e[MAXE];
static void scramble (void)
{ for (int i = 0; i < wne; i++) we[i]->lnprob = chance (50) ? -3.5 : rnd (10); for (int i = 0; i < wnm; i++) wm[i]->lnprob = chance (50) ? -77 : 1.5; mem.total = mem.available = mem.free = 2000000000; calls = got = 0; }
static void check_regions (void)
{
  double w[MAXM] = { 0 };
  for (int i = 0; i < wne; i++) for (guint j = 0; j < we[i]->exemaps->len; j++) { preload_exemap_t *l = we[i]->exemaps->pdata[j]; w[midx (l->map)] += exe_is_running (we[i]) ? 1 : we[i]->lnprob; }
  for (int i = 0; i < wnm; i++) { note (" map%d=%g/%g", i, wm[i]->lnprob, w[i]); EXPECT (wm[i]->lnprob == wm[i]->lnprob, "a region's score is a number"); EXPECT (fabs (wm[i]->lnprob - w[i]) <= 1e-9 * (1 + fabs (w[i])), "a region's score is the sum over its programs"); }
  EXPECT ((int) state->maps_arr->len == wnm, "the list keeps its regions");
  int neg = 0;
  for (int i = 0; i < wnm; i++) { int c = 0; for (int j = 0; j < wnm; j++) c += state->maps_arr->pdata[j] == wm[i]; EXPECT (c == 1, "the list keeps its regions"); neg += wm[i]->lnprob < 0; }
  for (int i = 0; i + 1 < wnm; i++) EXPECT (((preload_map_t *) state->maps_arr->pdata[i])->lnprob <= ((preload_map_t *) state->maps_arr->pdata[i + 1])->lnprob, "regions are ranked by score, lowest first");
  EXPECT (calls == (neg > 0) && got == neg, "the wanted regions are read");
  for (int i = 0; i < got; i++) EXPECT (gotf[i]->lnprob < 0, "only wanted regions are read");
}
