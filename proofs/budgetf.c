/* C12: the budget preload_prophet_readahead starts with, for all memory figures and percentages.  A ghost call inserted before the
 * selection loop looks at it.  Equality of the formulas is decided over bit-vectors with the multiplications kept as terms; that
 * no product or sum overflows (in the code or in this specification) is a separate bundle. */
#include "common.h"
#include "prophet.h"
#include "log.h"
#include "conf.h"
#include "state.h"
#include "readahead.h"
#include "vomm.h"
#include "exe.h"
#include "markov.h"
#include "proc.h"
#include <math.h>
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
static preload_memory_t mem;
void proc_get_memstat (preload_memory_t *m) { *m = mem; }
static GPtrArray *ga; static gint64 vp_budget; static int cut_seen;
static void vp_cut (gint64 *memavail)
{
  cut_seen = 1;
#ifdef VP_FORMULA
  CHECK (*memavail == vp_budget, "C12.budget: max(0, total x memtotal + available x memfree) + cached x memcached + buffers x membuffers, in percent");
#endif
  COVER (*memavail > 0, "some budget"); COVER (*memavail < 0, "negative");
  STOP ();
}
#include "algorithm/prophet.c"
#define CLAMP_PCT(v) ((v) > 100 ? 100 : (v) < -100 ? -100 : (v))
void h_budget (void)
{
  HAVOC (state[0]); HAVOC (conf[0]); HAVOC (mem);
  ASSUME (mem.total >= 0 && mem.free >= 0 && mem.available >= 0 && mem.cached >= 0 && mem.buffers >= 0);
  gint64 b;
  if (mem.available > 0) b = CLAMP_PCT (conf->model.memtotal) * (mem.total / 100) + CLAMP_PCT (conf->model.memfree) * ((gint64) mem.available / 100);
  else b = CLAMP_PCT (conf->model.memtotal) * (gint64) (mem.total / 100) + CLAMP_PCT (conf->model.memfree) * (mem.free / 100);
#ifdef VP_AVAILABLE
  ASSUME (mem.available > 0);
#else
  ASSUME (mem.available <= 0);
#endif
  b = b > 0 ? b : 0;
  b += CLAMP_PCT (conf->model.memcached) * (mem.cached / 100);
  b += CLAMP_PCT (conf->model.membuffers) * (mem.buffers / 100);
  vp_budget = b;
  ga = malloc (sizeof *ga); ASSUME (ga != 0); 
  preload_prophet_readahead (ga);
  CHECK (0, "C12.cut: the selection loop is reached");
}
