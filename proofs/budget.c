/* C12: preload_prophet_readahead - the budget, and the longest affordable initial run of the ranked list.
 * The list is arbitrary and of arbitrary length: its regions are given by unbounded ghost arrays, their
 * prefix sums by another one whose recurrence is instantiated where a region is looked at.  The loop is decided by an
 * invariant (no bound). */
#include "common.h"
#include "prophet.h"
#include "log.h"
#include "conf.h"
#include "state.h"
#include "readahead.h"
#include "vomm.h"
#include "exe.h"
#include "markov.h"
#include "proc.h"
#include <math.h>
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;

extern size_t vp_len[__CPROVER_constant_infinity_uint];
extern _Bool  vp_wanted[__CPROVER_constant_infinity_uint];
extern gint64 vp_prefix[__CPROVER_constant_infinity_uint];
#define LEN(i)    vp_len[i]
#define WANTED(i) vp_wanted[i]
#define PS(i)     vp_prefix[i]
#define KB(v)     ((gint64) ((v) / 1024 + ((v) % 1024 ? 1 : 0)))
/* region i qualifies: wanted, and affordable after all before it */
#define Q(i)      (WANTED (i) && KB (LEN (i)) <= vp_budget - PS (i))
gint64 vp_budget; int vp_w;              /* budget; an arbitrary position */
static GPtrArray *ga; static preload_map_t cur; static int in_call, calls, got_n; static preload_memory_t mem;
static gpointer vp_at (GPtrArray *a, int i)
{
  ASSUME (PS (i) >= 0 && PS (i) < (1ll << 60));
  CHECK (a == ga && i >= 0 && i < (int) a->len, "C12.bounds: positions within the list are looked at");
  cur.length = LEN (i); cur.lnprob = WANTED (i) ? -1.0 : nondet_bool () ? 0.0 : 1.0;
  ASSUME (PS (i + 1) == PS (i) + KB (LEN (i)));
  return &cur;
}
#undef g_ptr_array_index
#define g_ptr_array_index(a, i) vp_at (a, i)
void proc_get_memstat (preload_memory_t *m) { *m = mem; }
int preload_readahead (preload_map_t **files, int n)
{ calls++; got_n = n; CHECK (files == (preload_map_t **) ga->pdata, "C12.list: the ranked list is read from its beginning"); return nondet_int (); }
void preload_markov_foreach (GFunc f, gpointer d) { }
gboolean exe_is_running (preload_exe_t *e) { return 0; }
double preload_markov_correlation (preload_markov_t *m) { return 0; }
gboolean preload_is_vomm_algorithm (void) { return 0; }
void vomm_predict (void) { }
void preload_exe_foreach_exemap (preload_exe_t *e, GFunc f, gpointer d) { }
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d) { }
void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer d) { }
void g_ptr_array_sort (GPtrArray *a, GCompareFunc f) { }

/* the cut before the loop: the budget is what it has to be (budgetf.c); from there on it is any number */
static int cut_seen;
static void vp_cut (gint64 *memavail) { cut_seen = 1; *memavail = vp_budget; }
#include "algorithm/prophet.c"

static void setup (void)
{
  calls = got_n = in_call = cut_seen = 0;
  HAVOC (state[0]); HAVOC (conf[0]); HAVOC (mem); HAVOC (vp_w); HAVOC (preload_log_level);
  ASSUME (mem.total >= 0 && mem.free >= 0 && mem.available >= 0 && mem.cached >= 0 && mem.buffers >= 0);   /* C22: what the kernel reports */
  ASSUME (vp_w < 0 || (PS (vp_w) >= 0 && PS (vp_w) < (1ll << 60)));
  HAVOC (vp_budget); ASSUME (vp_budget > -(1ll << 40) && vp_budget < (1ll << 40));
  ASSUME (PS (0) == 0);
}
void h_budget (void)
{
  setup ();
  ga = malloc (sizeof *ga); ASSUME (ga != 0); ASSUME (ga->len <= 0x7ffffff0);
  preload_prophet_readahead (ga);
  CHECK (cut_seen, "C12.cut: the loop is reached");
  int n = calls ? got_n : 0;
  CHECK (calls <= 1, "C12.once: regions are read once");
  CHECK (!calls || n > 0, "C12.none: nothing is read when the first region does not qualify");
  CHECK (n >= 0 && n <= (int) ga->len, "C12.range: regions of the list are chosen");
  ASSUME (vp_w >= 0);
  CHECK (vp_w >= n || Q (vp_w), "C12.fit: every chosen region is wanted and fits in what is left of the budget");
  ASSUME (n >= (int) ga->len || PS (n + 1) == PS (n) + KB (LEN (n)));
  CHECK (n == (int) ga->len || !Q (n), "C12.longest: the first region that does not qualify ends the run");
  CHECK (state->memstat.total == mem.total && state->memstat.available == mem.available && state->memstat_timestamp == state->time, "C12.memstat: the figures used are remembered");
  COVER (n > 2, "several are chosen"); COVER (n == 0, "none"); COVER (n == 1 && ga->len > 1, "cut off");
}
