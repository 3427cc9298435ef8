#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
#include "proc.h"
#include "prophet.h"
#include "readahead.h"
#include "log.h"
static preload_memory_t mem; static int calls, got; static preload_map_t **gf; static int order[64];
void __wrap_proc_get_memstat (preload_memory_t *m) { *m = mem; }
static GPtrArray *arr; static preload_map_t *snap[64];
int __wrap_preload_readahead (preload_map_t **f, int n)
{ calls++; got = n; EXPECT (n >= 0 && n <= (int) arr->len, "chosen from the list"); for (int i = 0; i < n; i++) EXPECT (f[i] == snap[i], "an initial run of the list, in order"); return n; }
static int fig (void) { switch (rnd (5)) { case 0: return 0; case 1: return rnd (1000); case 2: return rnd (100000000); case 3: return 2147483647 - (int) rnd (200); default: return rnd (1 << (1 + rnd (30))); } }
static int pct (void) { switch (rnd (5)) { case 0: return 0; case 1: return (int) rnd (201) - 100; case 2: return (int) rnd (1000) - 500; case 3: return 50; default: return chance (50) ? 100 : -100; } }
static __int128 cl (int v) { return v > 100 ? 100 : v < -100 ? -100 : v; }
static __int128 kbs (size_t v) { return (__int128) (v / 1024) + (v % 1024 != 0); }
static void one_case (void)
{
  mem.total = fig (); mem.free = fig (); mem.available = chance (70) ? fig () : 0; mem.cached = fig (); mem.buffers = fig ();
  conf->model.memtotal = chance (40) ? -10 : pct (); conf->model.memfree = pct (); conf->model.memcached = pct (); conf->model.membuffers = pct ();
  state->time = rnd (1 << 30); memset (&state->memstat, 0x55, sizeof state->memstat); preload_log_level = chance (90) ? 0 : 10;
  __int128 b = cl (conf->model.memtotal) * (mem.total / 100) + cl (conf->model.memfree) * ((mem.available > 0 ? mem.available : mem.free) / 100);
  if (b < 0) b = 0;
  b += cl (conf->model.memcached) * (mem.cached / 100) + cl (conf->model.membuffers) * (mem.buffers / 100);
  note ("total=%d free=%d available=%d cached=%d buffers=%d pct %d %d %d %d budget=%ld list", mem.total, mem.free, mem.available, mem.cached, mem.buffers,
        conf->model.memtotal, conf->model.memfree, conf->model.memcached, conf->model.membuffers, (long) b);
  static preload_map_t m[64]; int n = rnd (chance (10) ? 60 : 6); memset (m, 0, sizeof m);
  arr = g_ptr_array_new ();
  __int128 left = b;
  for (int i = 0; i < n; i++) {
    m[i].path = "/x"; m[i].lnprob = chance (85) ? -(1 + (double) rnd (100)) / 10 : chance (50) ? 0 : 0.5; if (chance (5)) m[i].lnprob = -1e-300;
    switch (rnd (6)) {
      case 0: m[i].length = rnd (5000); break;
      case 1: m[i].length = rnd64 () >> rnd (40); break;
      case 2: m[i].length = (size_t) 1 << rnd (64); break;
      default: { size_t k = left > 0 ? (size_t) left : 0; if (chance (60)) k = k / (1 + rnd (4)); m[i].length = k * 1024 + (chance (50) ? 0 : chance (50) ? 1 : -1); if (k > (1ull << 50)) m[i].length = 7; } }
    if (m[i].length > (1ull << 63)) m[i].length = 1ull << 63;
    left -= kbs (m[i].length);
    note (" %zu(%g)", m[i].length, m[i].lnprob);
    g_ptr_array_add (arr, snap[i] = &m[i]);
  }
  calls = got = 0;
  preload_prophet_readahead (arr);
  int want = 0; left = b;
  while (want < n && m[want].lnprob < 0 && kbs (m[want].length) <= left) { left -= kbs (m[want].length); want++; }
  EXPECT (calls == (want > 0), "readahead is called once iff something was chosen");
  if (want) EXPECT (got == want, "the longest affordable initial run of wanted regions is read");
  EXPECT (!memcmp (&state->memstat, &mem, sizeof mem) && state->memstat_timestamp == state->time, "the figures used are remembered");
  g_ptr_array_free (arr, TRUE);
}
