#include "sim.h"
#include "world.h"
#include "markov.h"
/* one change of one record with any counts, means and times */
static void change_case (void)
{
  world_build (1); note ("time=%d ", state->time);
  for (int i = 0; i < wne; i++) for (guint k = 0; k < we[i]->markovs->len; k++) {
    preload_markov_t *m = we[i]->markovs->pdata[k]; if (m->a != we[i]) continue;
    m->state = rnd (4); m->change_timestamp = chance (20) ? state->time : (int) rnd ((uint64_t) state->time + 1); preload_markov_t o = *m; int s = o.state, now = (exe_is_running (m->a) ? 1 : 0) + (exe_is_running (m->b) ? 2 : 0);
    if (s == now && o.change_timestamp < state->time) continue;      /* reported changes only */
    int moves = o.change_timestamp < state->time; double mean = o.time_to_leave[s]; if (moves) mean += ((state->time - o.change_timestamp) - mean) / (o.weight[s][s] + 1);
    note (" %d->%d@%d(w%d)", s, now, (int) o.change_timestamp, o.weight[s][s]);
    for (int twice = 0; twice < 2; twice++) {
      preload_markov_state_changed (m);
      for (int x = 0; x < 4; x++) {
        for (int y = 0; y < 4; y++) EXPECT (m->weight[x][y] == o.weight[x][y] + (moves && x == s && (y == s || y == now)), "one departure and one transition are counted, nothing else");
        if (x != s) EXPECT (m->time_to_leave[x] == o.time_to_leave[x], "the other means stay");
      }
      EXPECT (fabs (m->time_to_leave[s] - mean) <= 1e-9 * (1 + fabs (mean)), "the running mean over all departures");
      if (o.change_timestamp < state->time) EXPECT (m->state == now, "the recorded joint state is the actual one");
      if (moves) EXPECT (m->change_timestamp == state->time, "the new state is timed from now");
      EXPECT (m->time == o.time && m->a == o.a && m->b == o.b, "nothing else changes");
    }
  }
  world_end ();
}
/* a new record for a program that just started, with programs that were loaded, started long ago or just now */
static void new_case (void)
{
  world_build (0); note ("time=%d ", state->time); time_t now = state->time;
  for (int i = 1; i < wne; i++) {
    preload_exe_t *a = we[i - 1], *b = we[i]; int sw = chance (50); if (sw) { preload_exe_t *x = a; a = b; b = x; }
    a->change_timestamp = chance (60) ? now : rnd (2) - 1; b->change_timestamp = chance (40) ? -1 : chance (20) ? 0 : chance (30) ? now : (time_t) rnd (now + 1);
    if (a->change_timestamp > now) a->change_timestamp = now; if (!(a->change_timestamp == now || b->change_timestamp == now || a->change_timestamp <= 0 || b->change_timestamp <= 0)) continue;
    if (chance (50)) { preload_exe_t *x = a; a = b; b = x; }
    time_t ca = a->change_timestamp, cb = b->change_timestamp; note (" [%d %d run %d %d]", (int) ca, (int) cb, exe_is_running (a), exe_is_running (b));
    preload_markov_t *m = preload_markov_new (a, b, TRUE);
    EXPECT (m && m->a == a && m->b == b && m->time == 0, "the record links the two programs, with no joint time yet");
    EXPECT (m->state == (exe_is_running (a) ? 1 : 0) + (exe_is_running (b) ? 2 : 0) && m->change_timestamp == now, "the recorded state is the actual one, timed from now");
    int n = 0; for (int x = 0; x < 4; x++) { int out = 0; for (int y = 0; y < 4; y++) if (y != x) out += m->weight[x][y]; EXPECT (out == m->weight[x][x], "departures equal the sum of transitions"); n += m->weight[x][x];
      EXPECT (m->time_to_leave[x] == (m->weight[x][x] ? (double) (now - MIN (ca, cb)) : 0), "the mean of the one departure is the time since the earlier change"); }
    EXPECT (n <= 1, "at most the one change that is just happening is counted");
  }
  world_end ();
}
static void one_case (void) { if (chance (30)) change_case (); else if (chance (25)) new_case (); else sim_case (); }
