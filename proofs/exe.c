/* C03: contracts of handling/exe.c - a program's size, its registration with one chain per other program, its removal.
 * Callees in other files (regions, chains, sequence model, scan results) appear as their contracts, which are discharged in
 * map.c (C01), markov.c (C03/C04), vommtree.c (C11) and spy.c (C07). */
#include "common.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "state.h"
#include "vomm.h"
#include "spy.h"
#define VP_OWN_FREE
#include "../lib/glib_base.h"

preload_state_t state[1];
/* ---- ghost state */
static preload_exe_t *ge;                   /* the program under scrutiny */
static GPtrArray *g_maps, *g_chains;        /* its lists, once known */
static preload_exemap_t *gl; static preload_map_t *gm;   /* an arbitrary link of it and the region of that link */
static preload_markov_t *gk;                /* an arbitrary chain of it */
static preload_exe_t *go;                   /* an arbitrary other program */
static char *gpath;
static int e_freed, path_freed, l_freed, l_foreach, k_foreach, maps_arr_freed, chains_arr_freed, m_refs, m_unrefs, k_freed;
static int k_made, k_made_self, in_table, table_ops, links_added, forgot_vomm, forgot_spy, arrays_made;
static size_t total;                        /* the true sum of the lengths of the links */
static preload_exemap_t *added;

static preload_exe_t *any_exe (void)
{
  preload_exe_t *e = malloc (sizeof *e); ASSUME (e != 0);
  e->path = vp_str_new (nondet_u64 (), '/');
  e->markovs = malloc (sizeof (GPtrArray)); e->exemaps = malloc (sizeof (GPtrArray)); ASSUME (e->markovs && e->exemaps);
  return e;
}
static preload_map_t *any_map (void) { preload_map_t *m = malloc (sizeof *m); ASSUME (m != 0); return m; }
static preload_exemap_t *any_link (preload_map_t *m) { preload_exemap_t *l = malloc (sizeof *l); ASSUME (l != 0); l->map = m; return l; }

/* ---- contracts of callees */
void preload_map_ref (preload_map_t *m)   { CHECK (m != 0, "C03.ref: a region is referenced"); if (m == gm) m_refs++; }
void preload_map_unref (preload_map_t *m) { CHECK (m != 0, "C03.unref: a region is unreferenced"); if (m == gm) m_unrefs++; }
size_t preload_map_get_size (preload_map_t *m) { CHECK (m != 0, "C03.size: of a region"); return m->length; }
preload_markov_t *preload_markov_new (preload_exe_t *a, preload_exe_t *b, gboolean init)
{
  CHECK (a && b, "C03.pair: a chain links two programs");
  CHECK (a != b, "C03.pair: no chain links a program to itself");
  CHECK (a == ge || b == ge, "C03.pair: new chains are the new program's");
  CHECK (init, "C03.pair: a new chain starts with the present state");
  if ((a == ge && b == go) || (a == go && b == ge)) k_made++;
  preload_markov_t *k = malloc (sizeof *k); ASSUME (k != 0); k->a = a; k->b = b;
  return k;
}
void preload_markov_free (preload_markov_t *k, preload_exe_t *from)
{ CHECK (k != 0 && from == ge && ge && !e_freed && !path_freed, "C03.free: a program's chains are freed from its side, while it exists"); if (k == gk) k_freed++; }
void vomm_forget (preload_exe_t *e)        { CHECK (e == ge && !e_freed && !path_freed, "C03.forget: the sequence model is told while the program exists"); forgot_vomm++; }
void preload_spy_forget (preload_exe_t *e) { CHECK (e == ge && !e_freed, "C03.forget: the scan results are told while the program exists"); forgot_spy++; }

/* ---- environment contracts */
GPtrArray *g_ptr_array_new (void) { GPtrArray *a = malloc (sizeof *a); ASSUME (a != 0); a->len = 0; a->pdata = 0; arrays_made++; return a; }
void g_ptr_array_add (GPtrArray *a, gpointer p) { CHECK (a == g_maps && p != 0, "C03.link: a link is added to the program's own list"); added = p; links_added++; }
void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer d)
{
  CHECK (a != 0, "C03.list: the list exists");
  if (g_maps && a == g_maps) {
    CHECK (!maps_arr_freed, "C03.list: the list of links still exists");
    l_foreach++;
    preload_exemap_t *l = any_link (any_map ());
    if (ge == 0) {                                      /* called by preload_exe_new: sums up */
      preload_exe_t *e = d;
      CHECK (e->size == 0, "C03.size: no region is counted yet");
      if (nondet_bool ()) {                             /* step: any partial sum, any next link */
        size_t part = nondet_size (); preload_exe_t e0 = *e; e->size = part;
        f (l, d);
        CHECK (e->size == part + l->map->length, "C03.size: every link adds the length of its region");
        CHECK (e->exemaps == e0.exemaps && e->path == e0.path, "C03.size: adding up changes nothing else");
#ifdef VP_STEP
        COVER (1, "size step");
#endif
        STOP ();
      }
      e->size = total;                                  /* by induction */
    } else {
      int u = m_unrefs, fr = l_freed;
      f (gl, d);
      CHECK (m_unrefs == u + 1 && l_freed == fr + 1, "C03.free: every link gives up its region once and is freed once");
    }
  } else if (g_chains && a == g_chains) {
    CHECK (!chains_arr_freed, "C03.list: the list of chains still exists");
    k_foreach++; f (gk, d);
  } else CHECK (a->len == 0 && arrays_made, "C03.frame: no other list is walked");
}
gpointer *g_ptr_array_free (GPtrArray *a, gboolean seg)
{
  if (a == g_maps) { CHECK (maps_arr_freed == 0, "C03.free: list freed once"); maps_arr_freed++; }
  else if (a == g_chains) { CHECK (chains_arr_freed == 0, "C03.free: list freed once"); chains_arr_freed++; }
  else CHECK (0, "C03.frame: no other list is freed");
  CHECK (seg, "C03.free: the elements' storage is freed, too");
  return 0;
}
void g_ptr_array_unref (GPtrArray *a) { g_ptr_array_free (a, TRUE); }
void g_free (gpointer p)
{
  if (!p) return;
  if (p == ge) e_freed++; else if (p == gpath) path_freed++; else if (p == gl) l_freed++;
  else CHECK (0, "C03.frame: nothing else is freed");
}
static void table (GHashTable *t) { CHECK (t == state->exes, "C03.table: the registry of programs is used"); }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{ table (t); CHECK (k && SID (k) == SID (gpath) && !path_freed, "C03.key: the program's path is looked up"); return in_table ? ge : 0; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{ table (t); CHECK (v == ge && k == ge->path, "C03.key: the program is filed under its path, which lives as long as it"); in_table = 1; table_ops++; return TRUE; }
gboolean g_hash_table_steal (GHashTable *t, gconstpointer k)
{ table (t); CHECK (k && !path_freed && SID (k) == SID (gpath), "C03.key: the program's own entry is removed"); gboolean r = in_table; in_table = 0; return r; }
gboolean g_hash_table_remove (GHashTable *t, gconstpointer k) { if (g_hash_table_steal (t, k)) { preload_exe_free (ge); return TRUE; } return FALSE; }
void g_hash_table_foreach (GHashTable *t, GHFunc f, gpointer d)
{
  table (t);
  /* the witness is one arbitrary other registered program; anything else registered goes through the same contract */
  if (nondet_bool ()) f (any_exe ()->path, any_exe (), d);
  f (go->path, go, d);
  if (in_table) f (ge->path, ge, d);
}

#include "handling/exe.c"

void h_exe_new (void)
{
  HAVOC (state[0]);
  char *path = vp_str_new (nondet_u64 (), '/'); gboolean running = nondet_bool ();
  bool given = nondet_bool ();
  total = nondet_size ();
  if (given) { g_maps = malloc (sizeof *g_maps); ASSUME (g_maps != 0); }
  preload_exe_t *e = preload_exe_new (path, running, g_maps);
  CHECK (e && e->path && e->path != path && SID (e->path) == SID (path), "C03.new: the program has its own copy of the path");
  CHECK (e->size == (given ? total : 0), "C03.size: the size is the sum of the lengths of the regions");
  CHECK (given ? e->exemaps == g_maps : (e->exemaps != 0 && e->exemaps != e->markovs), "C03.new: the given links are taken over");
  CHECK (e->markovs && e->markovs->len == 0 && e->markovs != e->exemaps, "C03.new: there are no chains yet");
  CHECK (e->time == 0 && e->lnprob == 0.0 && e->change_timestamp == state->time, "C03.new: nothing is credited yet");
  CHECK (!running || (e->running_timestamp == state->last_running_timestamp && exe_is_running (e)), "C03.new: a running program counts as running");
  CHECK (running || state->last_running_timestamp < 0 || !exe_is_running (e), "C03.new: a program that is not running does not");
  COVER (given, "with links"); COVER (!given && running, "without");
}
static void setup (void)
{
  HAVOC (state[0]);
  ge = any_exe (); gpath = ge->path; g_maps = ge->exemaps; g_chains = ge->markovs;
  gm = any_map (); gl = any_link (gm); gk = malloc (sizeof *gk); ASSUME (gk != 0);
  go = any_exe (); ASSUME (SID (go->path) != SID (gpath));
  state->exes = malloc (1); ASSUME (state->exes != 0);
}
static void freed_once (void)
{
  CHECK (e_freed == 1 && path_freed == 1, "C03.free: the program and its path are freed once");
  CHECK (l_foreach == 1 && l_freed == 1 && m_unrefs == 1 && maps_arr_freed == 1, "C03.free: every link is released once");
  CHECK (k_foreach == 1 && k_freed == 1 && chains_arr_freed == 1, "C03.free: every chain is released once");
}
void h_exe_free (void) { setup (); preload_exe_free (ge); freed_once (); COVER (1, "freed"); }
void h_unregister (void)
{
  setup (); in_table = 1;
  preload_state_unregister_exe (ge);
  CHECK (!in_table, "C03.unregister: the program is no longer registered");
  CHECK (forgot_vomm >= 1, "C03.unregister: the sequence model forgets it");
  CHECK (forgot_spy >= 1, "C03.unregister: the pending scan results forget it");
  freed_once ();
  COVER (1, "unregistered");
}
void h_register (void)
{
  setup (); gboolean create = nondet_bool ();
  gint64 s0 = state->exe_seq; ASSUME (s0 >= 0 && s0 < 4000000000000000000);
  preload_state_register_exe (ge, create);
  CHECK (in_table == 1 && table_ops == 1, "C03.register: the program is registered");
  CHECK (ge->seq > s0 && ge->seq <= state->exe_seq, "C03.register: its number was never used before");
  CHECK (k_made == (create ? 1 : 0), "C03.register: exactly one chain with every other program");
  CHECK (!e_freed && !path_freed, "C03.register: nothing is freed");
  COVER (create, "with chains"); COVER (!create, "without");
}
void h_link (void)
{
  setup (); size_t s0 = ge->size;
  preload_exemap_t *l = preload_exemap_new_from_exe (ge, gm);
  CHECK (l && l->map == gm && l->prob == 1.0, "C03.link: the link is to the region");
  CHECK (links_added == 1 && added == l, "C03.link: it is added once");
  CHECK (m_refs == 1 && m_unrefs == 0, "C03.link: it holds one reference");
  CHECK (ge->size == s0 + gm->length, "C03.size: the size grows by the length of the region");
  COVER (1, "linked");
}
void h_running (void)
{
  setup ();
  CHECK ((exe_is_running (ge) != 0) == (ge->running_timestamp >= state->last_running_timestamp), "C03.running: seen at or after the last scan");
  COVER (exe_is_running (ge), "running"); COVER (!exe_is_running (ge), "not running");
}
void h_foreach_link (void)
{
  setup (); ge->markovs = 0;
  preload_exe_foreach_exemap (ge, preload_exemap_free, NULL);
  CHECK (l_foreach == 1 && l_freed == 1, "C03.foreach: every link is visited once"); COVER (1, "visited");
}
