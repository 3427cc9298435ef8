/* C31: vomm_hydrate_from_state - the sequence model is seeded from the pair records: one arbitrary known program, its
 * records gone through under a loop contract, the tree at each step any tree that may be there. */
#include "common.h"
#include "vomm.h"
#include "log.h"
#include "conf.h"
#include "prophet.h"
#include "state.h"
#include "exe.h"
#include <math.h>
#define VP_NO_LOG
#define VP_OWN_FREE
#define VP_OWN_STRINGS
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
gboolean exe_is_running (preload_exe_t *e) { return nondet_bool (); }
void g_free (gpointer p) { CHECK (0, "C31.frame: nothing is released"); }
static struct _vomm_node_t *pR, *pS, *pD, *pNS, *pND;
#define R (*pR)
#define S (*pS)
#define D (*pD)
#define NS (*pNS)
#define ND (*pND)
static struct vp_g { int next, walking, total, pool, tabs, count, c0, s0, insS, insD; _Bool handed, open, hasS, hasD, twice; } G; static int vp_len;
static vp_str sx, sy, cx, cy; static preload_exe_t X, Y; static preload_markov_t K; static GPtrArray arr;
static char tR, tS, tD, tn[2], tE; static void *vp_pool (void);
#undef g_malloc0
#undef g_malloc0_n
#define g_malloc0(n) vp_pool ()
#define g_malloc0_n(a, b) vp_pool ()
#undef g_strdup
#define g_strdup(s) vp_dup (s)
static char *vp_dup (const char *s) { CHECK (s == (char *) &sx || s == (char *) &sy, "C31.key: the path of a program"); return s == (char *) &sx ? (char *) &cx : (char *) &cy; }
gboolean g_str_equal (gconstpointer a, gconstpointer b) { return SID (a) == SID (b); }
guint __CPROVER_uninterpreted_strhash (uint64_t id);
guint g_str_hash (gconstpointer s) { return __CPROVER_uninterpreted_strhash (SID (s)); }
static void vp_owned (_Bool ok);
static preload_markov_t *vp_at (GPtrArray *a, int i);
#undef g_ptr_array_index
#define g_ptr_array_index(a, i) vp_at (a, i)
static GHashTable *vp_table (GHashFunc h, GEqualFunc e, GDestroyNotify k, GDestroyNotify v);
#define g_hash_table_new_full(h, e, k, v) vp_table (h, e, k, v)
#define SEED_DONE (G.c0 >= 0 && G.count >= 0 && G.c0 <= 0x7fffffff - G.count && (!G.handed || (!G.twice && S.count == G.s0 && D.count == G.c0 + (G.count > 0 && G.hasD ? G.count : 0) && (G.count > 0 \
  ? G.insS == !G.hasS && G.insD == !G.hasD && (G.hasS || GOOD (NS, &X, &R, 0)) && (G.hasD || GOOD (ND, &Y, G.hasS ? &S : &NS, G.count)) && G.pool == G.insS + G.insD \
  : !G.insS && !G.insD && !G.pool))))
#define GOOD(n, e, p, c) ((n).exe == (e) && (n).parent == (p) && (n).count == (c) && (n).children && (n).children != (p)->children)
static GHashTableIter *vp_it; static _Bool programs;
#include "algorithm/vomm.c"
static void *vp_pool (void)
{ CHECK (G.pool < 2 && G.handed, "C31.node: only nodes of the pair are made"); vomm_node_t *n = G.pool == 0 && !G.hasS ? &NS : &ND; G.pool++; n->exe = 0; n->parent = 0; n->count = 0; n->children = 0; return n; }
static GHashTable *vp_table (GHashFunc h, GEqualFunc e, GDestroyNotify k, GDestroyNotify v)
{ CHECK (h == g_str_hash && e == g_str_equal && k == g_free && v == vomm_node_free, "C31.node: successors are kept by path and owned by their node"); CHECK (G.tabs < 2, "C31.node: one set of successors per node"); return (GHashTable *) &tn[G.tabs++]; }
#define TOP (G.hasS ? &S : G.insS ? &NS : 0)
gpointer (g_hash_table_lookup) (GHashTable *t, gconstpointer k)
{
  CHECK (t && k, "C31.node: looked up by path in a node's successors"); uint64_t id = SID (k);
  if (t == (GHashTable *) &tR) { if (id == sx.id) return G.handed ? TOP : nondet_bool () ? &S : 0; return nondet_bool () ? &D : 0; }
  vomm_node_t *top = TOP; CHECK (top && t == top->children, "C31.node: a successor is looked up under its program");
  if (id != sy.id) return 0;
  return G.hasD ? &D : G.insD ? &ND : 0;
}
gboolean (g_hash_table_insert) (GHashTable *t, gpointer k, gpointer v)
{
  CHECK (G.handed && t && k && v, "C31.node: a node is put under a path");
  if (t == (GHashTable *) &tR) { CHECK (k == (gpointer) &cx && v == &NS, "C31.node: the program's own node goes to the top, under a copy of its path"); if (G.hasS || G.insS) G.twice = 1; G.insS = 1; }
  else { vomm_node_t *top = TOP; CHECK (top && t == top->children && k == (gpointer) &cy && v == &ND, "C31.node: the other program's node goes under it, under a copy of its path"); if (G.hasD || G.insD) G.twice = 1; G.insD = 1; }
  return TRUE;
}
guint (g_hash_table_size) (GHashTable *t) { CHECK (t == (GHashTable *) &tR, "C31.loaded: is there a tree"); return programs ? 0 : 1 + (guint) (nondet_u64 () % 1000); }
void (g_hash_table_iter_init) (GHashTableIter *i, GHashTable *t) { CHECK (t == state->exes && !G.walking, "C31.all: the known programs are gone through"); G.walking = 1; vp_it = i; }
gboolean (g_hash_table_iter_next) (GHashTableIter *i, gpointer *k, gpointer *v)
{
  CHECK (G.walking == 1 && i == vp_it, "C31.all: the known programs are gone through");
  CHECK (SEED_DONE, "C31.seed: the last record of a program is used like the others"); CHECK (!G.open || G.next == vp_len, "C31.all: all records of a program are used"); COVER (G.open && vp_len > 7, "many records");
  G.open = G.handed = 0; G.next = 0; if (nondet_bool ()) { G.walking = 2; return FALSE; }
  G.open = 1; if (k) *k = X.path; if (v) *v = &X; return TRUE;
}
static preload_markov_t *vp_at (GPtrArray *a, int i)
{
  CHECK (a == &arr && i == G.next && i < vp_len, "C31.all: each record of a program once"); ASSUME (i >= 0 && i < vp_len);
  ASSUME (G.total < 0x7fffffff); G.total++; G.next++; G.handed = 1; G.pool = G.tabs = G.insS = G.insD = 0; G.twice = 0;
  G.hasS = nondet_bool (); G.hasD = nondet_bool () && G.hasS; HAVOC (K);
  _Bool first = nondet_bool (); K.a = first ? &X : &Y; K.b = first ? &Y : &X; ASSUME (K.weight[1][3] >= 0 && K.weight[2][3] >= 0);
  G.count = first ? K.weight[1][3] : K.weight[2][3];
  G.c0 = 0; D.count = 0;   /* two programs have one record (C03): nothing is there of them yet */ G.s0 = nondet_int (); ASSUME (G.s0 >= 0); S.count = G.s0;
  return &K;
}
void h_seed (void)
{
  pR = malloc (sizeof R); pS = malloc (sizeof R); pD = malloc (sizeof R); pNS = malloc (sizeof R); pND = malloc (sizeof R); ASSUME (pR && pS && pD && pNS && pND);
  sx.id = nondet_u64 (); sy.id = nondet_u64 (); ASSUME (sx.id != sy.id); cx = sx; cy = sy; X.path = (char *) &sx; Y.path = (char *) &sy; X.markovs = &arr; Y.markovs = &arr; vp_len = nondet_int (); ASSUME (vp_len >= 0); arr.len = (guint) vp_len; arr.pdata = 0;
  G.open = 0; G.total = G.walking = G.next = G.pool = G.tabs = G.insS = G.insD = G.count = G.c0 = G.s0 = 0; G.handed = G.twice = 0; vp_it = 0;
  state->exes = (GHashTable *) &tE; R.children = (GHashTable *) &tR; S.children = (GHashTable *) &tS; D.children = (GHashTable *) &tD; R.exe = 0; R.parent = 0; S.exe = &X; S.parent = &R; D.exe = &Y; D.parent = &S; R.count = S.count = D.count = 0;
  _Bool up = nondet_bool (); programs = nondet_bool (); vomm_system.root = up ? &R : 0; vomm_system.current_context = vomm_system.root; vomm_system.history = 0; vomm_system.history_length = 0;
  vomm_hydrate_from_state ();
  CHECK (vomm_system.root == (up ? &R : 0) && vomm_system.current_context == vomm_system.root && !vomm_system.history && !vomm_system.history_length, "C31.frame: nothing is launched");
  CHECK (G.walking == (up && programs ? 2 : 0), "C31.loaded: records are used iff no tree is there"); CHECK (!G.handed, "C31.all: a walk ends at its end");
  COVER (!programs, "a tree"); COVER (programs, "none");
}
