/* C11: vomm_update - one launch: the history, the counts, the nodes created, the context and its depth.
 * The tree is arbitrary; the nodes that the code looks at are created when it first looks at them and remembered
 * (table, program) -> node, so that looking again gives the same node. */
#include "common.h"
#include "vomm.h"
#include "log.h"
#include "conf.h"
#include "prophet.h"
#include "state.h"
#include "exe.h"
#include <math.h>
#define VP_OWN_FREE
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
void g_free (gpointer p) { CHECK (0, "C11.frame: nothing is freed by a launch"); }
gboolean exe_is_running (preload_exe_t *e) { return nondet_bool (); }

/* ---- lists: concrete; the history has at most five elements */
GList *g_list_append (GList *l, gpointer x)
{
  GList *n = malloc (sizeof *n); ASSUME (n != 0); n->data = x; n->next = 0; n->prev = 0;
  if (!l) return n;
  GList *e = l; for (int i = 0; i < 7 && e->next; i++) e = e->next;
  CHECK (!e->next, "C11.window: the history never has more than six entries"); e->next = n; n->prev = e; return l;
}
GList *g_list_last (GList *l) { if (!l) return 0; for (int i = 0; i < 7 && l->next; i++) l = l->next; return l; }
GList *g_list_first (GList *l) { return l; }
guint g_list_length (GList *l) { guint n = 0; for (int i = 0; i < 8 && l; i++) { n++; l = l->next; } return n; }
GList *g_list_delete_link (GList *l, GList *k)
{
  CHECK (l && k, "C11.window: an entry of the history is removed");
  if (k->prev) k->prev->next = k->next; if (k->next) k->next->prev = k->prev;
  return l == k ? k->next : l;
}
GList *g_list_remove_link (GList *l, GList *k) { GList *r = g_list_delete_link (l, k); k->next = k->prev = 0; return r; }
/* ---- tables */
typedef struct _vomm_node_t vp_node;
#define MEMO 12
typedef struct { GHashTable *t; uint64_t id; struct _vomm_node_t *n; _Bool existed; } vp_memo;
static vp_memo memo[MEMO]; static int memos; static int inserts, tables;
static struct _vomm_node_t *vp_existing (GHashTable *t, uint64_t id);
static int vp_find (GHashTable *t, uint64_t id) { for (int i = 0; i < MEMO; i++) if (i < memos && memo[i].t == t && memo[i].id == id) return i; return -1; }
static struct _vomm_node_t *vp_get (GHashTable *t, uint64_t id)
{
  int i = vp_find (t, id);
  if (i < 0) { CHECK (memos < MEMO, "model: few nodes are looked at"); ASSUME (memos < MEMO); i = memos++; memo[i].t = t; memo[i].id = id; memo[i].n = vp_existing (t, id); memo[i].existed = memo[i].n != 0; }
  return memo[i].n;
}
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k) { CHECK (t && k, "C11.node: looked up by path in a node's successors"); return vp_get (t, SID (k)); }
static void vp_put (GHashTable *t, gpointer k, struct _vomm_node_t *n)
{
  CHECK (t && k && n, "C11.node: a node is put under a path");
  CHECK (vp_get (t, SID (k)) == 0, "C11.node: a node is created only where none existed");
  memo[vp_find (t, SID (k))].n = n; inserts++;
}
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v) { vp_put (t, k, v); return 1; }
void g_hash_table_destroy (GHashTable *t) { CHECK (0, "C11.frame: nothing is freed by a launch"); }
static void vp_new_table (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd);
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{ vp_new_table (h, e, kd, vd); tables++; GHashTable *t = malloc (8); ASSUME (t != 0); return t; }
#include "algorithm/vomm.c"
static void vp_new_table (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{ CHECK (h == g_str_hash && e == g_str_equal && kd == g_free && vd == vomm_node_free, "C11.node: successors are kept by path and owned by their node"); }

static preload_exe_t *X[3];          /* the launched program, the one launched before, any other */
static vomm_node_t *R, *Wit; static int wit_count; static GHashTable *no_children;
static preload_exe_t *any_exe (void) { preload_exe_t *e = malloc (sizeof *e); ASSUME (e != 0); e->path = vp_str_new (nondet_u64 (), '/'); return e; }
static vomm_node_t *node (preload_exe_t *e, vomm_node_t *parent)
{ vomm_node_t *n = malloc (sizeof *n); ASSUME (n != 0); n->exe = e; n->parent = parent; n->children = malloc (8); ASSUME (n->children != 0); ASSUME (n->count >= 0 && n->count < 0x7ffffff0); return n; }
static vomm_node_t *owners[MEMO + 8]; static int nowners; static int counts0[MEMO];
static vomm_node_t *nodes0[MEMO]; static int n0;
static struct _vomm_node_t *vp_existing (GHashTable *t, uint64_t id)
{
  if (nondet_bool ()) return 0;
  vomm_node_t *n = node (id == SID (X[0]->path) ? X[0] : id == SID (X[1]->path) ? X[1] : X[2], 0);
  ASSUME (n0 < MEMO); nodes0[n0] = n; counts0[n0++] = n->count;
  return n;
}
static vomm_node_t *chain[6]; static int depth;
static preload_exe_t *h0[6]; static int hn;
void h_update (void)
{
  for (int i = 0; i < 3; i++) X[i] = any_exe ();
  ASSUME (SID (X[0]->path) != SID (X[1]->path) && SID (X[0]->path) != SID (X[2]->path) && SID (X[1]->path) != SID (X[2]->path));
  bool same = nondet_bool ();                       /* the program was also the one launched before */
  preload_exe_t *launched = X[0], *prev = same ? X[0] : X[1];
  R = node (0, 0);
  vomm_system.root = R; vomm_system.history = 0;
  HAVOC (depth); ASSUME (depth >= 0 && depth <= 5); /* invariant: the context is at most five levels deep */
  chain[0] = R;
  for (int i = 1; i <= 5; i++) {
    if (i > depth) break;
    int who = nondet_int (); ASSUME (who >= 0 && who <= 2);
    chain[i] = node (X[who], chain[i - 1]);
    memo[memos].t = chain[i - 1]->children; memo[memos].id = SID (X[who]->path); memo[memos].n = chain[i]; memo[memos].existed = 1; memos++;
    nodes0[n0] = chain[i]; counts0[n0++] = chain[i]->count;
  }
  bool lost = nondet_bool ();
  vomm_system.current_context = lost ? 0 : chain[depth];
  HAVOC (hn); ASSUME (hn >= 0 && hn <= 5);
  for (int i = 0; i < 5; i++) { if (i >= hn) break; h0[i] = i == hn - 1 ? prev : nondet_bool () ? X[0] : nondet_bool () ? X[1] : X[2]; vomm_system.history = g_list_append (vomm_system.history, h0[i]); }
  vomm_system.history_length = hn;                  /* invariant */
  vomm_node_t *ctx = lost || depth >= 5 ? R : chain[depth];
  int ctx_depth = lost || depth >= 5 ? 0 : depth;

  vomm_update (launched);

  /* the window */
  int skip = hn == 5 ? 1 : 0, n = 0; GList *l = vomm_system.history;
  for (int i = 0; i < 5; i++) { if (i >= hn - skip) break; CHECK (l && l->data == h0[i + skip], "C11.window: the latest launches are kept, in order"); ASSUME (l != 0); l = l->next; }
  CHECK (l && l->data == launched, "C11.window: the launch is appended"); ASSUME (l != 0);
  CHECK (l->next == 0 && (int) vomm_system.history_length == hn + 1 - skip && hn + 1 - skip <= 5, "C11.window: at most the five latest launches are kept");
  /* the counts */
  vomm_node_t *next = vp_get (ctx->children, SID (launched->path));
  CHECK (next != 0, "C11.count: the launched program has a node under the context");
  ASSUME (next != 0);
  vomm_node_t *pn = 0, *bi = 0;
  if (hn >= 1) { pn = vp_get (R->children, SID (prev->path)); CHECK (pn != 0, "C11.count: the launch before has a node at the top"); ASSUME (pn != 0);
                 bi = vp_get (pn->children, SID (launched->path)); CHECK (bi != 0, "C11.count: the launched program has a node as a successor of the launch before"); ASSUME (bi != 0); }
  int w = nondet_int (); ASSUME (w >= 0 && w < n0);          /* any node that existed */
  CHECK (nodes0[w]->count == counts0[w] + (nodes0[w] == next) + (bi && nodes0[w] == bi), "C11.count: one observation under the context, one as a successor of the launch before, no other count changes");
  int m = nondet_int (); ASSUME (m >= 0 && m < memos);       /* any node that is new */
  if (!memo[m].existed && memo[m].n) {
    vomm_node_t *q = memo[m].n;
    CHECK (q == next || q == pn || q == bi, "C11.node: only the nodes of the launch and of the launch before are created");
    CHECK (q->count == (q == next) + (bi && q == bi), "C11.count: a new node starts with its observations");
    CHECK (SID (q->exe->path) == memo[m].id && (memo[m].id != SID (launched->path) || q->exe == launched) && (memo[m].id != SID (prev->path) || q->exe == prev), "C11.node: a node is its program's");
    CHECK (q->parent && q->parent->children == memo[m].t && q->children && q->children != memo[m].t, "C11.node: a node is linked to its parent and has its own successors");
  }
  CHECK (inserts <= 3 && tables == inserts, "C11.node: no more nodes are created than are inserted");
  CHECK (vomm_system.root == R && R->parent == 0, "C11.frame: the root stays");
  /* the context */
  CHECK (vomm_system.current_context == next, "C11.context: the context moves to the launched program's node");
  CHECK (ctx_depth + 1 <= 5, "C11.depth: never deeper than five levels");
  COVER (hn == 5 && depth == 5 && inserts == 0, "full, nothing new"); COVER (inserts == 3, "three new nodes"); COVER (hn >= 1 && bi == next, "same node"); COVER (depth == 3 && !lost, "deep context"); COVER (lost, "lost");
}
void h_guards (void)
{
  for (int i = 0; i < 3; i++) X[i] = any_exe ();
  bool no_root = nondet_bool ();
  R = node (0, 0); vomm_system.root = no_root ? 0 : R; vomm_system.current_context = vomm_system.root; vomm_system.history = 0; vomm_system.history_length = 0;
  ASSUME (no_root || nondet_bool ());
  if (no_root) vomm_update (X[0]); else vomm_update (0);
  CHECK (vomm_system.history == 0 && vomm_system.history_length == 0 && inserts == 0, "C11.guard: nothing is learned before initialisation, or from no program");
  COVER (no_root, "no root"); COVER (!no_root, "no program");
}
