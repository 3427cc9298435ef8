/* C17, C18 (nodes of the sequence tree written and read), C03, C19 (a removed program is forgotten by it): vomm.c.
 * Recursive calls go to the function's contract, loops are under invariants (both inserted mechanically). */
#include "common.h"
#include "vomm.h"
#include "log.h"
#include "conf.h"
#include "prophet.h"
#include "state.h"
#include "exe.h"
#include <math.h>
#define VP_OWN_FREE
#define VP_NO_LOG
#include "../lib/glib_base.h"
preload_state_t state[1]; preload_conf_t conf[1]; int preload_log_level;
static void vp_cut_vomm_node_export_recursive (struct _vomm_node_t *, gint64, VommNodeWriter, gpointer);
static void vp_cut_vomm_node_forget (struct _vomm_node_t *, preload_exe_t *);
static struct _vomm_node_t *N, *vp_child;                       /* the node looked at */
#ifdef VP_EXPORT
static struct { gint64 c0, id; int written; _Bool going, handed, done; struct _vomm_node_t *child; } G;
#else
static struct { _Bool going, handed, done; struct _vomm_node_t *child; } G;
#endif
#include "algorithm/vomm.c"
static preload_exe_t *X, *vp_other;
static preload_exe_t *any_exe (void) { preload_exe_t *e = malloc (sizeof *e); ASSUME (e != 0); e->path = vp_str_new (nondet_u64 (), '/'); return e; }
static vomm_node_t *node (preload_exe_t *e, vomm_node_t *parent) { vomm_node_t *n = malloc (sizeof *n); ASSUME (n != 0); n->exe = e; n->parent = parent; n->children = malloc (8); ASSUME (n->children != 0); return n; }
gboolean exe_is_running (preload_exe_t *e) { return nondet_bool (); }

#ifdef VP_EXPORT
static char vp_user[4];
static void vp_writer (gint64 id, gint64 seq, int count, gint64 parent, gpointer d)
{
  CHECK (N != vomm_system.root, "C17.tree: the root is not written"); CHECK (!G.written && !G.going, "C17.tree: a node is written once, before what follows it"); CHECK (d == vp_user, "C17.tree: for the writer given");
  CHECK (id > G.c0 && id <= export_node_id_counter && id != 0, "C17.tree: under a number never used before"); CHECK (seq == N->exe->seq && count == N->count, "C17.tree: with its program's number and its count"); CHECK (parent == 77, "C17.tree: and the number of what it follows");
  G.written = 1; G.id = id;
}
void g_hash_table_iter_init (GHashTableIter *i, GHashTable *t) { CHECK (t == N->children, "C17.tree: what follows the node is written"); G.going = 1; G.handed = 0; G.done = 1; }
gboolean g_hash_table_iter_next (GHashTableIter *i, gpointer *k, gpointer *v)
{
  CHECK (G.going && G.done, "C17.tree: each follower is written");
  if (nondet_bool ()) { G.going = 0; return FALSE; }
  G.handed = 1; G.done = 0; G.child = vp_child; if (k) *k = X->path; if (v) *v = G.child; return TRUE;
}
static void vp_cut_vomm_node_export_recursive (vomm_node_t *c, gint64 parent, VommNodeWriter w, gpointer d)
{
  CHECK (G.handed && !G.done && c == G.child, "C17.tree: each follower is written, once"); CHECK (w == vp_writer && d == vp_user, "C17.tree: for the writer given");
  CHECK (N == vomm_system.root ? parent == 0 : G.written && parent == G.id, "C17.tree: followers name the node they follow"); CHECK (export_node_id_counter >= G.id, "C17.tree: under a number never used before");
  G.done = 1; gint64 n; ASSUME (n > export_node_id_counter && n < (1l << 31)); export_node_id_counter = n;
}
void h_export (void)
{
  HAVOC (G); X = any_exe (); vp_other = any_exe (); vp_child = node (X, 0); N = node (X, 0); _Bool root = nondet_bool (); vomm_system.root = root ? N : node (0, 0); if (root) N->exe = 0;
  HAVOC (export_node_id_counter); ASSUME (export_node_id_counter >= 0 && export_node_id_counter < (1l << 30)); G.c0 = export_node_id_counter; G.id = 0; G.written = 0; G.going = 0; G.done = 1; G.handed = 0;
  vomm_node_export_recursive (N, 77, vp_writer, vp_user);
  CHECK (G.written == !root, "C17.tree: every node but the root is written"); CHECK (!G.going && G.done, "C17.tree: and all its followers"); CHECK (export_node_id_counter >= G.id, "C17.tree: under a number never used before");
  COVER (!root && G.handed, "a node with followers"); COVER (root, "the root");
}
void h_export_all (void)
{
  HAVOC (G); X = any_exe (); vp_other = any_exe (); vp_child = node (X, 0); N = node (0, 0); vomm_system.root = N; if (nondet_bool ()) vomm_system.root = 0; HAVOC (export_node_id_counter);
  G.c0 = 0; G.id = 0; G.written = 0; G.going = 0; G.done = 1; G.handed = 0;
  vomm_export_state (vp_writer, vp_user);
  CHECK (!G.written && !G.going && G.done, "C17.tree: the whole tree is written"); CHECK (vomm_system.root == 0 || vomm_system.root == N, "C17.tree: and left as it was");
  COVER (G.handed, "followers"); COVER (vomm_system.root == 0, "no tree");
}
#endif

#ifdef VP_FORGET
static _Bool top; static int forgot, lists;
void g_hash_table_iter_init (GHashTableIter *i, GHashTable *t) { CHECK (t == N->children, "C03.tree: the node's followers are looked at"); G.going = 1; G.handed = 0; G.done = 1; }
gboolean g_hash_table_iter_next (GHashTableIter *i, gpointer *k, gpointer *v)
{
  CHECK (G.going && G.done, "C03.tree: every follower is dealt with");
  if (nondet_bool ()) { G.going = 0; return FALSE; }
  preload_exe_t *e = X; if (nondet_bool ()) e = vp_other; vp_child->exe = e;
  G.handed = 1; G.done = 0; G.child = vp_child; if (k) *k = e->path; if (v) *v = G.child; return TRUE;
}
void g_hash_table_iter_remove (GHashTableIter *i)
{ CHECK (G.handed && !G.done, "C03.tree: a follower is removed once"); CHECK (G.child->exe == X, "C03.tree: only the removed program's nodes go"); G.done = 1; }
static void vp_cut_vomm_node_forget (vomm_node_t *c, preload_exe_t *e)
{ CHECK (G.handed && !G.done && c == G.child && e == X, "C03.tree: what follows the others is searched"); CHECK (c->exe != X, "C03.tree: the removed program's nodes go"); G.done = 1; }
/* lists */
GList *g_list_remove_all (GList *l, gconstpointer x)
{ GList *r = 0, **t = &r; for (int i = 0; i < 6 && l; i++) { GList *n = l->next; if (l->data != x) { *t = l; t = &l->next; } l = n; } *t = 0; return r; }
GList *g_list_remove (GList *l, gconstpointer x) { GList **t = &l; for (int i = 0; i < 6 && *t; i++) { if ((*t)->data == x) { *t = (*t)->next; break; } t = &(*t)->next; } return l; }
GList *g_list_delete_link (GList *l, GList *k) { GList **t = &l; for (int i = 0; i < 6 && *t; i++) { if (*t == k) { *t = k->next; break; } t = &(*t)->next; } return l; }
GList *g_list_find (GList *l, gconstpointer x) { for (int i = 0; i < 6 && l; i++) { if (l->data == x) return l; l = l->next; } return 0; }
guint g_list_length (GList *l) { guint n = 0; for (int i = 0; i < 7 && l; i++) { n++; l = l->next; } return n; }
void h_forget_node (void)
{
  HAVOC (G); X = any_exe (); vp_other = any_exe (); vp_child = node (X, 0); N = node (any_exe (), 0); vomm_system.root = node (0, 0); G.going = G.handed = 0; G.done = 1;
  vomm_node_forget (N, X);
  CHECK (G.handed == 0 || G.done, "C03.tree: every follower is dealt with"); CHECK (!G.going, "C03.tree: to the last one"); COVER (G.handed, "followers");
}
static vomm_node_t *chain[7]; static preload_exe_t *hx[6];
void h_forget (void)
{
  HAVOC (G); X = any_exe (); vp_other = any_exe (); vp_child = node (X, 0); preload_exe_t *Y = any_exe (); N = node (0, 0); G.going = G.handed = 0; G.done = 1; vomm_system.root = N; chain[0] = N; int depth = nondet_int (), hn = nondet_int (); ASSUME (depth >= 0 && depth <= 5 && hn >= 0 && hn <= 5);
  _Bool on_path = 0; vomm_system.history = 0; vomm_system.current_context = N; GList *last = 0; int keep = 0;
  for (int i = 1; i <= 5; i++) if (i <= depth) { preload_exe_t *e = Y; if (nondet_bool ()) e = X; on_path |= e == X; chain[i] = node (e, chain[i - 1]); vomm_system.current_context = chain[i]; }
  for (int i = 0; i < 5; i++) if (i < hn) { GList *g = malloc (sizeof *g); ASSUME (g != 0); g->data = Y; if (nondet_bool ()) g->data = X; if (g->data != X) keep++; g->next = 0; g->prev = last; if (last) last->next = g; else vomm_system.history = g; last = g; }
  if (nondet_bool ()) { vomm_system.current_context = 0; on_path = 0; depth = 0; } vomm_node_t *ctx = vomm_system.current_context; vomm_system.history_length = hn;
  vomm_forget (X);
  CHECK (!G.going && (!G.handed || G.done), "C03.tree: the whole tree is searched"); CHECK (vomm_system.root == N, "C03.tree: the root stays");
  CHECK (on_path ? vomm_system.current_context == N : vomm_system.current_context == ctx, "C03.context: the context is kept unless it goes away with the program");
  int n = 0; GList *l = vomm_system.history; for (int i = 0; i < 6; i++) { if (!l) break; CHECK (l->data != X, "C03.history: the program leaves the history"); n++; l = l->next; }
  CHECK (n == keep && vomm_system.history_length == (guint) keep, "C03.history: and no other does");
  COVER (on_path && depth > 2, "the context goes"); COVER (keep == 2 && hn == 5, "some of the history"); COVER (!on_path && depth == 4, "the context stays");
}
#endif

#ifdef VP_IMPORT
/* the map of numbers I, and the followers of the parent P; every other node is left alone */
static GHashTable *I; static char t_old[4], t_new[4]; static vomm_node_t *P, *made, *dup_node; static gint64 v_id, v_parent; static int v_count; static preload_exe_t *E;
static _Bool i_new, has_parent, has_id, has_child; static int i_made, put_child, put_id, put_root, tabs, roots; static char kids_[4][4]; static vomm_node_t *root_made;
void g_free (gpointer p) { free (p); }
GHashTable *g_hash_table_new (GHashFunc h, GEqualFunc e) { CHECK ((h == g_direct_hash || h == 0) && !i_made++, "C17.tree: one index of numbers"); return (GHashTable *) t_new; }
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{ CHECK (h == g_str_hash && e == g_str_equal && kd == g_free && vd == vomm_node_free, "C17.tree: followers are kept by path and owned by their node"); CHECK (tabs < 4, "few nodes"); return (GHashTable *) kids_[tabs++]; }
#define PAR (v_parent == 0 ? vomm_system.root : P)
static vomm_node_t *numbered (gint64 k)
{ if (k == 0) return vomm_system.root; if (k == v_parent && has_parent) return P; if (k == v_id && has_id) return dup_node; return 0; }
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{
  if (t == (GHashTable *) t_old || t == (GHashTable *) t_new) {
    gint64 n = (gint64) (gssize) k; CHECK (n == v_id || n == v_parent, "C17.tree: looked up by number"); if (t == (GHashTable *) t_new) { CHECK (i_made, "it exists"); return n == 0 && put_root ? vomm_system.root : 0; } return numbered (n); }
  CHECK (PAR && t == PAR->children && k && SID (k) == SID (E->path), "C17.tree: the parent's follower of that path is looked up"); return has_child ? dup_node : 0;
}
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{
  if (t == (GHashTable *) t_old || t == (GHashTable *) t_new) {
    if (v == vomm_system.root) { CHECK (k == 0 && t == (GHashTable *) t_new && !put_root, "C17.tree: the root has the number zero"); put_root = 1; return 1; }
    CHECK ((gint64) (gssize) k == v_id && !put_id, "C17.tree: the node is found under its number, by those that follow it"); put_id = 1; CHECK (!made || made == v, "C17.tree: one node"); made = v; return 1; }
  CHECK (PAR && t == PAR->children && !put_child, "C17.tree: the node follows its parent"); CHECK (k && k != E->path && SID (k) == SID (E->path), "C17.tree: under its own copy of its program's path"); CHECK (!has_child, "C18.tree: no node is defined twice"); put_child = 1; CHECK (!made || made == v, "C17.tree: one node"); made = v; return 1;
}
void g_hash_table_destroy (GHashTable *t) { CHECK (0, "C18.tree: nothing is given up"); }
void h_import (void)
{
  E = any_exe (); HAVOC (v_id); HAVOC (v_parent); HAVOC (v_count); ASSUME (v_id >= 0 && v_id < (1l << 31) && v_parent >= 0 && v_parent < (1l << 31)); i_new = nondet_bool (); has_parent = nondet_bool (); has_id = nondet_bool (); has_child = nondet_bool (); i_made = put_child = put_id = put_root = tabs = 0; made = 0;
  _Bool no_root = nondet_bool (); vomm_node_t *R = 0; if (!no_root) R = node (0, 0); vomm_system.root = R; import_node_map = 0; if (!i_new) { import_node_map = (GHashTable *) t_old; ASSUME (!no_root); }
  if (no_root) ASSUME (v_parent != 0 || !has_child);
  dup_node = node (any_exe (), 0); P = 0; if (!i_new && has_parent && v_parent) P = node (any_exe (), 0); else if (v_parent) has_parent = 0;
  if (v_id == v_parent && v_id) { has_id = has_parent; if (P) dup_node = P; } if (i_new) has_id = 0;
  _Bool dup_id = v_id == 0 || has_id, parent = v_parent == 0 || has_parent, ok = parent && !dup_id && !has_child;
  vomm_import_node (v_id, E, v_count, v_parent);
  if (no_root) { R = vomm_system.root; CHECK (R && !R->exe && !R->parent && R->count == 0 && vomm_system.current_context == R && !vomm_system.history, "C17.tree: an empty tree to begin with"); }
  CHECK (vomm_system.root == R, "C17.tree: the root stays"); CHECK (import_node_map == (GHashTable *) (i_new ? t_new : t_old) && i_made == i_new && put_root == i_new, "C17.tree: one index of numbers, with the root in it");
  CHECK (put_child == ok && put_id == ok, "C17.tree: a node whose parent is known, and that is not defined yet, is defined; no other is");
  if (ok) CHECK (made && made->exe == E && made->count == v_count && made->parent == PAR && made->children && made->children != R->children, "C17.tree: as it was written"); CHECK (tabs == ok + no_root, "C18.tree: nothing else is made");
  COVER (ok && v_parent != 0, "defined"); COVER (ok && i_new, "the first one"); COVER (!ok && parent && has_child, "twice"); COVER (!parent, "orphan"); COVER (no_root, "no tree");
}
#endif
#ifdef VP_TREE
static int destroyed, lists, freed_root, kids_gone; static char t_map[4]; static GList h_; static _Bool had; static gpointer gone[3]; static int ngone;
void g_hash_table_destroy (GHashTable *t) { if (N && t == N->children) { CHECK (!kids_gone++, "C26.free: the tree is released once"); return; } CHECK (t == (GHashTable *) t_map && !destroyed++, "C18.tree: the index of numbers is released once"); }
void g_hash_table_unref (GHashTable *t) { g_hash_table_destroy (t); }
void g_list_free (GList *l) { CHECK (l == (had ? &h_ : 0) && !lists++, "C26.free: the history is released once"); }
void g_free (gpointer p) { if (!p) return; CHECK (N && p == N && kids_gone && !freed_root++, "C26.free: the tree is released once"); }
GHashTable *g_hash_table_new_full (GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{ CHECK (h == g_str_hash && e == g_str_equal && kd == g_free && vd == vomm_node_free, "C17.tree: followers are kept by path and owned by their node"); GHashTable *t = malloc (8); ASSUME (t != 0); return t; }
void h_done (void)
{ import_node_map = 0; if (nondet_bool ()) import_node_map = (GHashTable *) t_map; _Bool was = import_node_map != 0; vomm_import_done (); CHECK (import_node_map == 0 && destroyed == was, "C18.tree: the index of numbers is released"); COVER (was, "one was there"); }
void h_cleanup (void)
{
  had = nondet_bool (); vomm_system.history = 0; if (had) vomm_system.history = &h_; N = 0; if (nondet_bool ()) N = node (0, 0); vomm_system.root = N; vomm_system.current_context = N; HAVOC (vomm_system.history_length);
  vomm_node_t *was = N; vomm_cleanup ();
  CHECK (!had || lists == 1, "C26.free: the history is released"); CHECK (!was || (freed_root == 1 && kids_gone == 1), "C26.free: the tree is released"); CHECK (!vomm_system.root && !vomm_system.current_context && !vomm_system.history && !vomm_system.history_length, "C26.free: nothing refers to it");
  N = 0; CHECK (vomm_init (), "set up"); vomm_node_t *r = vomm_system.root; CHECK (r && !r->exe && !r->parent && r->count == 0 && vomm_system.current_context == r && !vomm_system.history && vomm_system.history_length == 0, "C17.tree: it can be set up again, empty"); CHECK (vomm_init () && vomm_system.root == r, "C17.tree: a tree that is there stays");
  COVER (was && had, "all there");
}
#endif
