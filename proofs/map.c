/* C01: contracts of the functions of handling/map.c and of the link functions of handling/exe.c.
 *
 * Ghost state: gm is the region a function is called on, m_reg/m_arr how often it is in the registry and in the sortable
 * list, m_freed/p_freed how often it and its path were freed.  The environment contracts reject any registry, list or
 * free operation on anything else, so "no other region changes" is part of every proof (the frame). */
#include "common.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "state.h"
#include "vomm.h"
#include "spy.h"
#define VP_OWN_FREE
#include "../lib/glib_base.h"

preload_state_t state[1];
preload_map_t *gm;
char *gp;                               /* its path */
gpointer gl;                            /* the link being freed, if any */
int m_reg, m_arr, m_freed, p_freed, l_freed;

#define MINE(k)   CHECK ((k) == gm, "C01.frame: only the region the function was called on is touched")
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k)
{ CHECK (t == state->maps, "C01.table: the region registry is used"); MINE (k); return m_reg ? GINT_TO_POINTER (1) : NULL; }
gboolean g_hash_table_contains (GHashTable *t, gconstpointer k) { return g_hash_table_lookup (t, k) != NULL; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v)
{ CHECK (t == state->maps, "C01.table: the region registry is used"); MINE (k); CHECK (v != NULL, "C01.value: a registered region is found by lookup"); m_reg = 1; return TRUE; }
gboolean g_hash_table_add (GHashTable *t, gpointer k) { return g_hash_table_insert (t, k, k); }
gboolean g_hash_table_remove (GHashTable *t, gconstpointer k)
{ CHECK (t == state->maps, "C01.table: the region registry is used"); MINE (k);
  CHECK (m_freed == 0 && p_freed == 0, "C01.order: a region is unregistered before it is freed"); gboolean r = m_reg; m_reg = 0; return r; }
gboolean g_hash_table_steal (GHashTable *t, gconstpointer k) { return g_hash_table_remove (t, k); }
void g_ptr_array_add (GPtrArray *a, gpointer k) { CHECK (a == state->maps_arr, "C01.table: the sortable list is used"); MINE (k); m_arr++; }
gboolean g_ptr_array_remove (GPtrArray *a, gpointer k)
{ CHECK (a == state->maps_arr, "C01.table: the sortable list is used"); MINE (k); if (m_arr > 0) { m_arr--; return TRUE; } return FALSE; }
gboolean g_ptr_array_remove_fast (GPtrArray *a, gpointer k) { return g_ptr_array_remove (a, k); }
void g_free (gpointer p)
{
  if (!p) return;
  if (p == gm) m_freed++; else if (p == gp) p_freed++; else if (p == gl) l_freed++;
  else CHECK (0, "C01.frame: nothing else is freed");
}
void g_free_sized (gpointer p, gsize n) { g_free (p); }

#define FRESH(p) __CPROVER_is_fresh (p, sizeof *(p))
#define OK_COUNTS(m) ((m)->refcount >= 0 && (m)->refcount < 1000000000)
/* the invariant of C01 */
#define REGISTERED_ONCE  (m_reg == 1 && m_arr == 1 && m_freed == 0 && p_freed == 0)
#define NOT_REGISTERED   (m_reg == 0 && m_arr == 0)
#define INV(m)  ((m)->refcount > 0 ? REGISTERED_ONCE : (NOT_REGISTERED && m_freed == 0 && p_freed == 0))

preload_map_t *preload_map_new (const char *path, size_t offset, size_t length)
__CPROVER_requires (__CPROVER_is_fresh (path, sizeof (vp_str)))
__CPROVER_assigns ()
__CPROVER_ensures (FRESH (__CPROVER_return_value))
__CPROVER_ensures (__CPROVER_is_fresh (__CPROVER_return_value->path, sizeof (vp_str)))
__CPROVER_ensures (SID (__CPROVER_return_value->path) == SID (path))
__CPROVER_ensures (__CPROVER_return_value->offset == offset && __CPROVER_return_value->length == length)
__CPROVER_ensures (__CPROVER_return_value->refcount == 0 && __CPROVER_return_value->block == -1)
__CPROVER_ensures (__CPROVER_return_value->update_time == state->time);

#define SEQ_OK (state->map_seq >= 0 && state->map_seq < 4000000000000000000)
void preload_map_ref (preload_map_t *map)
__CPROVER_requires (FRESH (map) && OK_COUNTS (map) && gm == map && INV (map) && SEQ_OK)
__CPROVER_assigns (map->refcount, map->seq, state->map_seq, m_reg, m_arr)
__CPROVER_ensures (map->refcount == __CPROVER_old (map->refcount) + 1 && INV (map))
__CPROVER_ensures (__CPROVER_old (map->refcount) > 0
                   ? (state->map_seq == __CPROVER_old (state->map_seq) && map->seq == __CPROVER_old (map->seq))
                   : (map->seq > __CPROVER_old (state->map_seq) && map->seq <= state->map_seq));

void preload_map_unref (preload_map_t *map)
__CPROVER_requires (FRESH (map) && OK_COUNTS (map) && map->refcount > 0 && __CPROVER_is_fresh (map->path, sizeof (vp_str)))
__CPROVER_requires (gm == map && gp == map->path && INV (map))
__CPROVER_assigns (map->refcount, map->path, m_reg, m_arr, m_freed, p_freed)
__CPROVER_ensures (__CPROVER_old (map->refcount) > 1
                   ? (map->refcount == __CPROVER_old (map->refcount) - 1 && map->path == gp && REGISTERED_ONCE)
                   : (NOT_REGISTERED && m_freed == 1 && p_freed == 1));

void preload_map_free (preload_map_t *map)
__CPROVER_requires (FRESH (map) && map->refcount == 0 && __CPROVER_is_fresh (map->path, sizeof (vp_str)))
__CPROVER_requires (gm == map && gp == map->path && INV (map))
__CPROVER_assigns (map->path, m_freed, p_freed)
__CPROVER_ensures (m_freed == 1 && p_freed == 1);

size_t preload_map_get_size (preload_map_t *map)
__CPROVER_requires (FRESH (map))
__CPROVER_assigns ()
__CPROVER_ensures (__CPROVER_return_value == map->length);

preload_exemap_t *preload_exemap_new (preload_map_t *map)
__CPROVER_requires (FRESH (map) && OK_COUNTS (map) && gm == map && INV (map) && SEQ_OK)
__CPROVER_assigns (map->refcount, map->seq, state->map_seq, m_reg, m_arr)
__CPROVER_ensures (FRESH (__CPROVER_return_value))
__CPROVER_ensures (__CPROVER_return_value->map == map && __CPROVER_return_value->prob == 1.0)
__CPROVER_ensures (map->refcount == __CPROVER_old (map->refcount) + 1 && INV (map));

#define LINK ((preload_exemap_t *) data)
void preload_exemap_free (gpointer data, gpointer user_data)
__CPROVER_requires (__CPROVER_is_fresh (data, sizeof (preload_exemap_t)) && gl == data && l_freed == 0)
__CPROVER_requires (FRESH (LINK->map) && OK_COUNTS (LINK->map) && LINK->map->refcount > 0 && __CPROVER_is_fresh (LINK->map->path, sizeof (vp_str)))
__CPROVER_requires (gm == LINK->map && gp == LINK->map->path && INV (LINK->map))
__CPROVER_assigns (LINK->map->refcount, LINK->map->path, m_reg, m_arr, m_freed, p_freed, l_freed)
__CPROVER_ensures (l_freed == 1)
__CPROVER_ensures (__CPROVER_old (LINK->map->refcount) > 1
                   ? (gm->refcount == __CPROVER_old (LINK->map->refcount) - 1 && REGISTERED_ONCE)
                   : (NOT_REGISTERED && m_freed == 1 && p_freed == 1));

#include "handling/map.c"
#include "handling/exe.c"

void h_new (void)   { const char *p; size_t o, l; preload_map_new (p, o, l); COVER (1, "map_new returns"); }
void h_ref (void)   { preload_map_t *m; preload_map_ref (m); COVER (gm->refcount == 1, "first reference"); COVER (gm->refcount > 1, "further reference"); }
void h_ref_null (void)
{
  preload_state_t before = *state; int r = m_reg, a = m_arr;
  preload_map_ref (NULL);
  CHECK (m_reg == r && m_arr == a && state->map_seq == before.map_seq, "C01.ref_null: referencing nothing changes nothing");
  COVER (1, "ref NULL");
}
void h_free (void)  { preload_map_t *m; preload_map_free (m); COVER (1, "freed"); }
void h_unref (void) { preload_map_t *m; preload_map_unref (m); COVER (m_freed, "last reference"); COVER (!m_freed, "not the last one"); }
void h_size (void)  { preload_map_t *m; preload_map_get_size (m); COVER (1, "size"); }
void h_link (void)  { preload_map_t *m; preload_exemap_new (m); COVER (1, "link made"); }
void h_unlink (void) { gpointer l, u; preload_exemap_free (l, u); COVER (m_freed, "last link"); COVER (!m_freed, "further links"); }
