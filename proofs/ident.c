/* C02: identity of regions - contracts of preload_map_equal and preload_map_hash. */
#include "common.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "state.h"
#include "../lib/glib_base.h"

preload_state_t state[1];
/* registry operations are not part of identity: comparing and hashing must not call them */
gpointer g_hash_table_lookup (GHashTable *t, gconstpointer k) { CHECK (0, "C02.frame: comparing or hashing touches no registry"); return 0; }
gboolean g_hash_table_insert (GHashTable *t, gpointer k, gpointer v) { CHECK (0, "C02.frame: comparing or hashing touches no registry"); return 0; }
gboolean g_hash_table_remove (GHashTable *t, gconstpointer k) { CHECK (0, "C02.frame: comparing or hashing touches no registry"); return 0; }
void g_ptr_array_add (GPtrArray *a, gpointer k) { CHECK (0, "C02.frame: comparing or hashing touches no registry"); }
gboolean g_ptr_array_remove (GPtrArray *a, gpointer k) { CHECK (0, "C02.frame: comparing or hashing touches no registry"); return 0; }

guint    preload_map_hash (preload_map_t *map);
gboolean preload_map_equal (preload_map_t *a, preload_map_t *b);
#include "handling/map.c"

static preload_map_t *any_map (void)
{
  preload_map_t *m = malloc (sizeof *m); ASSUME (m != 0);
  m->path = vp_str_new (nondet_u64 (), '/');       /* every other field arbitrary */
  return m;
}
static bool same (preload_map_t *a, preload_map_t *b)
{ return SID (a->path) == SID (b->path) && a->offset == b->offset && a->length == b->length; }

void h_equal (void)
{
  preload_map_t *a = any_map (), *b = any_map ();
  if (nondet_bool ()) b->path = a->path;            /* same text because it is the same string */
  preload_map_t a0 = *a, b0 = *b; uint64_t ia = SID (a->path), ib = SID (b->path);
  gboolean r = preload_map_equal (a, b), q = preload_map_equal (b, a);
  CHECK ((r != 0) == same (a, b), "C02.equal: equal iff path text, offset and length agree");
  CHECK ((q != 0) == (r != 0), "C02.symmetric: equality does not depend on the order");
  CHECK (preload_map_equal (a, a), "C02.reflexive: a region equals itself");
  CHECK (!r || preload_map_hash (a) == preload_map_hash (b), "C02.hash: equal regions hash alike");
  CHECK (preload_map_hash (a) == preload_map_hash (a), "C02.stable: the hash of an unchanged region is stable");
  /* what is not part of the identity may change while the region is registered */
  guint h = preload_map_hash (a);
  a->refcount = nondet_int (); a->seq = nondet_long (); a->block = nondet_int (); a->lnprob = nondet_double (); a->update_time = nondet_int (); a->priv = nondet_int ();
  CHECK (preload_map_hash (a) == h, "C02.identity: the hash depends on path, offset and length only");
  CHECK ((preload_map_equal (a, b) != 0) == (r != 0), "C02.identity: equality depends on path, offset and length only");
  a->refcount = a0.refcount; a->seq = a0.seq;
  CHECK (a->path == a0.path && a->offset == a0.offset && a->length == a0.length && b->path == b0.path && b->offset == b0.offset && b->length == b0.length
         && b->refcount == b0.refcount && SID (a->path) == ia && SID (b->path) == ib, "C02.frame: comparing changes nothing");
  COVER (r && a->path != b->path, "equal with different strings"); COVER (!r, "different");
}
void h_null (void)
{
  preload_map_t *a = any_map ();
  CHECK (!preload_map_equal (a, NULL) && !preload_map_equal (NULL, a), "C02.null: an absent region equals no present one");
  CHECK (preload_map_equal (NULL, NULL), "C02.null: absent equals absent");
  COVER (1, "null");
}
