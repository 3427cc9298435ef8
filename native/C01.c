#include "vpn.h"
#include "common.h"
#include "state.h"
#include "conf.h"
#include "dump.h"
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
#define NM 6
typedef struct { preload_map_t *m; int refs; char path[32]; size_t off, len; gint64 seq; } shadow;
static shadow sh[NM];
static preload_exemap_t *links[64]; static int link_of[64], nlinks;
static void verify (void)
{
  unsigned reg = 0;
  for (int i = 0; i < NM; i++) if (sh[i].m) {
    int in_arr = 0;
    for (guint k = 0; k < state->maps_arr->len; k++) if (state->maps_arr->pdata[k] == sh[i].m) in_arr++;
    EXPECT (sh[i].m->refcount == sh[i].refs, "reference count equals the references held");
    EXPECT (in_arr == (sh[i].refs > 0), "listed once iff referenced");
    EXPECT ((g_hash_table_lookup (state->maps, sh[i].m) != NULL) == (sh[i].refs > 0), "registered iff referenced");
    EXPECT (!strcmp (sh[i].m->path, sh[i].path) && sh[i].m->offset == sh[i].off && sh[i].m->length == sh[i].len, "identity kept");
    if (sh[i].refs > 0) { reg++; EXPECT (sh[i].m->seq == sh[i].seq, "number kept while registered"); }
  }
  EXPECT (g_hash_table_size (state->maps) == reg && state->maps_arr->len == reg, "nothing else is registered");
}
/* whole programs that come and go, with shared and empty regions */
static size_t odd_size (int w) { return chance (30) ? 0 : rnd64 () >> rnd (60); }
static void program_case (void)
{
  world_size = odd_size; world_build (chance (50)); note ("%d programs %d regions:", wne, wnm);
  for (int step = 0; step < 12; step++) {
    g_hash_table_foreach (state->maps, c_map, NULL); d_m = NULL; g_hash_table_foreach (state->exes, c_links, NULL);
    EXPECT (state->maps_arr->len == g_hash_table_size (state->maps), "every region is listed once");
    int i = wne ? rnd (wne) : 0; if (!wne) break;
    if (we[i] && chance (60)) { note (" -%d", i); preload_state_unregister_exe (we[i]); state->running_exes = g_slist_remove (state->running_exes, we[i]); we[i] = NULL; }
    else if (we[i]) { GPtrArray *l = state->maps_arr; preload_map_t *m = l->len && chance (70) ? l->pdata[rnd (l->len)] : preload_map_new ("/lib/fresh", step + 1, odd_size (1)); note (" +link%d", i); size_t z = we[i]->size; preload_exemap_new_from_exe (we[i], m); EXPECT (we[i]->size == z + m->length, "a program's size is the sum of the lengths of its regions"); }
    else { GPtrArray *l = g_ptr_array_new (); for (int k = rnd (4); k > 0; k--) if (state->maps_arr->len && chance (60)) g_ptr_array_add (l, preload_exemap_new (state->maps_arr->pdata[rnd (state->maps_arr->len)])); else g_ptr_array_add (l, preload_exemap_new (preload_map_new ("/lib/mine", step * 100 + k, odd_size (1))));
      char b[32]; sprintf (b, "/bin/e%d", i); note (" +%d", i); we[i] = preload_exe_new (b, FALSE, l); preload_state_register_exe (we[i], chance (50)); }
  }
  for (int i = 0; i < wne; i++) if (we[i]) { preload_state_unregister_exe (we[i]); state->running_exes = g_slist_remove (state->running_exes, we[i]); }
  EXPECT (g_hash_table_size (state->maps) == 0 && state->maps_arr->len == 0, "without programs there are no regions");
  world_end ();
}
static void one_case (void)
{
  if (chance (30)) { program_case (); return; }
  memset (state, 0, sizeof *state); memset (sh, 0, sizeof sh); nlinks = 0;
  state->maps = g_hash_table_new ((GHashFunc) preload_map_hash, (GEqualFunc) preload_map_equal);
  state->maps_arr = g_ptr_array_new ();
  state->time = rnd (1000);
  if (chance (20)) state->map_seq = rnd64 () >> (2 + rnd (40));
  gint64 maxseq = state->map_seq;
  for (int step = 0; step < 40; step++) {
    int i = rnd (NM); shadow *s = &sh[i];
    if (!s->m) {
      snprintf (s->path, sizeof s->path, "/p%d", (int) rnd (3)); s->off = i; s->len = rnd64 () >> rnd (60); s->refs = 0;
      note ("new%d ", i);
      s->m = preload_map_new (s->path, s->off, s->len);
      EXPECT (s->m->path != s->path && s->m->refcount == 0 && s->m->update_time == state->time, "new region");
    } else switch (rnd (5)) {
      case 0: case 1:
        note ("ref%d ", i); preload_map_ref (s->m);
        if (++s->refs == 1) { s->seq = s->m->seq; EXPECT (s->seq > maxseq, "number never used before"); maxseq = s->seq; }
        break;
      case 2: case 3:
        if (!s->refs) break;
        { int held = 0; for (int k = 0; k < nlinks; k++) held += link_of[k] == i; if (s->refs <= held) {
          int k; for (k = 0; link_of[k] != i; k++) ; note ("unlink%d ", i);
          preload_exemap_free (links[k], NULL); links[k] = links[--nlinks]; link_of[k] = link_of[nlinks]; }
          else { note ("unref%d ", i); preload_map_unref (s->m); } }
        if (--s->refs == 0) s->m = NULL;
        break;
      default:
        if (nlinks == 60) break;
        note ("link%d ", i); links[nlinks] = preload_exemap_new (s->m); link_of[nlinks] = i;
        EXPECT (links[nlinks]->map == s->m && links[nlinks]->prob == 1.0, "link"); nlinks++;
        if (++s->refs == 1) { s->seq = s->m->seq; EXPECT (s->seq > maxseq, "number never used before"); maxseq = s->seq; }
        EXPECT (preload_map_get_size (s->m) == s->len, "size of a region is its length");
    }
    verify ();
  }
  preload_map_ref (NULL);
  while (nlinks) { nlinks--; preload_exemap_free (links[nlinks], NULL); if (--sh[link_of[nlinks]].refs == 0) sh[link_of[nlinks]].m = NULL; verify (); }
  for (int i = 0; i < NM; i++) if (sh[i].m) { if (!sh[i].refs) preload_map_free (sh[i].m); else while (sh[i].refs--) preload_map_unref (sh[i].m); sh[i].m = NULL; }
  verify ();
  g_hash_table_destroy (state->maps); g_ptr_array_free (state->maps_arr, TRUE);
}
