/* A canonical text of the whole model (independent of numbering and order), for comparing models. */
#include "world.h"
static GPtrArray *dl;
static void dline (const char *f, ...) { va_list a; va_start (a, f); g_ptr_array_add (dl, g_strdup_vprintf (f, a)); va_end (a); }
static char *esc (const char *s) { static char b[4][4096]; static int k; k = (k + 1) % 4; char *o = b[k]; for (; *s; s++) o += sprintf (o, "%02x", (unsigned char) *s); *o = 0; return b[k]; }
static void d_link (gpointer p, gpointer u) { preload_exemap_t *l = p; preload_exe_t *e = u; dline ("LINK %s %s+%zu:%zu %lg", esc (e->path), esc (l->map->path), l->map->offset, l->map->length, l->prob); }
static void d_exe (gpointer k, gpointer v, gpointer u)
{ preload_exe_t *e = v; EXPECT (!strcmp (k, e->path), "programs are registered under their path");
  dline ("EXE %s time=%ld update=%ld size=%zu links=%u pairs=%u", esc (e->path), (long) e->time, (long) e->update_time, e->size, e->exemaps->len, e->markovs->len);
  preload_exe_foreach_exemap (e, d_link, e); }
static void d_map (gpointer k, gpointer v, gpointer u)
{ preload_map_t *m = k; dline ("MAP %s+%zu:%zu update=%ld refs=%d", esc (m->path), m->offset, m->length, (long) m->update_time, m->refcount); }
static void d_chain (gpointer p, gpointer u)
{ preload_markov_t *m = p; int *w = &m->weight[0][0];
  dline ("PAIR %s %s time=%ld %lg %lg %lg %lg | %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d", esc (m->a->path), esc (m->b->path), (long) m->time, m->time_to_leave[0], m->time_to_leave[1], m->time_to_leave[2], m->time_to_leave[3],
    w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15]); }
static GHashTable *d_seq, *d_node;
static void d_seqs (gpointer k, gpointer v, gpointer u) { preload_exe_t *e = v; EXPECT (!g_hash_table_contains (d_seq, GSIZE_TO_POINTER (e->seq)), "programs have different numbers"); g_hash_table_insert (d_seq, GSIZE_TO_POINTER (e->seq), e); }
static void d_tree (gint64 id, gint64 seq, int count, gint64 parent, gpointer u)
{
  preload_exe_t *e = g_hash_table_lookup (d_seq, GSIZE_TO_POINTER (seq)); EXPECT (e != NULL, "tree nodes are known programs'");
  const char *p = parent ? g_hash_table_lookup (d_node, GSIZE_TO_POINTER (parent)) : ""; EXPECT (p != NULL, "parents come first");
  EXPECT (!g_hash_table_contains (d_node, GSIZE_TO_POINTER (id)), "tree nodes have different numbers");
  char *s = g_strdup_printf ("%s/%s", p, esc (e->path)); g_hash_table_insert (d_node, GSIZE_TO_POINTER (id), s); dline ("NODE %s count=%d", s, count);
}
static int d_cmp (gconstpointer a, gconstpointer b) { return strcmp (*(char **) a, *(char **) b); }
static GPtrArray *model_dump (void)
{
  dl = g_ptr_array_new_with_free_func (g_free);
  dline ("CLOCK %d %ld", state->time, (long) state->last_accounting_timestamp);
  g_hash_table_foreach (state->maps, d_map, NULL); g_hash_table_foreach (state->exes, d_exe, NULL); preload_markov_foreach (d_chain, NULL);
  d_seq = g_hash_table_new (NULL, NULL); d_node = g_hash_table_new_full (NULL, NULL, NULL, g_free);
  g_hash_table_foreach (state->exes, d_seqs, NULL); vomm_export_state (d_tree, NULL);
  g_hash_table_destroy (d_seq); g_hash_table_destroy (d_node);
  g_ptr_array_sort (dl, d_cmp);
  return dl;
}
static void model_equal (GPtrArray *a, GPtrArray *b, const char *what)
{
  for (guint i = 0; i < MAX (a->len, b->len); i++) {
    const char *x = i < a->len ? a->pdata[i] : "(none)", *y = i < b->len ? b->pdata[i] : "(none)";
    if (strcmp (x, y)) { note (" [%.600s]  <>  [%.600s]", x, y); vp_fail (what); }
    vp_checks++;
  }
}
/* the loaded model is consistent in itself */
static int d_refs; static preload_map_t *d_m;
static void c_link (gpointer p, gpointer u) { preload_exemap_t *l = p; gpointer k, v; EXPECT (g_hash_table_lookup_extended (state->maps, l->map, &k, &v) && k == l->map, "links go to registered regions"); if (l->map == d_m) d_refs++; }
static void c_chain (gpointer p, gpointer u)
{ preload_markov_t *m = p; int n = 0; EXPECT (m->a != m->b, "no pair of a program with itself");
  EXPECT (g_hash_table_lookup (state->exes, m->a->path) == m->a && g_hash_table_lookup (state->exes, m->b->path) == m->b, "pairs link registered programs");
  for (guint i = 0; i < m->a->markovs->len; i++) n += m->a->markovs->pdata[i] == m; for (guint i = 0; i < m->b->markovs->len; i++) n += m->b->markovs->pdata[i] == m;
  EXPECT (n == 2, "a pair is listed once with each of its programs"); }
static void c_links (gpointer k, gpointer v, gpointer u) { preload_exe_foreach_exemap (v, c_link, NULL); }
static void c_map (gpointer k, gpointer v, gpointer u)
{ d_m = k; d_refs = 0; g_hash_table_foreach (state->exes, c_links, NULL); EXPECT (d_refs == d_m->refcount && d_refs > 0, "a region has one reference per link and is used"); }
static void model_consistent (void)
{ g_hash_table_foreach (state->maps, c_map, NULL); d_m = NULL; g_hash_table_foreach (state->exes, c_links, NULL); preload_markov_foreach (c_chain, NULL);
  EXPECT (state->maps_arr->len == g_hash_table_size (state->maps), "the list of regions has every region once");
  GPtrArray *a = model_dump (); for (guint i = 0; i + 1 < a->len; i++) if (!strncmp (a->pdata[i], "NODE", 4)) { char *x = g_strdup (a->pdata[i]), *y = g_strdup (a->pdata[i + 1]); *strrchr (x, ' ') = 0; if (strrchr (y, ' ')) *strrchr (y, ' ') = 0; EXPECT (strcmp (x, y), "no tree node is defined twice"); g_free (x); g_free (y); }
  g_ptr_array_free (a, TRUE); }
/* paths of any bytes */
static void wild_path (char *buf, int kind, int i)
{
  int n = chance (5) ? 470 + rnd (30) : rnd (30); char *o = buf + sprintf (buf, kind ? "/l%d" : "/b%d", i);
  for (; n > 0; n--) { int c = chance (40) ? 1 + rnd (255) : chance (30) ? " \t%\n#/\\\"';?&:"[rnd (14)] : 'a' + rnd (26); *o++ = c ? c : 'x'; }
  if (chance (3)) { o = buf + sprintf (buf, kind ? "/l%d" : "/b%d", i); while (o < buf + 511) *o++ = chance (50) ? 128 + rnd (128) : ' '; }   /* the longest, every byte escaped */
  if (o[-1] == '/') o[-1] = 'z'; *o = 0;
}
static size_t wild_size (int w) { size_t s = chance (50) ? rnd (1000000) : chance (50) ? rnd64 () >> rnd (40) : (size_t) 1 << rnd (60); return s; }
static void wild_chain (gpointer p, gpointer u)
{ preload_markov_t *m = p; m->time = chance (30) ? (gint64) (rnd64 () >> 2) : rnd (1000); for (int i = 0; i < 4; i++) m->time_to_leave[i] = chance (30) ? rnd64 () / 3.7 : chance (20) ? 1e-7 * rnd (100) : any_mean (); if (chance (30)) m->weight[rnd (4)][rnd (4)] = 2147483647; }
static void wild_link (gpointer p, gpointer u) { preload_exemap_t *l = p; l->prob = chance (50) ? 1.0 : chance (50) ? rnd64 () / 1.9e19 : chance (50) ? 1e-300 : 123456.7; }
static void wild_exe (gpointer k, gpointer v, gpointer u) { preload_exe_t *e = v; if (chance (40)) e->time = rnd64 () >> 1; if (chance (40)) e->update_time = rnd64 () >> 1; preload_exe_foreach_exemap (e, wild_link, NULL); }
static void wild_map (gpointer k, gpointer v, gpointer u) { preload_map_t *m = k; m->update_time = chance (50) ? (long) (rnd64 () >> 1) : rnd (1000); }
static void wild_world (void)
{
  world_path = wild_path; world_size = wild_size; world_wild_off = 1;
  world_build (1);
  if (chance (30)) state->time = 2147483647 - rnd (3); state->last_accounting_timestamp = state->time;
  g_hash_table_foreach (state->exes, wild_exe, NULL); g_hash_table_foreach (state->maps, wild_map, NULL); preload_markov_foreach (wild_chain, NULL);
  for (int k = rnd (3); k > 0; k--) { char b[4096]; wild_path (b, 0, 1000 + k); g_hash_table_insert (state->bad_exes, g_strdup (b), GINT_TO_POINTER (1 + rnd (100000))); }
  if (wne && chance (30)) { int n = rnd (20); for (int k = 1; k <= n; k++) vomm_import_node (k, we[rnd (wne)], chance (50) ? 2147483647 - rnd (5) : rnd (100000), rnd (k)); vomm_import_done (); }
  else if (wne && chance (60)) { vomm_init (); for (int k = rnd (40); k > 0; k--) vomm_update (we[rnd (wne)]); }
}
