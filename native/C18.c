#include "dump.h"
#include "state_io.h"
void __wrap_proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }
void __wrap_proc_foreach (GHFunc f, gpointer d) { }
static int sloppy;                                  /* how many odd lines: none, few, many */
static int odd (int p) { return sloppy == 2 ? chance (p) : sloppy == 1 ? chance (p) && chance (15) : 0; }
static GString *txt; static int ln, bad, nomore;     /* line being written; first offending line */
static GString *want;                                /* the model that has to come out */
/* what is defined so far */
static struct { long id; char path[64]; long off, len, upd; } dm[64]; static struct { long id; char path[64]; long t, u; } de[64]; static int ndm, nde;
static struct { int e, parent, count; long id; } dn[128]; static int ndn;
static int links[64][64];
static void put (int ok, const char *f, ...)
{ va_list a; va_start (a, f); g_string_append_vprintf (txt, f, a); va_end (a); g_string_append_c (txt, '\n'); ln++; if (!ok && !bad) bad = ln; }
static int same_map (int i, const char *p, long o, long l) { return !strcmp (dm[i].path, p) && dm[i].off == o && dm[i].len == l; }
static void gen_map (void)
{
  if (ndm > 50) return;
  long id = !odd (15) ? 1000 + ndm : (long) rnd (3) + 999; char p[64]; snprintf (p, 64, "/m%d", (int) rnd (8)); long o = chance (95) ? 4096 * rnd (3) : 1l << (20 + rnd (42)), l = chance (70) ? 1 + rnd (3) : chance (60) ? 0 : 1l << rnd (62), u = chance (95) ? rnd (99) : 0x7fffffff;
  int k = odd (30) ? (int) rnd (3) : 9, ok = 1;
  for (int i = 0; i < ndm; i++) { if (dm[i].id == id) ok = 0; if (same_map (i, p, o, l)) { int reg = 0; for (int e = 0; e < nde; e++) reg |= links[e][i]; ok = 0; (void) reg; } }
  if (!ok && !sloppy) return;
  if (k == 0) { put (0, "MAP\t%ld\t%ld\t%ld", id, u, o); return; }
  if (k == 1) { put (0, "MAP\t%ld\t%ld\t%ld\t%ld\t-1\t%s", id, u, o, l, "notauri"); return; }
  if (k == 2) { put (0, "MAP\t%ld\tx\t%ld\t%ld\t-1\tfile://%s", id, o, l, p); return; }
  put (ok, "MAP\t%ld\t%ld\t%ld\t%ld\t-1\tfile://%s", id, u, o, l, p);
  if (ok && !bad) { dm[ndm].id = id; strcpy (dm[ndm].path, p); dm[ndm].off = o; dm[ndm].len = l; dm[ndm++].upd = u; }
}
static void gen_exe (void)
{
  if (nde > 20) return;
  long id = !odd (15) ? 2000 + nde : (long) rnd (3) + 1999; char p[64]; snprintf (p, 64, "/e%d", !odd (20) ? nde : (int) rnd (6)); long t = rnd (99), u = rnd (99); int ok = 1, k = odd (20) ? (int) rnd (2) : 9;
  for (int i = 0; i < nde; i++) if (de[i].id == id || !strcmp (de[i].path, p)) ok = 0;
  if (!ok && !sloppy) return;
  if (k == 0) { put (0, "EXE\t%ld\t%ld", id, u); return; }
  if (k == 1) { put (0, "EXE\t%ld\t%ld\t%ld\t-1\thttp://host%s", id, u, t, p); return; }
  put (ok, "EXE\t%ld\t%ld\t%ld\t-1\tfile://%s", id, u, t, p);
  if (ok && !bad) { de[nde].id = id; strcpy (de[nde].path, p); de[nde].t = t; de[nde++].u = u; }
}
static long some_e (int *i) { *i = -1; if (nde && !odd (8)) { *i = rnd (nde); return de[*i].id; } return 777 + rnd (3); }
static void gen_link (void)
{
  int i, j = -1; long a = some_e (&i), b; if (!sloppy && (!nde || !ndm)) return; if (ndm && !odd (8)) { j = rnd (ndm); b = dm[j].id; } else b = 5 + rnd (5);
  if (odd (5)) { put (0, "EXEMAP\t%ld\t%ld", a, b); return; }
  put (i >= 0 && j >= 0, "EXEMAP\t%ld\t%ld\t%g", a, b, rnd (100) / 100.0);
  if (i >= 0 && j >= 0 && !bad) links[i][j]++;
}
static int paired[64][64];
static void gen_pair (void)
{
  int i, j; long a = some_e (&i), b = some_e (&j); int ok = i >= 0 && j >= 0 && i != j;
  if (ok && (paired[i][j] || paired[j][i])) return;      /* repeated pair records: outside the property */
  if (ok) paired[i][j] = 1;
  if (!ok && !sloppy) return;
  int n = odd (8) ? (int) rnd (20) : 20; if (n < 20) ok = 0;
  GString *s = g_string_new (NULL); g_string_printf (s, "MARKOV\t%ld\t%ld\t%d", a, b, (int) rnd (50));
  for (int k = 0; k < n; k++) g_string_append_printf (s, "\t%d", k < 4 ? (int) rnd (9) : (int) rnd (1));
  put (ok, "%s", s->str); g_string_free (s, TRUE);
}
static void gen_node (void)
{
  int i; long a = some_e (&i); int p = ndn && chance (60) ? (int) rnd (ndn) : -1; long pid = p >= 0 ? dn[p].id : chance (90) ? 0 : 4242, id = chance (88) ? 100 + ndn : (long) rnd (120);
  int c = rnd (50);
  if (odd (4)) { put (0, "VOMMNODE\t%ld\t%ld", id, a); return; }
  put (1, "VOMMNODE\t%ld\t%ld\t%d\t%ld", id, a, c, pid);
  if (i < 0 || pid == 4242 || id == 0 || ndn > 100) return;
  for (int k = 0; k < ndn; k++) if (dn[k].id == id || (dn[k].parent == p && dn[k].e == i)) return;      /* skipped: defined already */
  if (!bad) { dn[ndn].e = i; dn[ndn].parent = p; dn[ndn].count = c; dn[ndn++].id = id; }
}
static void save (void) { FILE *f = fopen ("state", "w"); fwrite (txt->str, 1, txt->len, f); fclose (f); }
static void expect_model (void)
{
  EXPECT ((int) g_hash_table_size (state->exes) == nde, "exactly the programs of the file are known");
  int used = 0;
  for (int j = 0; j < ndm; j++) {
    int n = 0; for (int i = 0; i < nde; i++) n += links[i][j];
    preload_map_t key = { .path = dm[j].path, .offset = dm[j].off, .length = dm[j].len }; gpointer k, v; gboolean f = g_hash_table_lookup_extended (state->maps, &key, &k, &v);
    EXPECT ((f != 0) == (n > 0), "exactly the regions that are linked are kept");
    if (f) { used++; EXPECT (((preload_map_t *) k)->refcount == n && ((preload_map_t *) k)->update_time == dm[j].upd, "a region has one reference per link"); }
  }
  EXPECT ((int) g_hash_table_size (state->maps) == used, "no other region");
  for (int i = 0; i < nde; i++) {
    preload_exe_t *e = g_hash_table_lookup (state->exes, de[i].path); EXPECT (e && e->time == de[i].t && e->update_time == de[i].u, "programs as in the file");
    int n = 0, pn = 0; for (int j = 0; j < ndm; j++) n += links[i][j]; for (int j = 0; j < nde; j++) pn += paired[i][j] + paired[j][i];
    EXPECT ((int) e->exemaps->len == n && (int) e->markovs->len == pn, "links and pairs as in the file");
  }
  GPtrArray *d = model_dump (); int nodes = 0; for (guint i = 0; i < d->len; i++) nodes += !strncmp (d->pdata[i], "NODE", 4);
  EXPECT (nodes == ndn, "exactly the tree nodes of the file"); g_ptr_array_free (d, TRUE);
}
static void one_case (void)
{
  memset (conf, 0, sizeof *conf); conf->system.prediction_algorithm = "Markov";
  txt = g_string_new (NULL); ln = bad = 0; ndm = nde = ndn = 0; memset (links, 0, sizeof links); memset (paired, 0, sizeof paired);
  sloppy = rnd (3); int ignored = 0, wild = chance (35), h = rnd (14);
  if (h == 0) { put (1, "NOTPRELOAD\t0.6\t5"); ignored = 1; }
  else if (h == 1) { put (1, "PRELOAD\t%d.1\t5", 1 + (int) rnd (9)); ignored = 1; }
  else if (h == 2) { put (1, "MAP\t1\t1\t0\t5\t-1\tfile:///x"); ignored = 1; }
  else if (h == 3) put (0, "PRELOAD\tx");
  else if (h == 4) ;
  else put (1, "PRELOAD\t" VERSION "\t%d", (int) rnd (1000));
  if (h != 4 || chance (0)) for (int n = rnd (chance (50) ? 12 : 60); n > 0; n--) switch (rnd (odd (15) ? 16 : 12)) {
    case 0: case 1: case 2: gen_map (); break;
    case 3: case 4: gen_exe (); break;
    case 5: case 6: case 7: gen_link (); break;
    case 8: gen_pair (); break;
    case 9: case 10: gen_node (); break;
    case 11: put (1, "#comment"); break;
    case 12: put (0, "JUNK\t1"); break;
    case 13: put (0, "%s", ""); break;
    case 14: put (0, "PRELOAD\t" VERSION "\t9"); break;
    case 15: put (1, "BADEXE\t1\t-1\tfile:///q"); break;
  }
  if (h == 4) nomore = 1;
  if (wild) {                                     /* any bytes: only consistency is judged */
    for (int k = 1 + rnd (6); k > 0 && txt->len; k--) switch (rnd (5)) {
      case 0: txt->str[rnd (txt->len)] = (char) rnd (256); break;
      case 1: g_string_truncate (txt, rnd (txt->len)); break;
      case 2: { gsize a = rnd (txt->len), b = a + rnd (40); if (b > txt->len) b = txt->len; char *s = g_strndup (txt->str + a, b - a); g_string_insert (txt, rnd (txt->len), s); g_free (s); break; }
      case 3: { gsize a = rnd (txt->len); g_string_erase (txt, a, MIN (5, txt->len - a)); } break;
      case 4: { char s[6000]; memset (s, 'A' + rnd (26), sizeof s); s[rnd (sizeof s)] = 0; s[sizeof s - 1] = 0; g_string_insert (txt, rnd (txt->len + 1), s); break; }
    }
  }
  char *p = g_strescape (txt->str, ""); note ("%.8000s", p); g_free (p);
  save ();
  preload_state_load (NULL); state->time = 4711;
  char *e = preload_state_read_file ("state");
  if (e) note (" => %s", e);
  if (wild) { if (e) EXPECT (strstr (e, "line ") != NULL, "an error names the offending line"); else model_consistent (); }
  else if (ignored || h == 4) { EXPECT (e == NULL, "a file without the proper header or of another version is ignored"); EXPECT (!g_hash_table_size (state->exes) && !g_hash_table_size (state->maps) && !state->maps_arr->len && state->time == 4711, "and leaves the model empty"); }
  else if (bad) { char t[32]; snprintf (t, 32, "line %d:", bad); EXPECT (e != NULL, "an offending line is reported"); EXPECT (strstr (e, t) != NULL, "the error names the offending line"); }
  else { EXPECT (e == NULL, "a proper file is loaded"); model_consistent (); expect_model (); }
  if (!e) { preload_markov_foreach (c_chain, NULL); preload_state_free (); } else { vomm_import_done (); vomm_cleanup (); }
  g_free (e); g_string_free (txt, TRUE);
}
