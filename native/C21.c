/* C20, C21: a scratch process directory with any entries and mappings. */
#include "vpn.h"
#include "redir.h"
#include "common.h"
#include "state.h"
#include "conf.h"
#include "proc.h"
#include "map.h"
static char *pfx[2][8]; static int npfx[2];
static const char *parts[] = { "/usr", "/usr/", "/lib", "/lib/x", "/opt a", "/", "/usr/lib/", "/home/é", "/a", "" };
static char base[520];   /* a path that entries and objects of this case share beginnings with */
static void mkpath (char *o, int max)
{
  if (*base && chance (15)) { strcpy (o, base); int l = strlen (o), at = 1 + rnd (l); if (chance (50)) { if (at < l) o[at] = 'Z'; } else o[at] = 0; l = strlen (o); while (l && o[l - 1] == ' ') o[--l] = 0; return; }
  static const char *leaf[] = { "bin", "x", "lib.so", "a b", "  two", "tab\there", "é", "(deleted)", " (deleted)", "x.#prelink#.AbCdE", "x.#prelink#.1 (deleted)", "y.#prelink", ".#prelink#.", "(delete", "!z", "12", "rw-p 0 0:0 0 /q" };
  strcpy (o, parts[rnd (9)]); int n = rnd (3);
  for (int i = 0; i <= n; i++) { strcat (o, "/"); strcat (o, leaf[rnd (17)]); }
  if (chance (6)) { int l = strlen (o), t = max - (int) rnd (4); while (l < t) o[l++] = 'k'; o[l] = 0; }
  int l = strlen (o); while (l && o[l - 1] == ' ') o[--l] = 0;
}
static void mkpfx (void)
{ *base = 0; { char b[1100]; do mkpath (b, chance (50) ? 400 : 20 + rnd (400)); while (strlen (b) > 505); strcpy (base, b); if (strstr (base, ".#prelink#.") || strstr (base, "(deleted)")) *base = 0; }
  for (int k = 0; k < 2; k++) { npfx[k] = chance (20) ? -1 : (int) rnd (6); for (int i = 0; i < npfx[k]; i++) { char b[800]; if (*base && chance (30)) { strcpy (b + 1, base); if (chance (70)) b[1 + rnd (strlen (b + 1) + 1)] = 0; } else if (chance (50)) strcpy (b + 1, parts[rnd (10)]); else { mkpath (b + 1, 300); b[1 + rnd (strlen (b + 1) + 1)] = 0; } b[0] = '!'; pfx[k][i] = g_strdup (chance (50) ? b : b + 1); if (chance (8)) { char *q = pfx[k][i]; pfx[k][i] = g_strconcat ((const char *[]){ "!", "!!", " ", "*" }[rnd (4)], q, NULL); g_free (q); } note (" %s[%s]", k ? "exe" : "map", pfx[k][i]); } pfx[k][npfx[k] < 0 ? 0 : npfx[k]] = NULL; } }
/* the filter, as documented */
static int tracked (const char *p, char *out, int k)
{
  strcpy (out, p); if (*p != '/') return 0;
  char *q = strstr (out, ".#prelink#."); if (q) *q = 0; else if (strstr (out, "(deleted)")) return 0;
  for (int i = 0; i < npfx[k]; i++) { char *e = pfx[k][i]; int neg = *e == '!'; if (neg) e++; if (!strncmp (out, e, strlen (e))) return !neg; }
  return 1;
}
static int seen_n; static int seen_pid[64]; static char seen_path[64][1100];
static void cb (gpointer pid, gpointer path, gpointer d) { EXPECT (d == (gpointer) 77 && seen_n < 64, "called with what was given"); seen_pid[seen_n] = GPOINTER_TO_INT (pid); snprintf (seen_path[seen_n++], 1100, "%s", (char *) path); }
static void foreach_case (void)
{
  static char made[40][64]; int nm = 0, want = 0; static struct { int pid; char path[1100]; } w[40];
  if (system ("find proc -mindepth 1 -delete 2>/dev/null")) ; mkdir ("proc", 0700);
  int n = rnd (12);
  for (int i = 0; i < n; i++) {
    char d[64], l[128], t[1100], o[1100]; int pid = -1;
    switch (rnd (7)) { case 0: sprintf (d, "%s", (const char *[]){ "self", "12a", "a12", "-5", "1.2", "net", "sys", "+7" }[rnd (8)]); break; case 1: pid = getpid (); sprintf (d, "%d", pid); break; default: pid = 1 + rnd (chance (50) ? 30 : 4194304); sprintf (d, "%d", pid); }
    char p[80]; snprintf (p, 80, "proc/%s", d); if (mkdir (p, 0700)) continue;
    strcpy (made[nm++], d); snprintf (l, 128, "%s/exe", p); int kind = rnd (10);
    if (kind == 0) continue;                     /* gone */
    if (kind == 1) { strcpy (t, (const char *[]){ "socket:[1]", "anon", "memfd:x (deleted)" }[rnd (3)]); } else mkpath (t, chance (50) ? 514 : 510);
    if (symlink (t, l)) continue;
    int len = strlen (t); note (" %s->%.80s(%d)", d, t, len);
    if (pid < 0 || pid == getpid () || len > 511 || !tracked (t, o, 1)) continue;
    w[want].pid = pid; strcpy (w[want++].path, o);
  }
  seen_n = 0; int o = rd_dirs; proc_foreach (cb, (gpointer) 77);
  EXPECT (rd_dirs == o, "the directory is closed again");
  EXPECT (seen_n == want, "every process that qualifies is reported once, and no other");
  for (int i = 0; i < want; i++) { int c = 0; for (int j = 0; j < seen_n; j++) if (seen_pid[j] == w[i].pid) { c++; EXPECT (!strcmp (seen_path[j], w[i].path), "with its full path"); } EXPECT (c == 1, "each once"); }
}
static struct { int ok; unsigned long s, e, off; char path[1100], real[1100]; } ln[300];
static void maps_case (void)
{
  static char text[300 * 1200]; int len = 0, n = chance (10) ? 100 + rnd (150) : (int) rnd (14); gsize want = 0; int links = 0;
  if (mkdir ("proc", 0700)) ; if (mkdir ("proc/5", 0700)) ; unlink ("proc/5/maps");
  preload_map_t *pre[20]; int np = 0; unsigned long at = 4096;
  for (int i = 0; i < n; i++) {
    char o[1100]; unsigned long l = 4096ul << rnd (chance (5) ? 30 : 8); int rep = i && chance (12) ? (int) rnd (i) : -1;
    if (rep >= 0) l = ln[rep].e - ln[rep].s;
    ln[i].s = at; ln[i].e = at + l; at += l + 4096 * rnd (3); ln[i].off = rep >= 0 ? ln[rep].off : chance (50) ? 0 : 4096ul * rnd (1ul << rnd (40)); ln[i].ok = 0;
    int kind = rnd (8); if (rep >= 0) strcpy (ln[i].path, ln[rep].path); else if (kind == 0) ln[i].path[0] = 0; else if (kind == 1) strcpy (ln[i].path, (const char *[]){ "[heap]", "[stack]", "[vdso]", "anon_inode:[x]", "socket:[12]" }[rnd (5)]); else mkpath (ln[i].path, 511);
    len += sprintf (text + len, "%08lx-%08lx %c%c%c%c %08lx %02x:%02x %lu ", ln[i].s, ln[i].e, "r-"[rnd (2)], "w-"[rnd (2)], "x-"[rnd (2)], "ps"[rnd (2)], ln[i].off, (int) rnd (300), (int) rnd (300), (unsigned long) rnd (1ul << rnd (60)));
    if (ln[i].path[0]) len += sprintf (text + len, "%*s%s", (int) rnd (20), "", ln[i].path);
    len += sprintf (text + len, "\n");
    if (tracked (ln[i].path, o, 0)) { ln[i].ok = 1; strcpy (ln[i].real, o); want += l; links++; }
  }
  note ("maps: %.3000s", text); rd_put ("proc/5/maps", text, len);
  int vanished = chance (5); if (vanished) { unlink ("proc/5/maps"); want = links = 0; }
  int more = chance (10) ? (int) rnd (70000) : 0;   /* other users of the regions */
  for (int i = 0; i < n && np < 20; i++) if (ln[i].ok && chance (25)) { preload_map_t *m = preload_map_new (ln[i].real, ln[i].off, ln[i].e - ln[i].s); if (g_hash_table_lookup (state->maps, m)) preload_map_free (m); else { for (int x = 0; x <= more; x++) preload_map_ref (m); pre[np++] = m; } }
  guint before = g_hash_table_size (state->maps);
  int withmaps = chance (70), withlinks = chance (70); GPtrArray *l = (GPtrArray *) 3; int of = rd_open;
  if (withlinks && !withmaps) { for (int i = 0; i < np; i++) for (int x = 0; x <= more; x++) preload_map_unref (pre[i]); np = 0; int dup = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (ln[i].ok && ln[j].ok && !strcmp (ln[i].real, ln[j].real) && ln[i].off == ln[j].off && ln[i].e - ln[i].s == ln[j].e - ln[j].s) dup = 1; if (dup) withmaps = 1; before = 0; }
  note (" [maps %d links %d pre %d]", withmaps, withlinks, np);
  gsize r = proc_get_maps (5, withmaps ? state->maps : NULL, withlinks ? &l : NULL);
  EXPECT (r == want, "the sum of the lengths of the accepted regions"); EXPECT (rd_open == of, "every file opened is closed");
  if (withlinks) {
    EXPECT ((int) l->len == links, "one link per accepted region"); int k = 0;
    if (!vanished) for (int i = 0; i < n; i++) if (ln[i].ok) { preload_exemap_t *x = l->pdata[k++]; EXPECT (!strcmp (x->map->path, ln[i].real) && x->map->offset == ln[i].off && x->map->length == ln[i].e - ln[i].s, "with the right path, offset and length");
      for (int j = 0; j < np; j++) if (preload_map_equal (pre[j], x->map)) EXPECT (pre[j] == x->map, "the registered region is reused");
      gpointer ok = NULL; g_hash_table_lookup_extended (state->maps, x->map, &ok, NULL); EXPECT (ok == x->map, "the region is the registered one"); }
    for (guint i = 0; i < l->len; i++) preload_exemap_free (l->pdata[i], NULL); g_ptr_array_free (l, TRUE);
  }
  EXPECT (g_hash_table_size (state->maps) == before, "no region stays behind");
  for (int i = 0; i < np; i++) { EXPECT (pre[i]->refcount == 1 + more, "references are taken by links only"); for (int x = 0; x <= more; x++) preload_map_unref (pre[i]); }
  EXPECT (g_hash_table_size (state->maps) == 0 && state->maps_arr->len == 0, "nothing leaks");
}
static void one_case (void)
{
  if (!vp_case) { memset (conf, 0, sizeof *conf); conf->system.prediction_algorithm = "Markov"; mkdir ("proc", 0700); mkdir ("proc/5", 0700); preload_state_load (NULL); }
  mkpfx (); conf->system.mapprefix = npfx[0] < 0 ? NULL : pfx[0]; conf->system.exeprefix = npfx[1] < 0 ? NULL : pfx[1];
  if (chance (30)) foreach_case (); else maps_case ();
  for (int k = 0; k < 2; k++) for (int i = 0; i < npfx[k]; i++) g_free (pfx[k][i]);
}
