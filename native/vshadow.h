/* A shadow of the sequence model: what the learned tree, the history and the context have to be. */
#define SN 4000
typedef struct { int exe, count, parent, dead; } snode;
static snode sn[SN]; static int sns, sctx, shist[8], shn;
static int s_child (int p, int e) { for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent == p && sn[i].exe == e) return i; return 0; }
static int s_new (int p, int e, int c) { if (sns >= SN) { printf ("shadow full\n"); exit (2); } sn[sns] = (snode) { e, c, p, 0 }; return sns++; }
static int s_depth (int n) { int d = 0; while (n) { d++; n = sn[n].parent; } return d; }
static void s_init (void) { sns = 1; sctx = 0; shn = 0; sn[0] = (snode) { -1, 0, 0, 0 }; }
static void s_update (int e)
{
  shist[shn++] = e; if (shn > 5) { memmove (shist, shist + 1, sizeof shist - sizeof shist[0]); shn--; }
  if (s_depth (sctx) >= 5) sctx = 0;
  int n = s_child (sctx, e); if (!n) n = s_new (sctx, e, 0); sn[n].count++; sctx = n;
  if (shn >= 2) { int p = shist[shn - 2], r = s_child (0, p); if (!r) r = s_new (0, p, 0); int b = s_child (r, e); if (!b) b = s_new (r, e, 0); sn[b].count++; }
}
static void s_kill (int n) { sn[n].dead = 1; for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].parent == n) s_kill (i); }
static void s_forget (int e)
{
  int k = 0; for (int i = 0; i < shn; i++) if (shist[i] != e) shist[k++] = shist[i]; shn = k;
  for (int i = 1; i < sns; i++) if (!sn[i].dead && sn[i].exe == e) s_kill (i);
  if (sctx && sn[sctx].dead) sctx = 0;
}
typedef struct { gint64 id, seq, parent; int count; } enode;
static enode en[SN]; static int ens;
static void s_collect (gint64 id, gint64 seq, int count, gint64 parent, gpointer u) { if (ens < SN) en[ens++] = (enode) { id, seq, parent, count }; }
static void s_compare (void)
{
  static int at[SN]; ens = 0; vomm_export_state (s_collect, NULL);
  int alive = 0; for (int i = 1; i < sns; i++) alive += !sn[i].dead;
  EXPECT (ens == alive, "the learned tree has exactly the nodes that were learned");
  for (int i = 0; i < ens; i++) {
    int p = -1, e = -1; if (en[i].parent == 0) p = 0; else for (int j = 0; j < i; j++) if (en[j].id == en[i].parent) p = at[j];
    for (int j = 0; j < i; j++) EXPECT (en[j].id != en[i].id, "nodes are numbered uniquely");
    EXPECT (p >= 0 && en[i].id != 0, "a node comes after its parent");
    for (int k = 0; k < wne; k++) if (we[k] && we[k]->seq == en[i].seq) e = k;
    EXPECT (e >= 0, "a node is a known program's");
    int n = s_child (p, e); EXPECT (n != 0, "a node was learned");
    for (int j = 0; j < i; j++) EXPECT (at[j] != n, "a successor has one node");
    at[i] = n;
    if (sn[n].count != en[i].count) note (" [node %d of exe %d: %d, should be %d]", n, e, en[i].count, sn[n].count);
    EXPECT (sn[n].count == en[i].count, "observations are counted once");
  }
}
static void s_random_tree (int big)
{
  int n = rnd (big), map[SN]; gint64 base = rnd (1000);
  for (int i = 0; i < n && wne; i++) {
    int p = chance (50) || !i ? 0 : 1 + rnd (sns - 1), e = rnd (wne); if (s_child (p, e)) continue;
    int c = chance (20) ? 0 : chance (60) ? rnd (20) : rnd (100000); int k = s_new (p, e, c); map[k] = base + k;
    vomm_import_node (map[k], we[e], c, p ? map[p] : 0);
  }
  vomm_import_done ();
}
