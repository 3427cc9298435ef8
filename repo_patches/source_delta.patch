From c862092177d487c50cc9ef3335d8a6fa5ac79559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 01/24] fix: do not shrink a merged readahead request

A map that lies inside the request being built replaced its end, so the tail
of the bigger map was never read ahead.
---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..e48977a 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -311,7 +311,8 @@ preload_readahead (preload_map_t **files, int file_count)
 	  0 == strcmp (path, files[i]->path))
         {
 	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  if (files[i]->offset + files[i]->length - offset > length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 10a04a8cb5f571668bac9f14e43287684455c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 02/24] fix: do not spin forever waiting for children that are
 gone

With SIGCHLD ignored (inherited across exec) the kernel reaps the readahead
children itself and wait() fails with ECHILD.
---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index e48977a..daffcc7 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -118,6 +118,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno == ECHILD)
+	procs = 0;
     }
 }
 
-- 
2.43.0


From b1a01cc08faf5341dc7d27c14408c72efd197917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 03/24] fix: use the block number FIBMAP returned instead of
 always the inode

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index daffcc7..6fbb815 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From f1704ef5ba1f0e71d10dd834f2e9617af84921e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 04/24] fix: keep the old state when the new one cannot be
 written out

The tail of the state sits in the channel buffer until the channel is
released, and errors of that last write were ignored: a truncated temporary
file then replaced the good state file.
---
 preload-src/src/handling/state_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..3798ff3 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -669,6 +669,8 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  if (!errmsg && G_IO_STATUS_NORMAL != g_io_channel_flush (f, NULL))
+    errmsg = g_strdup_printf ("failed writing %s", tmpfile);
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 3713f14892279341f058cf685ef54ac156f64bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 05/24] fix: sync the new state to disk before it replaces the
 old one

---
 preload-src/src/handling/state_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 3798ff3..80219b2 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -671,6 +671,8 @@ preload_state_write_file (const char *statefile)
   errmsg = write_state (f);
   if (!errmsg && G_IO_STATUS_NORMAL != g_io_channel_flush (f, NULL))
     errmsg = g_strdup_printf ("failed writing %s", tmpfile);
+  if (!errmsg && 0 > fsync (fd))
+    errmsg = g_strdup_printf ("failed syncing %s: %s", tmpfile, strerror (errno));
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 5d22620bbebb8c159223a065f1ff3dd3caec4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 06/24] fix: reject a state file chain that links a program to
 itself

preload_markov_new returns NULL for it, which was then dereferenced.
---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 80219b2..2619207 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -236,7 +236,7 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
-- 
2.43.0


From 7000dbe8e7394a9fbf2dd34d74b91bdc1850d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 07/24] fix: skip duplicate VOMM nodes of a state file

Inserting the second one freed the first, which stayed reachable by its id.
---
 preload-src/src/algorithm/vomm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..ef0c134 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -489,6 +489,13 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (g_hash_table_lookup(parent_node->children, exe->path)
+        || g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)id))) {
+        /* Replacing a node would leave its old self, now freed, in import_node_map */
+        g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
-- 
2.43.0


From 2b5a2b1f9c6f9c82f6afca55fd7f8aa95885627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 08/24] fix: let likelier VOMM candidates get the stronger bid

lnprob is the log-probability of NOT being needed, as doc/VOMM.md says the
bid is log(1 - confidence); log(confidence) ranked the rarest first.
---
 preload-src/src/algorithm/vomm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index ef0c134..e10dbfc 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -190,7 +190,7 @@ static void predict_ppm(vomm_node_t *node) {
         const double epsilon = 1e-9;
         child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
-- 
2.43.0


From 5d104446a261e2aea59bf1623f39559d182b6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 09/24] fix: make the VOMM fallback bid for its candidates, not
 against them

---
 preload-src/src/algorithm/vomm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index e10dbfc..a476d84 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -215,8 +215,8 @@ static void predict_dg_fallback(vomm_node_t *node) {
         if (child->count > 0) {
              /* Weak bid for all neighbors */
              /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             child->exe->lnprob -= log(1.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob -= %f)", child->exe->path, log(1.1));
         }
     }
 }
-- 
2.43.0


From 5ea6b2023d71c442eb8f70a4625ece5c1c78a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 10/24] fix: keep the VOMM tree loaded from the state file

preload_state_run initialized VOMM after the load and dropped (and leaked)
everything that had been learned and saved.
---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index a476d84..2cfaac4 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -58,6 +58,9 @@ static void vomm_node_free(gpointer data) {
 }
 
 gboolean vomm_init(void) {
+    /* The tree may have been loaded from the state file already */
+    if (vomm_system.root) return TRUE;
+
     g_debug("[VOMM] Initializing Algorithm...");
     /* Root represents the empty context */
     vomm_system.root = vomm_node_new(NULL, NULL);
@@ -339,6 +342,9 @@ void vomm_predict(void) {
  */
 void vomm_hydrate_from_state(void) {
     if (!vomm_system.root) return;
+
+    /* Nothing to seed if the tree itself was loaded from the state file */
+    if (g_hash_table_size(vomm_system.root->children) > 0) return;
     
     g_debug("[VOMM] Hydrating from legacy Markov state...");
     int hydrated_count = 0;
-- 
2.43.0


From 04db9df7f95b6fb37fb1567245a7049f83648cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 11/24] fix: bound the depth of the VOMM tree as intended

The context was never reset, so every event made the tree one level deeper,
and saving and freeing it recurse over the depth.
---
 preload-src/src/algorithm/vomm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 2cfaac4..265f696 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -116,7 +116,10 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    int depth = 0;
+    for (vomm_node_t *n = vomm_system.current_context; n && n != vomm_system.root; n = n->parent)
+        depth++;
+    if (!vomm_system.current_context || depth >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
-- 
2.43.0


From 3911a347aec3fab8a501ca18ee6debbb65b235c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 12/24] fix: drop unregistered executables from the VOMM model

The cleanup of deleted executables freed them while the VOMM tree and history
still pointed at them; the next prediction or save used freed memory.
---
 preload-src/src/algorithm/vomm.c | 31 +++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  6 ++++++
 preload-src/src/handling/exe.c   |  2 ++
 3 files changed, 39 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 265f696..51fde38 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -159,6 +159,37 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+static void vomm_node_forget(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, NULL, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter); /* frees the whole subtree */
+        else
+            vomm_node_forget(child, exe);
+    }
+}
+
+void vomm_forget(preload_exe_t *exe) {
+    if (!exe || !vomm_system.root) return;
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+
+    for (vomm_node_t *n = vomm_system.current_context; n; n = n->parent) {
+        if (n->exe == exe) {
+            /* The context goes away together with the subtree it is in */
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+
+    vomm_node_forget(vomm_system.root, exe);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..085f3b9 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -32,6 +32,12 @@ void vomm_cleanup(void);
  */
 void vomm_update(preload_exe_t *exe);
 
+/*
+ * Removes every trace of an executable from the VOMM model (history, context
+ * and tree).  Must be called before the executable is freed.
+ */
+void vomm_forget(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..eb91b8e 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,7 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -179,6 +180,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
   g_hash_table_steal (state->exes, exe->path);
+  vomm_forget (exe);
 
   preload_exe_free (exe);
 }
-- 
2.43.0


From 04aa4aec9db57784fb9dde18d108b4a7cb31264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 13/24] fix: drop unregistered executables from the pending
 scan results

A save (autosave or SIGUSR2) between a scan and the model update half a cycle
later could free an executable the scan had queued as changed.
---
 preload-src/src/handling/exe.c   | 2 ++
 preload-src/src/monitoring/spy.c | 7 +++++++
 preload-src/src/monitoring/spy.h | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index eb91b8e..ec96739 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -27,6 +27,7 @@
 #include "markov.h"
 #include "state.h"
 #include "vomm.h"
+#include "spy.h"
 
 
 /* Check if executable is currently running */
@@ -181,6 +182,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
   vomm_forget (exe);
+  preload_spy_forget (exe);
 
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..f5369c0 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,13 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+void
+preload_spy_forget (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  new_running_exes = g_slist_remove_all (new_running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..b912fe0 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -3,7 +3,12 @@
 
 #include <glib.h>
 
+typedef struct _preload_exe_t preload_exe_t;
+
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
 
+/* must be called before an executable is freed */
+void preload_spy_forget (preload_exe_t *exe);
+
 #endif
-- 
2.43.0


From f505be1efa77006830efb43aeb84784087dfdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 14/24] fix: read map paths with spaces in them completely

The path ended at the first space, which also hid the "(deleted)" mark, so
deleted files were taken for existing ones.
---
 preload-src/src/monitoring/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..6ff677e 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -111,7 +111,7 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]",
 		      &start, &end, &offset, file);
 
       if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
-- 
2.43.0


From 059ce2a1202cf0ad2d3b73a4fee2656a9ce85021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 15/24] fix: read state file URIs longer than a path

A path is escaped in the state file and can take up to three times its
length; the daemon then could not load the file it had saved.
---
 preload-src/src/handling/state_io.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 2619207..e316228 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -45,6 +45,10 @@
 #define TAG_VOMM_NODE   "VOMMNODE"
 
 
+/* a path of FILELEN - 1 bytes, each of them escaped, after file:// */
+#define URILEN 1600
+#define URILENSTR "1599"
+
 #define READ_TAG_ERROR			"invalid tag"
 #define READ_SYNTAX_ERROR		"invalid syntax"
 #define READ_INDEX_ERROR		"invalid index"
@@ -60,7 +64,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN];
 } read_context_t;
 
 
@@ -77,7 +81,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -123,7 +127,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -154,7 +158,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
-- 
2.43.0


From 51ab82c1ca62b29d09b763f7301f93f466e914fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 16/24] fix: list a program once among the running ones at
 startup

It was listed, and counted as launched, once per process.
---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..9f07567 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && !exe_is_running (exe)) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From c1a6008bf5119b2b0f0b90bf948c8c86afaaef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 17/24] fix: start timing the states of loaded chains at load

They were timed from 0, so that the first change after a restart added the
age of the whole model to the mean time to leave.
---
 preload-src/src/handling/state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 9f07567..aaf5ff0 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -46,6 +46,7 @@ update_markov_state_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
 {
   preload_markov_t *markov = (preload_markov_t *)data;
   markov->state = markov_compute_state (markov);
+  markov->change_timestamp = state->time;
 }
 
 static void
-- 
2.43.0


From b461d41b6f2f507331ef18990e63ca772c8dd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 18/24] fix: advance the model clock by the whole delay when on
 battery

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index aaf5ff0..f101366 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -201,7 +201,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From bca7479ab0c70c858fcf117c3acfb4d6fe8ae581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 19/24] fix: do not abort on inconsistent running times of a
 loaded state

A state file whose times do not fit together loaded fine and then killed the
daemon at every prediction.
---
 preload-src/src/algorithm/markov.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..ac4375b 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -173,7 +173,7 @@ preload_markov_correlation (preload_markov_t *markov)
   b = markov->b->time;
   ab = markov->time;
 
-  if (a == 0 || a == t || b == 0 || b == t)
+  if (a <= 0 || a >= t || b <= 0 || b >= t)
     correlation = 0;
   else {
     numerator = ((double)t*ab) - ((double)a * b);
@@ -181,8 +181,8 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
-  return correlation;
+  /* times of a damaged state file need not be consistent */
+  return CLAMP (correlation, -1.0, 1.0);
 }
 
 
-- 
2.43.0


From e47e27d5bb1b2a7ca14fec31b9fbc758b6521b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 20/24] fix: do the arithmetic of the prefetch budget in 64
 bits

The size in kb of a map of 2 TiB or more did not fit in an int and made the
budget grow; so did the budget itself with more than 1 TiB of memory.
---
 preload-src/src/algorithm/prophet.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..3078e1a 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)((v) / 1024 + ((v) % 1024 ? 1 : 0)))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
@@ -202,7 +202,7 @@ void
 preload_prophet_readahead (GPtrArray *maps_arr)
 {
   int i;
-  int memavail, memavailtotal; /* in kilobytes */
+  gint64 memavail, memavailtotal; /* in kilobytes */
   preload_memory_t memstat;
   preload_map_t *map;
 
@@ -233,7 +233,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
              + clamp_percent(conf->model.memfree)  * (memavail / 100);
   } else {
     /* Fallback for older kernels */
-    memavail  = clamp_percent(conf->model.memtotal)  * (memstat.total  / 100)
+    memavail  = clamp_percent(conf->model.memtotal)  * (gint64)(memstat.total  / 100)
               + clamp_percent(conf->model.memfree)   * (memstat.free   / 100);
   }
   
@@ -262,7 +262,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
       map_prob_print (map);
   }
 
-  g_debug ("%dkb available for preloading, using %dkb of it",
+  g_debug ("%" G_GINT64_FORMAT "kb available for preloading, using %" G_GINT64_FORMAT "kb of it",
 	   memavailtotal, memavailtotal - memavail);
 
   if (i) {
-- 
2.43.0


From f1ab85f46a5faf6b41322a893d02422422cdf0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 21/24] fix: name the setting of the readahead processes as the
 daemon reads it

The shipped configuration and its documentation said processes, which is
silently ignored; the key is maxprocs.
---
 bin/preload.conf                       | 2 +-
 doc/README.md                          | 4 ++--
 preload-src/src/config/preload.conf.in | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/preload.conf b/bin/preload.conf
index 8b9bd4d..b3d42e1 100644
--- a/bin/preload.conf
+++ b/bin/preload.conf
@@ -188,7 +188,7 @@ prediction_algorithm = "VOMM"
 # of nearby blocks.
 #
 # default: 30
-processes = 30
+maxprocs = 30
 
 # sortstrategy
 #
diff --git a/doc/README.md b/doc/README.md
index ef39b14..757608e 100644
--- a/doc/README.md
+++ b/doc/README.md
@@ -297,12 +297,12 @@ prediction_algorithm = "VOMM"
 #                           I/O OPTIMIZATION
 ###############################################################################
 
-# processes (integer)
+# maxprocs (integer)
 # Maximum parallel readahead processes.
 # 0 = no parallelism (all readahead in main process)
 # Parallel readahead allows kernel to batch nearby I/O requests.
 # Default: 30
-processes = 30
+maxprocs = 30
 
 # sortstrategy (0-3)
 # How to sort I/O requests for optimal disk access:
diff --git a/preload-src/src/config/preload.conf.in b/preload-src/src/config/preload.conf.in
index 312bd78..4f5ecdb 100644
--- a/preload-src/src/config/preload.conf.in
+++ b/preload-src/src/config/preload.conf.in
@@ -188,7 +188,7 @@ prediction_algorithm = default_prediction_algorithm
 # of nearby blocks.
 #
 # default: default_maxprocs
-processes = default_maxprocs
+maxprocs = default_maxprocs
 
 # sortstrategy
 #
-- 
2.43.0


From 14a3188ed18ea951130eeed227098078b928d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 22/24] fix: use the defaults for the settings of a group that
 is not given

---
 preload-src/src/config/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..2bb152e 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -83,7 +83,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND && \
+		   e->code != G_KEY_FILE_ERROR_GROUP_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
-- 
2.43.0


From cb3db83e66ea59122093615504a8bd6836a728d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 23/24] fix: estimate the available memory without overflow

---
 preload-src/src/monitoring/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 6ff677e..158afdf 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -281,7 +281,7 @@ proc_get_memstat (preload_memory_t *mem)
   if (!mem->available && mem->free) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
-    mem->available = mem->free + (mem->cached * 80 / 100) + (mem->buffers * 75 / 100);
+    mem->available = mem->free + (int) ((gint64) mem->cached * 80 / 100) + (int) ((gint64) mem->buffers * 75 / 100);
   }
 
   if (!mem->total || !mem->pagein)
-- 
2.43.0


From f8749cbdd5acdae8e23992f70e514657169069ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 24/24] fix: log an error at verbosity 0, whose level carries
 the fatal flag

---
 preload-src/src/utils/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..86a1f46 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -36,7 +36,7 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
   char *timestr;
 
   /* ignore unimportant messages */
-  if (log_level <= G_LOG_LEVEL_ERROR << preload_log_level)
+  if ((int)(log_level & G_LOG_LEVEL_MASK) <= G_LOG_LEVEL_ERROR << preload_log_level)
     {
       curtime = time (NULL);
       timestr = ctime (&curtime);
-- 
2.43.0

