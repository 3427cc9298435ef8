/* C23: preload_conf_load over every combination of given, missing and malformed settings, readable or not, at startup and on
 * reload.  The key file is GLib's; its contract: for each key a value, or an error that says what is wrong.
 * The table of settings and defaults below is written from the documentation, not from confkeys.h. */
#include "common.h"
#include "log.h"
#include "conf.h"
#include "state.h"
#include <math.h>
#include <time.h>
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#define VP_OWN_LOG
#include "../lib/glib_base.h"
int preload_log_level;
void vp_format_without_contract (void);
static int same_text (const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } }
enum { INT, BOOL, STR, LIST };
static const struct { const char *grp, *key; int type, def; } K[] = {
  { "model", "cycle", INT, 20 }, { "model", "usecorrelation", BOOL, 1 }, { "model", "minsize", INT, 2000000 }, { "model", "memtotal", INT, -10 }, { "model", "memfree", INT, 50 },
  { "model", "memcached", INT, 0 }, { "model", "membuffers", INT, 50 }, { "system", "doscan", BOOL, 1 }, { "system", "dopredict", BOOL, 1 }, { "system", "autosave", INT, 3600 },
  { "system", "mapprefix", LIST, 0 }, { "system", "exeprefix", LIST, 0 }, { "system", "prediction_algorithm", STR, 0 }, { "system", "maxprocs", INT, 30 }, { "system", "sortstrategy", INT, 3 } };
#define NK 15
enum { GIVEN, NO_KEY, NO_GROUP, MALFORMED };
static struct { int how, v; } in[NK];                       /* the file */
static int unreadable, vp_fail, errs_live, kf_live, asked[NK]; static GError vp_err; static char vp_kf[4], vp_msg[4];
/* texts and lists: 0-2 the old configuration's, 3-5 the file's, 6 the default algorithm */
static char obj[7][8]; static int live[7]; static preload_conf_t old;
#define SLOT(i) ((i) == 12 ? 0 : (i) == 10 ? 1 : 2)
static int ix (gpointer p) { for (int i = 0; i < 7; i++) if (p == (gpointer) obj[i]) return i; return -1; }
static void release (gpointer p, int list)
{ if (!p) return; int i = ix (p); CHECK (i >= 0 && live[i] == 1, "C23.release: what is released was held, and is released once"); if (i >= 0) { CHECK (list == (i % 3 != 0 && i < 6), "C23.release: lists are released as lists"); live[i]--; } }
void g_free (gpointer p) { release (p, 0); }
void g_strfreev (gchar **p) { release (p, 1); }
gchar *g_strdup (const gchar *s) { if (!s) return 0; CHECK (same_text (s, "VOMM"), "C23.default: the default algorithm is VOMM"); CHECK (!live[6], "C23.default: set once"); live[6] = 1; return obj[6]; }
GQuark g_key_file_error_quark (void) { return 77; }
static void bad_log (GLogLevelFlags l)
{
  if (l & G_LOG_LEVEL_ERROR) {
    CHECK (vp_fail, "C23.exit: only at startup does a bad configuration end the daemon");
    int any = unreadable; for (int i = 0; i < NK; i++) any |= in[i].how == MALFORMED; CHECK (any, "C23.exit: and only a bad one does");
    STOP ();
  }
}
void g_log (const gchar *d, GLogLevelFlags l, const gchar *f, ...) { bad_log (l & G_LOG_LEVEL_MASK); }
GKeyFile *g_key_file_new (void) { CHECK (!kf_live, "one file"); kf_live = 1; return (GKeyFile *) vp_kf; }
void g_key_file_free (GKeyFile *k) { CHECK (kf_live && k == (GKeyFile *) vp_kf, "C23.release: the parsed file is released once"); kf_live = 0; }
void g_key_file_unref (GKeyFile *k) { g_key_file_free (k); }
static void raise_error (GError **e, int code)
{ CHECK (!e || !*e, "C23.error: no error is pending"); if (!e) return; CHECK (!errs_live, "C23.error: one error at a time"); errs_live = 1; vp_err.domain = g_key_file_error_quark (); vp_err.code = code; vp_err.message = vp_msg; *e = &vp_err; }
void g_error_free (GError *e) { CHECK (e == &vp_err && errs_live, "C23.error: an error is released once"); errs_live = 0; }
void g_clear_error (GError **e) { if (e && *e) { g_error_free (*e); *e = 0; } }
gboolean g_error_matches (const GError *e, GQuark d, gint c) { return e && e->domain == d && e->code == c; }
static const char *vp_name;
gboolean g_key_file_load_from_file (GKeyFile *k, const gchar *f, GKeyFileFlags fl, GError **e)
{ CHECK (kf_live && k == (GKeyFile *) vp_kf && f == vp_name, "C23.file: the file given is read"); if (unreadable) { raise_error (e, nondet_int ()); return FALSE; } return TRUE; }
static int find (const char *g, const char *k)
{
  for (int i = 0; i < NK; i++) if (same_text (K[i].grp, g) && same_text (K[i].key, k)) return i;
  CHECK (0, "C23.keys: only documented settings are read"); STOP (); return 0;
}
static int fetch (GKeyFile *f, const char *g, const char *k, int type, GError **e)
{
  CHECK (kf_live && f == (GKeyFile *) vp_kf && !unreadable, "C23.file: the parsed file is asked");
  int i = find (g, k); CHECK (K[i].type == type, "C23.type: settings are read as what they are"); asked[i]++;
  if (in[i].how == GIVEN) return i;
  int c = in[i].how == NO_KEY ? G_KEY_FILE_ERROR_KEY_NOT_FOUND : in[i].how == NO_GROUP ? G_KEY_FILE_ERROR_GROUP_NOT_FOUND : type < 2 || nondet_bool () ? G_KEY_FILE_ERROR_INVALID_VALUE : G_KEY_FILE_ERROR_UNKNOWN_ENCODING;
  raise_error (e, c); return -1;
}
gint g_key_file_get_integer (GKeyFile *f, const gchar *g, const gchar *k, GError **e) { int i = fetch (f, g, k, INT, e); return i < 0 ? 0 : in[i].v; }
gboolean g_key_file_get_boolean (GKeyFile *f, const gchar *g, const gchar *k, GError **e) { int i = fetch (f, g, k, BOOL, e); return i < 0 ? 0 : in[i].v; }
static gpointer take (int i) { if (i < 0) return 0; int s = 3 + SLOT (i); CHECK (!live[s], "C23.once: a text is taken once"); live[s] = 1; return obj[s]; }
gchar *g_key_file_get_string (GKeyFile *f, const gchar *g, const gchar *k, GError **e) { return take (fetch (f, g, k, STR, e)); }
gchar **g_key_file_get_string_list (GKeyFile *f, const gchar *g, const gchar *k, gsize *n, GError **e) { if (n) HAVOC (*n); return take (fetch (f, g, k, LIST, e)); }
gboolean g_key_file_has_key (GKeyFile *f, const gchar *g, const gchar *k, GError **e) { int i = find (g, k); if (in[i].how == NO_GROUP) { raise_error (e, G_KEY_FILE_ERROR_GROUP_NOT_FOUND); return FALSE; } return in[i].how != NO_KEY; }
gboolean g_key_file_has_group (GKeyFile *f, const gchar *g) { for (int i = 0; i < NK; i++) if (same_text (K[i].grp, g) && in[i].how == NO_GROUP) return FALSE; return TRUE; }

#include "config/conf.c"

static int got (int i)
{ switch (i) { case 0: return conf->model.cycle; case 1: return conf->model.usecorrelation; case 2: return conf->model.minsize; case 3: return conf->model.memtotal; case 4: return conf->model.memfree; case 5: return conf->model.memcached; case 6: return conf->model.membuffers;
  case 7: return conf->system.doscan; case 8: return conf->system.dopredict; case 9: return conf->system.autosave; case 13: return conf->system.maxprocs; default: return conf->system.sortstrategy; } }
static gpointer gotp (int i) { return i == 12 ? (gpointer) conf->system.prediction_algorithm : i == 10 ? (gpointer) conf->system.mapprefix : (gpointer) conf->system.exeprefix; }
static gpointer oldp (int s) { return s == 0 ? (gpointer) old.system.prediction_algorithm : s == 1 ? (gpointer) old.system.mapprefix : (gpointer) old.system.exeprefix; }
void h_load (void)
{
  HAVOC (conf[0]); HAVOC (unreadable); HAVOC (vp_fail); vp_fail = vp_fail != 0; unreadable = unreadable != 0; errs_live = kf_live = 0; live[3] = live[4] = live[5] = live[6] = 0;
  live[0] = nondet_bool (); live[1] = nondet_bool (); live[2] = nondet_bool (); static char name[4]; 
  conf->system.prediction_algorithm = live[0] ? obj[0] : (char *) 0; conf->system.mapprefix = live[1] ? (char **) obj[1] : (char **) 0; conf->system.exeprefix = live[2] ? (char **) obj[2] : (char **) 0; old = conf[0];
  _Bool nogrp[2] = { nondet_bool (), nondet_bool () }; int bad = 0, none = 0;
  for (int i = 0; i < NK; i++) { HAVOC (in[i]); int g = i >= 7; ASSUME (in[i].how >= GIVEN && in[i].how <= MALFORMED); ASSUME (nogrp[g] == (in[i].how == NO_GROUP)); if (K[i].type == BOOL) ASSUME (in[i].v == 0 || in[i].v == 1); bad |= in[i].how == MALFORMED; asked[i] = 0; }
  name[0] = nondet_bool () ? 'x' : 0; name[1] = 0; vp_name = name; if (nondet_bool ()) vp_name = 0; none = !vp_name || !vp_name[0];
  int was[3] = { live[0], live[1], live[2] };
  preload_conf_load (vp_name, vp_fail);
  if (!none && (unreadable || bad)) {
    CHECK (!vp_fail, "C23.exit: at startup a bad configuration ends the daemon");
    for (int i = 0; i < NK; i++) if (K[i].type < 2) { preload_conf_t now = conf[0]; int n = got (i); conf[0] = old; int o = got (i); conf[0] = now; CHECK (n == o, "C23.atomic: a bad configuration changes no setting"); }
    else CHECK (gotp (i) == oldp (SLOT (i)) && live[SLOT (i)] == was[SLOT (i)], "C23.atomic: and the old texts and lists stay");
    COVER (unreadable, "unreadable"); COVER (!unreadable && in[14].how == MALFORMED && in[0].how == GIVEN, "the last setting is malformed");
    return;
  }
  for (int i = 0; i < NK; i++) {
    int given = !none && in[i].how == GIVEN;
    if (K[i].type == BOOL) CHECK ((got (i) != 0) == (given ? in[i].v : K[i].def), "C23.value: every switch is as given, or as documented");
    else if (K[i].type == INT) CHECK (got (i) == (given ? in[i].v : K[i].def), "C23.value: every number is as given, or as documented");
    else { int s = SLOT (i); gpointer want = given ? (gpointer) obj[3 + s] : s == 0 ? (gpointer) obj[6] : 0;
      CHECK (gotp (i) == want, "C23.value: every text and list is as given, or as documented");
      CHECK (live[s] == 0, "C23.release: the old one is released"); CHECK (live[3 + s] == given, "C23.release: the new one is not"); if (s == 0) CHECK (live[6] == !given, "C23.release: the default is kept iff it is used"); }
  }
  CHECK (!kf_live && !errs_live, "C23.release: the parsed file and all errors are released");
  COVER (none, "no file"); COVER (!none && in[0].how == NO_KEY && in[12].how == GIVEN && was[0], "some settings"); COVER (!none && nogrp[0], "no group");
}
