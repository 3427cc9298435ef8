/* C25: preload_on_battery over every combination of batteries.  Each battery i exists or not, can be read or not, and its
 * status text is characterised by whether it is, and whether it is after trimming, "Discharging". */
#include "power.h"
#include "log.h"
#include <stdio.h>
#include <string.h>
#define VP_NO_LOG
#define VP_OWN_STRINGS
#define VP_OWN_FREE
#include "../lib/glib_base.h"
#include "../lib/fmt.h"
int preload_log_level;
int snprintf (char *o, size_t n, const char *f, ...) { va_list a; va_start (a, f); int r = vp_vsnprintf (o, n, f, a); va_end (a); return r; }
gint g_snprintf (gchar *o, gulong n, gchar const *f, ...) { va_list a; va_start (a, f); int r = vp_vsnprintf (o, n, f, a); va_end (a); return r; }
static const char pre[] = "/sys/class/power_supply/BAT", post[] = "/status";
/* which battery's status a path names, -1 for anything else */
static int which (const char *p)
{
  for (int i = 0; i < 27; i++) if (p[i] != pre[i]) return -1;
  if (p[27] < '0' || p[27] > '9') return -1;
  for (int i = 0; i < 8; i++) if (p[28 + i] != post[i]) return -1;
  return p[27] - '0';
}
static _Bool exists[10], readable[10], raw[10], trimmed[10];
typedef struct { char c[8]; int bat; int stripped; int live; } content_t;
static content_t text; static int others;
gboolean g_file_test (const gchar *p, GFileTest t)
{ int b = which (p); if (b < 0) { others++; return nondet_bool (); } return (t & (G_FILE_TEST_EXISTS | G_FILE_TEST_IS_REGULAR)) && exists[b]; }
gboolean g_file_get_contents (const gchar *p, gchar **c, gsize *n, GError **e)
{
  CHECK (c != 0 && e == 0, "C25.read: the text is asked for, errors are not kept");
  int b = which (p); if (b < 0) { others++; return FALSE; }
  if (!exists[b] || !readable[b]) { *c = 0; return FALSE; }
  CHECK (!text.live, "C25.release: one text at a time is held");
  text.bat = b; text.stripped = 0; text.live = 1;
  if (n) HAVOC (*n);
  *c = (char *) &text; return TRUE;
}
gchar *g_strchug (gchar *s) { if (s != (char *) &text || !text.live) CHECK (0, "C25.text: the text read is trimmed"); text.stripped |= 1; return s; }
gchar *g_strchomp (gchar *s) { if (s != (char *) &text || !text.live) CHECK (0, "C25.text: the text read is trimmed"); text.stripped |= 2; return s; }
static int is_discharging (const char *s)
{ static const char d[] = "Discharging"; for (int i = 0; i < 12; i++) if (s[i] != d[i]) return 0; return 1; }
static int cmp (const char *a, const char *b)
{
  if (b == (char *) &text) { const char *t = a; a = b; b = t; }
  if (a == 0) return b != 0;
  CHECK (a == (char *) &text && text.live, "C25.text: the text read is looked at");
  if (!is_discharging (b)) return nondet_int ();
  if (text.stripped == 3) return trimmed[text.bat] ? 0 : 1;
  if (text.stripped == 0) return raw[text.bat] ? 0 : 1;
  return raw[text.bat] ? 0 : trimmed[text.bat] && nondet_bool () ? 0 : 1;
}
int g_strcmp0 (const char *a, const char *b) { return cmp (a, b); }
int strcmp (const char *a, const char *b) { return cmp (a, b); }
void g_free (gpointer p) { if (!p) return; CHECK (p == (gpointer) &text && text.live, "C25.release: what was read is released, once"); text.live = 0; }
#include "utils/power.c"
void h_battery (void)
{
  for (int i = 0; i < 10; i++) { exists[i] = nondet_bool (); readable[i] = nondet_bool (); raw[i] = nondet_bool (); trimmed[i] = nondet_bool (); } HAVOC (preload_log_level);
  text.live = 0; others = 0; int want = 0;
  for (int i = 0; i < 10; i++) { ASSUME (!raw[i] || trimmed[i]); if (exists[i] && readable[i] && trimmed[i]) want = 1; }
  gboolean r = preload_on_battery ();
  CHECK ((r != 0) == want, "C25.exact: on battery iff the status of one of the batteries 0 to 9 reads as discharging");
  CHECK (!text.live, "C25.release: what was read is released");
  CHECK (!others, "C25.only: nothing else is looked at");
  COVER (want && !trimmed[0] && exists[0], "a later battery"); COVER (!want, "no battery");
}
