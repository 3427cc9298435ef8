/* Contracts of the GLib functions that are the same in every proof: allocation, abstract strings, logging.
 * g_malloc and friends never return NULL (GLib aborts instead); g_free accepts NULL. */
#ifndef GLIB_BASE_H
#define GLIB_BASE_H
#include "vp.h"
#undef g_strdup
#undef g_str_equal
#undef g_free
#undef g_strcmp0
#undef g_clear_pointer
#define g_clear_pointer(pp, destroy) do { if (*(pp)) { gpointer vp_old = *(pp); *(pp) = 0; destroy (vp_old); } } while (0)

gpointer g_malloc (gsize n)  { void *p = malloc (n); ASSUME (p != 0); return p; }
gpointer g_malloc0 (gsize n) { void *p = calloc (1, n); ASSUME (p != 0); return p; }
#ifndef VP_OWN_FREE
void g_free (gpointer p)     { free (p); }
void g_free_sized (gpointer p, gsize n) { free (p); }
#endif
#ifndef VP_OWN_STRINGS
gchar *g_strdup (const gchar *s)
{
  if (!s) return 0;
  char *r = vp_str_new (SID (s), s[0]);
  return r;
}
static char *vp_strdup (const char *s) { if (!s) return 0; return vp_str_new (SID (s), s[0]); }
int strcmp (const char *a, const char *b)
{
  CHECK (a && b, "strcmp is given two strings");
  return SID (a) == SID (b) ? 0 : SID (a) < SID (b) ? -1 : 1;
}
gboolean g_str_equal (gconstpointer a, gconstpointer b) { return strcmp (a, b) == 0; }
int g_strcmp0 (const char *a, const char *b)
{
  if (!a || !b) return a == b ? 0 : a ? 1 : -1;
  return strcmp (a, b);
}
guint __CPROVER_uninterpreted_strhash (uint64_t id);
guint g_str_hash (gconstpointer s) { CHECK (s != 0, "g_str_hash is given a string"); return __CPROVER_uninterpreted_strhash (SID (s)); }
#endif
guint g_direct_hash (gconstpointer p) { return (guint) (gsize) p; }
gboolean g_direct_equal (gconstpointer a, gconstpointer b) { return a == b; }

#ifdef VP_NO_LOG   /* log output is not part of the contract: calls are dropped together with their arguments */
#undef g_debug
#undef g_message
#undef g_warning
#undef g_info
#define g_debug(...)   ((void) 0)
#define g_message(...) ((void) 0)
#define g_warning(...) ((void) 0)
#define g_info(...)    ((void) 0)
#endif
#ifndef VP_OWN_LOG
void g_return_if_fail_warning (const char *d, const char *f, const char *e)
{ CHECK (0, "no precondition check (g_return_if_fail) of the code fails"); }
void g_assertion_message_expr (const char *d, const char *f, int l, const char *fn, const char *e)
{ CHECK (0, "no g_assert of the code fails"); STOP (); }
void g_log (const gchar *d, GLogLevelFlags l, const gchar *f, ...)
{ if (l & G_LOG_LEVEL_ERROR) { CHECK (0, "the code does not abort with g_error"); STOP (); } }
#endif
#endif
