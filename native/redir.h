/* Accesses to /proc and /sys/class/power_supply go to a scratch directory instead; opened files are counted. */
#ifndef REDIR_H
#define REDIR_H
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
static int rd_open, rd_dirs, rd_fail_read, rd_outside;
static const char *rd (const char *p, char *b)
{
  if (!strncmp (p, "/proc", 5) && (p[5] == '/' || !p[5])) { snprintf (b, 600, "proc%s", p + 5); return b; }
  if (!strncmp (p, "/sys/class/power_supply", 23)) { snprintf (b, 600, "power%s", p + 23); return b; }
  rd_outside++; return p;
}
FILE *__real_fopen (const char *, const char *); int __real_fclose (FILE *); int __real_open (const char *, int, ...); int __real_close (int); DIR *__real_opendir (const char *); int __real_closedir (DIR *);
ssize_t __real_readlink (const char *, char *, size_t); ssize_t __real_read (int, void *, size_t); int __real_access (const char *, int);
FILE *__wrap_fopen (const char *p, const char *m) { char b[600]; FILE *f = __real_fopen (rd (p, b), m); if (f) rd_open++; return f; }
FILE *__wrap_fopen64 (const char *p, const char *m) { return __wrap_fopen (p, m); }
int __wrap_fclose (FILE *f) { rd_open--; return __real_fclose (f); }
int __wrap_open (const char *p, int fl, ...) { char b[600]; int r = __real_open (rd (p, b), fl, 0600); if (r >= 0) rd_open++; return r; }
int __wrap_open64 (const char *p, int fl, ...) { return __wrap_open (p, fl); }
int __wrap_close (int fd) { rd_open--; return __real_close (fd); }
DIR *__wrap_opendir (const char *p) { char b[600]; DIR *d = __real_opendir (rd (p, b)); if (d) rd_dirs++; return d; }
int __wrap_closedir (DIR *d) { rd_dirs--; return __real_closedir (d); }
ssize_t __wrap_readlink (const char *p, char *o, size_t n) { char b[600]; return __real_readlink (rd (p, b), o, n); }
ssize_t __wrap_read (int fd, void *o, size_t n) { if (rd_fail_read) { errno = EIO; return -1; } return __real_read (fd, o, n); }
int __wrap_access (const char *p, int m) { char b[600]; return __real_access (rd (p, b), m); }
gboolean __real_g_file_test (const char *, GFileTest); gboolean __real_g_file_get_contents (const char *, gchar **, gsize *, GError **);
gboolean __wrap_g_file_test (const char *p, GFileTest t) { char b[600]; return __real_g_file_test (rd (p, b), t); }
gboolean __wrap_g_file_get_contents (const char *p, gchar **c, gsize *n, GError **e) { char b[600]; return __real_g_file_get_contents (rd (p, b), c, n, e); }
static void rd_put (const char *p, const char *t, size_t n) { int f = __real_open (p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) abort (); while (n) { ssize_t k = write (f, t, n); if (k <= 0) abort (); t += k; n -= k; } __real_close (f); }
#endif
