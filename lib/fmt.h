/* An executable contract of snprintf for constant formats made of text, %d, %u and %s (the arguments are small numbers or
 * terminated texts).  Any other conversion is out of the contract (the bundle is then undecided). */
#ifndef FMT_H
#define FMT_H
#include <stdarg.h>
void vp_format_without_contract (void);
static int vp_vsnprintf (char *o, size_t n, const char *f, va_list a)
{
  size_t k = 0;
#define VP_PUT(ch) do { if (k + 1 < n) o[k] = (ch); k++; } while (0)
  for (size_t i = 0; f[i]; i++) {
    if (f[i] != '%') { VP_PUT (f[i]); continue; }
    i++;
    if (f[i] == 'd' || f[i] == 'u') {
      int v = va_arg (a, int);
      if (v < 0 || v > 9999999) vp_format_without_contract ();
      int d = 1; while (d <= v / 10) d *= 10;
      for (; d; d /= 10) VP_PUT ((char) ('0' + v / d % 10));
    } else if (f[i] == 's') { const char *s = va_arg (a, const char *); for (size_t j = 0; s[j]; j++) VP_PUT (s[j]); }
    else vp_format_without_contract ();
  }
  if (n) o[k < n ? k : n - 1] = 0;
  return (int) k;
}
#endif
