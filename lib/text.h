/* Executable contracts of printf and scanf on lines of text, exact for every value: a line is an array of cells; a cell is a
 * character, or stands for one printed number or one abstract text, whose value is kept beside it.  Formats are interpreted
 * as the C library does; a conversion outside the contract makes the bundle undecided.  Not variadic: the macros pass each
 * argument together with its type, so that a conversion that does not fit the type of its argument is found.
 * VP_TEXT_ANY: scanning instead yields arbitrary values and stops anywhere (an arbitrary line). */
#ifndef VP_TEXT_H
#define VP_TEXT_H
void vp_format_without_contract (void);
#ifndef VP_CELLS
#define VP_CELLS 80
#endif
#define VP_TOKEN '\001'
enum { T_INT = 1, T_REAL, T_TEXT };
typedef struct { int kind; _Bool uns; int base, digits; uint64_t v; double r; const void *text; } vp_tok;
typedef struct { char c[VP_CELLS]; vp_tok t[VP_CELLS]; } vp_line;
typedef struct { int kind, size; uint64_t v; double r; void *p; size_t room; } vp_arg;
static vp_arg vp_ai (long v, int size) { vp_arg a = { T_INT, size, (uint64_t) v, 0, 0, 0 }; return a; }
static vp_arg vp_ar (double r, int size) { vp_arg a = { T_REAL, 8, 0, r, 0, 0 }; return a; }
static vp_arg vp_as (const char *s, int size) { vp_arg a = { T_TEXT, 8, 0, 0, (void *) s, 0 }; return a; }
static vp_arg vp_pi (void *p, size_t size) { vp_arg a = { T_INT, (int) size, 0, 0, p, 0 }; return a; }
static vp_arg vp_pr (void *p, size_t size) { vp_arg a = { T_REAL, (int) size, 0, 0, p, 0 }; return a; }
static vp_arg vp_ps (void *p, size_t room) { vp_arg a = { T_TEXT, 1, 0, 0, p, room }; return a; }
#define VP_PA(x) _Generic ((x) + 0, char *: vp_as, const char *: vp_as, double: vp_ar, float: vp_ar, default: vp_ai) ((x), sizeof ((x) + 0))
#define VP_SA(x) _Generic ((x) + 0, char *: vp_ps, double *: vp_pr, float *: vp_pr, default: vp_pi) ((x), _Generic ((x) + 0, char *: sizeof (x), default: sizeof (*(x))))
#define VP_N_(a, b, c, d, e, f, g, h, i, n, ...) n
#define VP_N(...) VP_N_ (__VA_ARGS__, 9, 8, 7, 6, 5, 4, 3, 2, 1)
#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_ (a, b)
#define VP_F1(M, f) f, 0, (vp_arg[1]) { { 0 } }
#define VP_F2(M, f, a) f, 1, (vp_arg[1]) { M (a) }
#define VP_F3(M, f, a, b) f, 2, (vp_arg[2]) { M (a), M (b) }
#define VP_F4(M, f, a, b, c) f, 3, (vp_arg[3]) { M (a), M (b), M (c) }
#define VP_F5(M, f, a, b, c, d) f, 4, (vp_arg[4]) { M (a), M (b), M (c), M (d) }
#define VP_F6(M, f, a, b, c, d, e) f, 5, (vp_arg[5]) { M (a), M (b), M (c), M (d), M (e) }
#define VP_F7(M, f, a, b, c, d, e, g) f, 6, (vp_arg[6]) { M (a), M (b), M (c), M (d), M (e), M (g) }
#define VP_F8(M, f, a, b, c, d, e, g, h) f, 7, (vp_arg[7]) { M (a), M (b), M (c), M (d), M (e), M (g), M (h) }
#define VP_F9(M, f, a, b, c, d, e, g, h, i) f, 8, (vp_arg[8]) { M (a), M (b), M (c), M (d), M (e), M (g), M (h), M (i) }
#define VP_FMT(M, ...) VP_CAT (VP_F, VP_N (__VA_ARGS__)) (M, __VA_ARGS__)
#define VP_SPACE(ch) ((ch) == ' ' || (ch) == '\t' || (ch) == '\n' || (ch) == '\r' || (ch) == '\v' || (ch) == '\f')
#define VP_DIGIT(ch) ((ch) >= '0' && (ch) <= '9')
typedef struct { _Bool skip; int width, len; char conv; } vp_conv;   /* len: size of the number converted */
static int vp_directive (const char *f, int i, vp_conv *c, int scan)  /* f[i] follows the %; returns the index after the conversion */
{
  c->skip = 0; c->width = 0; c->len = 4; int dbl = scan ? 4 : 8;
  if (f[i] == '*') { c->skip = 1; i++; }
  while (VP_DIGIT (f[i])) { c->width = c->width * 10 + (f[i] - '0'); i++; }
  if (f[i] == '.') { c->width = 0; i++; while (VP_DIGIT (f[i])) { c->width = c->width * 10 + (f[i] - '0'); i++; } if (scan) vp_format_without_contract (); c->len = -1; }
  int prec = c->len == -1; c->len = 4;
  if (f[i] == 'h') { c->len = 2; i++; if (f[i] == 'h') { c->len = 1; i++; } }
  else if (f[i] == 'l') { c->len = 8; dbl = 8; i++; if (f[i] == 'l') i++; }
  else if (f[i] == 'j' || f[i] == 'z' || f[i] == 't' || f[i] == 'q') { c->len = 8; i++; }
  c->conv = f[i];
  if (c->conv == 'g' || c->conv == 'e' || c->conv == 'f') c->len = dbl;
  if (c->conv == 'i') c->conv = 'd';
  if (!scan && c->width && !prec) vp_format_without_contract ();
  if (!scan && !prec && (c->conv == 'g' || c->conv == 'e' || c->conv == 'f')) c->width = 6;
  if (!scan && prec && c->conv != 'g' && c->conv != 'e' && c->conv != 'f') vp_format_without_contract ();
  return i + 1;
}
static vp_tok vp_integer (uint64_t v, int size, char conv)
{
  vp_tok t = { T_INT, conv != 'd', conv == 'x' ? 16 : conv == 'o' ? 8 : 10, 0, v, 0, 0 };
  if (size == 4) t.v = conv == 'd' ? (uint64_t) (long) (int) (uint32_t) v : (uint32_t) v;
  else if (size < 4) vp_format_without_contract ();
  return t;
}
/* prints behind *n cells; the caller ends the line */
static void vp_print (vp_line *o, int *n, const char *f, int na, vp_arg *a)
{
  int k = 0;
  for (int i = 0; f[i]; ) {
    if (f[i] != '%') { o->c[(*n)++] = f[i++]; continue; }
    if (f[i + 1] == '%') { o->c[(*n)++] = '%'; i += 2; continue; }
    vp_conv c; i = vp_directive (f, i + 1, &c, 0);
    if (k >= na) { CHECK (0, "print: an argument for every conversion"); STOP (); }
    if (c.conv == 'd' || c.conv == 'u' || c.conv == 'x' || c.conv == 'o') {
      CHECK (a[k].kind == T_INT && (a[k].size == 8) == (c.len == 8), "print: the conversion fits the type of the value");
      o->t[*n] = vp_integer (a[k].v, c.len, c.conv); o->c[(*n)++] = VP_TOKEN;
    } else if (c.conv == 'g' || c.conv == 'e' || c.conv == 'f') {
      CHECK (a[k].kind == T_REAL && c.len == 8, "print: the conversion fits the type of the value");
      vp_tok t = { T_REAL, 0, 10, c.conv == 'f' ? -1 - c.width : c.conv == 'e' ? c.width + 1 : c.width, 0, a[k].r, 0 }; o->t[*n] = t; o->c[(*n)++] = VP_TOKEN;
    } else if (c.conv == 's') {
      CHECK (a[k].kind == T_TEXT && a[k].p != 0, "print: the conversion fits the type of the value");
      const char *s = a[k].p;
      if (s[0] == VP_TOKEN) { vp_tok t = { T_TEXT, 0, 10, 0, 0, 0, s }; o->t[*n] = t; o->c[(*n)++] = VP_TOKEN; }     /* an abstract text */
      else for (int j = 0; s[j]; j++) o->c[(*n)++] = s[j];
    } else vp_format_without_contract ();
    k++;
  }
}
#ifndef VP_TEXT_ANY
double __CPROVER_uninterpreted_round (double r, int digits);   /* the number that is read when r was printed with that many digits */
static struct { void *to; const void *text; } vp_got;          /* the abstract text scanned last, and where it was put */
#define VP_TEXT_MAX (7 + 3 * (FILELEN - 1))                    /* file:// and every byte escaped */
static void vp_store (vp_arg *a, int len, uint64_t v)
{
  CHECK (a->kind == T_INT && a->size == len, "scan: the variable has the size of the conversion");
  if (len == 8) *(uint64_t *) a->p = v; else if (len == 4) *(uint32_t *) a->p = (uint32_t) v; else vp_format_without_contract ();
}
static int vp_scan (vp_line *l, int at, const char *f, int na, vp_arg *a)
{
  int k = 0, got = 0, p = at;
  for (int i = 0; f[i]; ) {
    if (VP_SPACE (f[i])) { while (VP_SPACE (l->c[p])) p++; i++; continue; }
    if (f[i] != '%') { if (l->c[p] != f[i]) return got; p++; i++; continue; }
    vp_conv c; i = vp_directive (f, i + 1, &c, 1);
    if (!c.skip && k >= na) { CHECK (0, "scan: a variable for every conversion"); STOP (); }
    if (c.conv == 'n') { vp_store (&a[k++], c.len, (uint64_t) (p - at)); continue; }
    if (c.conv == '[') {
      if (f[i] != '^' || !f[i + 1] || f[i + 2] != ']' || !c.skip || c.width) { vp_format_without_contract (); return got; }
      char end = f[i + 1]; i += 3; int q = p; while (l->c[p] && l->c[p] != end) p++; if (p == q) return got; continue;
    }
    while (VP_SPACE (l->c[p])) p++;
    if (!l->c[p]) return got ? got : -1;
    if (c.conv == 's') {
      if (c.skip) { vp_format_without_contract (); return got; }
      char *d = a[k].p; size_t room = a[k].room;
      CHECK (a[k].kind == T_TEXT && c.width > 0 && (size_t) c.width < room, "scan: the text fits into its buffer");
      if (l->c[p] == VP_TOKEN && l->t[p].kind == T_TEXT) {
        CHECK (c.width >= VP_TEXT_MAX, "scan: a text of any length is read whole"); CHECK (!l->c[p + 1] || VP_SPACE (l->c[p + 1]), "scan: the text ends where it ended");
        d[0] = VP_TOKEN; d[1] = 0; vp_got.to = d; vp_got.text = l->t[p].text; p++;
      } else { int j = 0; while (l->c[p] && !VP_SPACE (l->c[p]) && j < c.width) d[j++] = l->c[p++]; d[j] = 0; }
      k++; got++; continue;
    }
    if (c.width) { vp_format_without_contract (); return got; }
    if (c.conv == 'd' || c.conv == 'u' || c.conv == 'x') {
      uint64_t v; int sign = 0;
      if (l->c[p] == VP_TOKEN) {
        if (l->t[p].kind != T_INT || l->t[p].base != (c.conv == 'x' ? 16 : 10)) return got;
        v = l->t[p].v; if (c.conv == 'd' && l->t[p].uns && v >> 63) v = (uint64_t) -1 >> 1;
        p++; CHECK (l->c[p] != VP_TOKEN && !VP_DIGIT (l->c[p]), "scan: the number ends where it ended");
      } else {
        if (c.conv == 'x') { vp_format_without_contract (); return got; }
        if (l->c[p] == '-') { sign = 1; p++; } if (!VP_DIGIT (l->c[p])) return got;
        for (v = 0; VP_DIGIT (l->c[p]); p++) v = v * 10 + (uint64_t) (l->c[p] - '0');
        if (sign) v = 0 - v;
      }
      if (!c.skip) { vp_store (&a[k++], c.len, v); got++; }
    } else if (c.conv == 'g' || c.conv == 'e' || c.conv == 'f') {
      double r;
      if (l->c[p] != VP_TOKEN) { vp_format_without_contract (); return got; }
      if (l->t[p].kind == T_REAL) { r = __CPROVER_uninterpreted_round (l->t[p].r, l->t[p].digits); ASSUME (r == r); }
      else if (l->t[p].kind == T_INT && l->t[p].base == 10) r = l->t[p].uns ? (double) l->t[p].v : (double) (int64_t) l->t[p].v;
      else return got;
      p++; CHECK (l->c[p] != VP_TOKEN && !VP_DIGIT (l->c[p]), "scan: the number ends where it ended");
      if (!c.skip) { CHECK (a[k].kind == T_REAL && a[k].size == c.len, "scan: the variable has the size of the conversion"); if (c.len == 8) *(double *) a[k].p = r; else *(float *) a[k].p = (float) r; k++; got++; }
    } else { vp_format_without_contract (); return got; }
  }
  return got;
}
#endif
#endif
