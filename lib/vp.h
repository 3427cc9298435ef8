/* Vocabulary of the proofs.  Included after the real headers, before the real sources.
 * Everything here is specification or environment; none of it is code under test. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stdbool.h>

/* a named obligation of a property */
#define CHECK(c, text)   __CPROVER_assert((c), text)
/* vacuity guard: must be reachable with c true (the assertion has to FAIL) */
#define COVER(c, text)   __CPROVER_assert(!(c), "VPCOVER: " text)
#define ASSUME(c)        __CPROVER_assume(c)
#define STOP()           __CPROVER_assume(0)

/* any value (statics start as zero otherwise) */
#define HAVOC(x) do { __typeof__ (x) vp_any; (x) = vp_any; } while (0)

_Bool     nondet_bool (void);
int       nondet_int (void);
unsigned  nondet_uint (void);
long      nondet_long (void);
size_t    nondet_size (void);
uint64_t  nondet_u64 (void);
double    nondet_double (void);
void     *nondet_ptr (void);

/* ---- strings the code only copies, compares and frees: first bytes real, text identity abstract.
 * Two strings have the same text iff their ids agree; ids are ordered like the texts. */
typedef struct { char c[8]; uint64_t id; } vp_str;
#define SID(p) (((const vp_str *)(const void *)(p))->id)
static char *vp_str_new (uint64_t id, char first)
{
  vp_str *s = malloc (sizeof *s);
  ASSUME (s != 0);
  s->c[0] = first;
  s->id = id;
  return (char *) s;
}
#endif
