/* C13, C14, C15: preload_readahead with recording stand-ins for the system calls; workers are real processes. */
#include "vpn.h"
#include "common.h"
#include "readahead.h"
#include "conf.h"
#include "log.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <linux/fs.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#define MAXR 256
static struct shared { volatile int n, calls; struct { int path; size_t off, len; } r[MAXR]; volatile int escaped; } *sh;
static preload_map_t m[48], *files[48], *given[48]; static int nf, np;
static char paths[6][32] = { "/a/one", "/a/on", "/b", "/b/two", "/zz", "/a/one2" };
static pid_t me; static int live, peak, fds, curfd, curpath, worker, in_ra, mapped; static void *maddr; static size_t mlen, lastoff, lastlen;
static int p_open, p_fork, p_ra, p_wait, p_steal, p_stat, p_ioc, nofork, dropped[6], looked[48], sorts;
static int (*real_q) (void);
pid_t __real_fork (void); pid_t __real_wait (int *); void *__real_mmap (void *, size_t, int, int, int, off_t); int __real_munmap (void *, size_t);
int __real_open (const char *, int, ...); int __real_close (int); void __real_qsort (void *, size_t, size_t, int (*) (const void *, const void *)); void __real_exit (int) __attribute__ ((noreturn));
static int pidx (const char *p) { for (int i = 0; i < 6; i++) if (p == paths[i] || !strcmp (p, paths[i])) return i; return -1; }
static unsigned mix (unsigned a, unsigned b) { unsigned x = a * 2654435761u ^ b * 40503u; x ^= x >> 13; return x * 97u >> 5; }
static int fails_stat (int p) { return p_stat && mix (p, 7) % 3 == 0; }
static int fails_open (int p) { return p_open && mix (p, 11) % 3 == 0; }
static int blk_of (int p, int b) { return mix (p, b + 1) % 50 ? (int) (mix (p, b) % 4000) : 0; }
static int fails_ioc (int p) { return p_ioc && mix (p, 3) % 2; }
static int ino_of (int p) { return 17 + (mix (p, 99) % 300); }
pid_t __wrap_fork (void)
{
  if (!in_ra) return __real_fork ();
  EXPECT (!worker, "C14: a worker makes no workers"); EXPECT (conf->system.maxprocs > 0, "C14: no workers with a limit of zero");
  EXPECT (live < conf->system.maxprocs, "C14: the limit of workers is kept"); EXPECT (fds == 0, "C14: no file open across a fork");
  if (p_fork && chance (30)) { errno = EAGAIN; for (int i = 0; i < 6; i++) dropped[i] = 1; return -1; }
  fflush (stdout);
  pid_t r = __real_fork ();
  if (r == 0) { worker = 1; live = 0; }
  if (r > 0) { live++; if (live > peak) peak = live; }
  return r;
}
static int reap (void)
{ int st; pid_t r = __real_wait (&st); if (r > 0) { live--; if (!WIFEXITED (st) || WEXITSTATUS (st)) vp_fail ("a worker failed (see above) or did not end itself properly"); } return r; }
pid_t __wrap_wait (int *st)
{
  if (p_wait && live && chance (40)) { errno = EINTR; return -1; }
  if (p_steal) while (live && chance (60)) reap ();
  if (!live) { errno = ECHILD; return -1; }
  *st = 0; return reap ();
}
pid_t __wrap_waitpid (pid_t p, int *st, int fl) { return __wrap_wait (st ? st : &(int) { 0 }); }
void __wrap_exit (int c) { if (worker) { if (fds || mapped) vp_fail ("C14: a worker leaves files or mappings behind"); _exit (c); } if (in_ra) vp_fail ("C14: the daemon ended itself"); __real_exit (c); }
void __real__exit (int) __attribute__ ((noreturn));
void __wrap__exit (int c) { if (worker && c == 0 && (fds || mapped)) { printf ("FAIL: a worker leaves files behind\n"); c = 1; fflush (stdout); } __real__exit (c); }
int __wrap_open (const char *p, int fl, ...)
{
  if (!in_ra) return __real_open (p, fl, 0644);
  curpath = pidx (p); EXPECT (curpath >= 0, "C13: only files of the regions are opened"); EXPECT ((fl & O_ACCMODE) == O_RDONLY, "C14: opened for reading");
  EXPECT (fds == 0, "C14: one file at a time");
  if (fails_open (curpath)) { errno = ENOENT; dropped[curpath] = 1; return -1; }
  if (mix (curpath, 77) % 3 == 0 && (fl & O_NOATIME)) ;
  fds = 1; return curfd = 900 + (int) rnd (50);
}
int __wrap_close (int fd) { if (!in_ra) return __real_close (fd); EXPECT (fds == 1 && fd == curfd, "C14: the open file is closed once"); fds = 0; return 0; }
int __wrap_fstat (int fd, struct stat *b)
{ EXPECT (fds && fd == curfd, "C14: open file used"); if (fails_stat (curpath)) { errno = EIO; return -1; } memset (b, 0, sizeof *b); b->st_blksize = 4096; b->st_ino = ino_of (curpath); return 0; }
int __wrap_ioctl (int fd, unsigned long r, ...)
{
  va_list a; va_start (a, r); int *b = va_arg (a, int *); va_end (a);
  EXPECT (fds && fd == curfd && r == FIBMAP, "C15: the block is asked for");
  if (fails_ioc (curpath)) { errno = EPERM; return -1; }
  *b = blk_of (curpath, *b); return 0;
}
static void record (int p, size_t o, size_t l) { int k = __sync_fetch_and_add (&sh->n, 1); if (k < MAXR) { sh->r[k].path = p; sh->r[k].off = o; sh->r[k].len = l; } }
ssize_t __wrap_readahead (int fd, off_t o, size_t l)
{
  EXPECT (fds && fd == curfd, "C14: open file read"); lastoff = o; lastlen = l; __sync_fetch_and_add (&sh->calls, 1);
  if (p_ra && chance (60)) { int e[] = { EINVAL, ENOSYS, EOPNOTSUPP, EIO, EBADF }; errno = e[rnd (5)]; if (errno == EIO || errno == EBADF) record (curpath, o, l); return -1; }   /* asked for, refused */
  record (curpath, o, l); return 0;
}
void *__wrap_mmap (void *a, size_t l, int pr, int fl, int fd, off_t o)
{
  if (!in_ra) return __real_mmap (a, l, pr, fl, fd, o);
  size_t pg = getpagesize ();
  EXPECT (fds && fd == curfd, "C14: open file mapped"); EXPECT (o % pg == 0 && l % pg == 0, "C14: whole pages");
  EXPECT ((size_t) o <= lastoff && o + l >= lastoff + lastlen && o + pg > lastoff && o + l < lastoff + lastlen + pg, "C14: the mapping covers the requested range and no page beside it");
  record (curpath, lastoff, lastlen);
  if (chance (30)) { errno = ENODEV; return MAP_FAILED; }
  EXPECT (!mapped, "C14: one mapping"); mapped = 1; maddr = (void *) (uintptr_t) (0x700000000000ull + rnd (1000) * pg); mlen = l; return maddr;
}
int __wrap_madvise (void *a, size_t l, int v) { EXPECT (mapped && a == maddr && l == mlen && v == MADV_WILLNEED, "C14: the mapped pages are wanted"); if (chance (30)) { errno = EBADF; return -1; } return 0; }
int __wrap_munmap (void *a, size_t l) { if (!in_ra) return __real_munmap (a, l); EXPECT (mapped && a == maddr && l == mlen, "C14: exactly the mapping is removed"); mapped = 0; return 0; }
long __wrap_syscall (long n, ...) { return 0; }
void __wrap_qsort (void *b, size_t n, size_t s, int (*c) (const void *, const void *)) { sorts++; __real_qsort (b, n, s, c); }
static int cmp3 (preload_map_t *a, preload_map_t *b) { int i = strcmp (a->path, b->path); return i ? (i > 0) - (i < 0) : (a->offset > b->offset) - (a->offset < b->offset); }
static int cmpu (const void *a, const void *b) { uintptr_t x = (uintptr_t) * (void **) a, y = (uintptr_t) * (void **) b; return (x > y) - (x < y); }
static size_t pts[2048]; static int npt;
static int cmps (const void *a, const void *b) { size_t x = *(size_t *) a, y = *(size_t *) b; return (x > y) - (x < y); }
static void run (int first)
{
  sh->n = sh->calls = 0; memset (dropped, 0, sizeof dropped); peak = fds = mapped = sorts = 0; live = 0;
  int strat = conf->system.sortstrategy, b0[48]; for (int i = 0; i < nf; i++) b0[i] = m[i].block;
  memcpy (given, files, sizeof files);
  preload_map_t before[48]; memcpy (before, m, sizeof m);
  in_ra = 1;
  int r = preload_readahead (files, nf);
  in_ra = 0;
  if (getpid () != me) { sh->escaped = 1; printf ("FAIL: C14: a worker continued into the daemon's work\ncase %lu: %s\n", vp_case, vp_desc); fflush (stdout); __real__exit (1); }
  EXPECT (live == 0, "C14: every worker has been waited for"); EXPECT (!fds && !mapped, "C14: nothing is left open or mapped"); EXPECT (!sh->escaped, "C14: no worker escaped");
  /* C15 */
  void *x[48], *y[48]; memcpy (x, files, sizeof files); memcpy (y, given, sizeof given);
  __real_qsort (x, nf, sizeof *x, cmpu); __real_qsort (y, nf, sizeof *y, cmpu);
  EXPECT (!memcmp (x, y, nf * sizeof *x), "C15: none lost or duplicated");
  for (int i = 0; i < nf; i++) {
    before[i].block = m[i].block;
    EXPECT (m[i].path == before[i].path && m[i].offset == before[i].offset && m[i].length == before[i].length && m[i].refcount == before[i].refcount && m[i].lnprob == before[i].lnprob, "C15: regions are left as they are");
    if (b0[i] != -1) EXPECT (m[i].block == b0[i], "C15: a position once known is remembered");
    else if (strat == SORT_BLOCK || strat == SORT_INODE) {
      int p = pidx (m[i].path), want;
      if (fails_open (p) || fails_stat (p)) want = 0;
      else { want = 0; if (strat == SORT_BLOCK && !fails_ioc (p)) want = blk_of (p, (int) (m[i].offset / 4096)); if (!want) want = ino_of (p); }
      EXPECT (m[i].block == want, "C15: the position is the block, or the inode where there is no block, or 0 without the file");
    }
  }
  if (strat == SORT_NONE) EXPECT (!memcmp (files, given, nf * sizeof *files), "C15: unchanged");
  for (int i = 0; i + 1 < nf; i++) {
    preload_map_t *a = files[i], *b = files[i + 1];
    if (strat == SORT_PATH) EXPECT (cmp3 (a, b) <= 0, "C15: by path and offset");
    if (strat == SORT_BLOCK || strat == SORT_INODE) EXPECT (a->block < b->block || (a->block == b->block && cmp3 (a, b) <= 0), "C15: by position, path, offset");
  }
  if (strat < SORT_NONE || strat > SORT_BLOCK) EXPECT (conf->system.sortstrategy == SORT_BLOCK, "C15: invalid strategy replaced by the default"); else EXPECT (conf->system.sortstrategy == strat, "C15: strategy kept");
  /* C13 */
  int anydrop = 0; for (int i = 0; i < 6; i++) if (dropped[i] || p_open || p_fork) anydrop = 1;
  if (!anydrop) EXPECT (r == sh->calls, "C13: the result is the number of requests");
  EXPECT (nf > 0 || r == 0, "C13: nothing to do");
  EXPECT (sh->n <= MAXR, "few requests");
  for (int p = 0; p < 6; p++) {
    npt = 0;
    for (int i = 0; i < nf; i++) if (pidx (m[i].path) == p) { pts[npt++] = m[i].offset; pts[npt++] = m[i].offset + m[i].length; }
    for (int i = 0; i < sh->n; i++) if (sh->r[i].path == p) { pts[npt++] = sh->r[i].off; pts[npt++] = sh->r[i].off + sh->r[i].len; }
    __real_qsort (pts, npt, sizeof *pts, cmps);
    for (int k = 0; k + 1 < npt; k++) if (pts[k] < pts[k + 1]) {
      int want = 0, got = 0;
      for (int i = 0; i < nf; i++) if (pidx (m[i].path) == p && m[i].offset <= pts[k] && pts[k] < m[i].offset + m[i].length) want = 1;
      for (int i = 0; i < sh->n; i++) if (sh->r[i].path == p && sh->r[i].off <= pts[k] && pts[k] < sh->r[i].off + sh->r[i].len) got = 1;
      EXPECT (!got || want, "C13: a byte of no region is requested");
      if (!fails_open (p) && !p_fork) EXPECT (got || !want, "C13: a byte of a region is not requested");
    }
  }
}
static void one_case (void)
{
  me = getpid ();
  if (!sh) sh = __real_mmap (0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset ((void *) sh, 0, sizeof *sh);
  p_open = chance (25); p_fork = chance (15); p_ra = chance (30); p_wait = chance (30); p_steal = chance (15); p_stat = chance (25); p_ioc = chance (40);
  conf->system.maxprocs = chance (92) ? 0 : 1 + (int) rnd (4);
  if (chance (4)) conf->system.maxprocs = -1 - (int) rnd (5);
  if (conf->system.maxprocs <= 0) p_fork = 0;
  int st = rnd (10); conf->system.sortstrategy = st < 8 ? st % 4 : st == 8 ? -1 - (int) rnd (3) : 4 + (int) rnd (100);
  nf = rnd (chance (10) ? 40 : 7); np = 1 + rnd (5); if (conf->system.maxprocs > 0 && nf > 8) nf = 8;
  memset (m, 0, sizeof m);
  size_t unit = chance (50) ? 4096 : chance (50) ? 1 : 1000003; size_t base = chance (80) ? 0 : (size_t) 1 << (20 + rnd (42)); if (base >= (1ull << 62)) base = 1ull << 61;
  note ("procs=%d strategy=%d faults open%d fork%d ra%d wait%d steal%d stat%d ioctl%d:", conf->system.maxprocs, conf->system.sortstrategy, p_open, p_fork, p_ra, p_wait, p_steal, p_stat, p_ioc);
  for (int i = 0; i < nf; i++) {
    m[i].path = paths[rnd (np)]; m[i].offset = base + unit * rnd (12); m[i].length = unit * rnd (7) + (chance (80) ? 0 : rnd (3)); m[i].refcount = 1 + i; m[i].lnprob = -i;
    if (chance (5)) m[i].length = (size_t) 1 << rnd (62);
    if (chance (4)) m[i].offset = (size_t) 1 << (20 + rnd (42));
    m[i].block = chance (60) ? -1 : (int) rnd (4000); if (chance (3)) m[i].block = chance (50) ? 2147483647 : -2147483647;
    files[i] = &m[i]; note (" %s+%zu:%zu(%d)", m[i].path, m[i].offset, m[i].length, m[i].block);
  }
  run (1);
  if (chance (30)) { note (" again"); run (0); }
}
