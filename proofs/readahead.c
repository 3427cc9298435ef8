/* C13, C14, C15: readahead.c under contract.  The list of regions is arbitrary and of arbitrary length: `files[..]` of the
 * code is read through vp_at (inserted mechanically, see obligations.py), which yields the region given by unbounded ghost
 * arrays.  Paths are identities (integers in pointers that nothing dereferences). */
#include "common.h"
#include "readahead.h"
#include "log.h"
#include "conf.h"
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/fs.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#define VP_NO_LOG
#define VP_OWN_STRINGS
#include "../lib/glib_base.h"
#ifdef VP_DIV          /* this one obligation alone (it needs a solver of its own) */
#undef CHECK
#undef COVER
#define CHECK(c, t) ((void) 0)
#define COVER(c, t) ((void) 0)
#endif
preload_conf_t conf[1]; int preload_log_level;
#undef errno
static int vp_errno;
#define errno vp_errno
int strcmp (const char *a, const char *b)
{ CHECK (a && b, "strcmp is given two strings"); return (uintptr_t) a == (uintptr_t) b ? 0 : (uintptr_t) a < (uintptr_t) b ? -1 : 1; }

/* ------------------------------------------------------------------ system calls: descriptors, workers, mappings */
static const char *vp_path; static size_t vp_off, vp_len_;       /* the request being made */
static int vp_fds, vp_fd, vp_live, vp_child, vp_forks, vp_eintr, vp_maps, vp_opens, vp_reads, vp_ras, vp_page, vp_req_ok;
static uintptr_t vp_addr; static size_t vp_maplen; static const char *vp_fdpath;
static struct stat vp_st; static int vp_stat_fail, vp_open_fail, vp_ioctl_fail, vp_blockno, vp_ioctls;
#undef open
static int vp_open (const char *p, int flags)
{
  vp_opens++;
  CHECK (vp_fds == 0, "C14.fd: one file is open at a time");
  if (vp_open_fail) return -1;
  CHECK ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "C14.fd: files are opened for reading only");
  HAVOC (vp_fd); ASSUME (vp_fd >= 0);
  vp_fds = 1; vp_fdpath = p;
  return vp_fd;
}
#define open(p, f) vp_open (p, f)
int close (int fd) { CHECK (vp_fds == 1 && fd == vp_fd, "C14.fd: the open file is closed, once"); vp_fds = 0; return nondet_bool () ? 0 : -1; }
#undef fstat
static int vp_fstat (int fd, struct stat *b) { CHECK (vp_fds && fd == vp_fd, "C14.fd: the open file is used"); if (vp_stat_fail) return -1; *b = vp_st; return 0; }
#define fstat(fd, b) vp_fstat (fd, b)
#undef ioctl
static int vp_ioctl (int fd, unsigned long req, int *blk)
{
  CHECK (vp_fds && fd == vp_fd && req == FIBMAP, "C15.block: the open file's block is asked for");
  vp_ioctls++;
#ifdef VP_DIV
  __CPROVER_assert (*blk == (int) (vp_off / vp_st.st_blksize), "C15.block: the block of the region's offset is asked for");
  __CPROVER_assert (0, "VPCOVER: asked");
#endif
  if (vp_ioctl_fail) return -1;
  *blk = vp_blockno; return 0;
}
#define ioctl(fd, r, b) vp_ioctl (fd, r, b)
ssize_t readahead (int fd, off_t off, size_t len)
{
  CHECK (vp_fds && fd == vp_fd, "C14.fd: the open file is read ahead");
  CHECK ((size_t) off == vp_off && len == vp_len_, "C13.range: exactly the requested range is asked for");
  vp_ras++;
  HAVOC (vp_errno);
  if (nondet_bool ()) { vp_req_ok = 1; return 0; }
  return -1;
}
int getpagesize (void) { return vp_page; }
void *mmap (void *a, size_t len, int prot, int flags, int fd, off_t off)
{
  CHECK (vp_fds && fd == vp_fd, "C14.fd: the open file is mapped");
  CHECK (((size_t) off & ((size_t) vp_page - 1)) == 0, "C14.map: mapped from a page boundary");
  CHECK ((len & ((size_t) vp_page - 1)) == 0, "C14.map: whole pages are mapped");
  CHECK (off >= 0 && (size_t) off <= vp_off && (size_t) off + len >= vp_off + vp_len_, "C14.map: the mapping covers the requested range");
  CHECK ((size_t) off + (size_t) vp_page > vp_off && (size_t) off + len < vp_off + vp_len_ + (size_t) vp_page, "C13.map: and no page beside it");
  CHECK (prot == PROT_READ && (flags & MAP_TYPE) == MAP_PRIVATE, "C14.map: mapped for reading only");
  if (nondet_bool ()) return MAP_FAILED;
  CHECK (vp_maps == 0, "C14.map: one mapping at a time"); vp_maps = 1; vp_maplen = len;
  HAVOC (vp_addr); ASSUME (vp_addr != (uintptr_t) MAP_FAILED && (vp_addr & ((size_t) vp_page - 1)) == 0);
  return (void *) vp_addr;
}
int madvise (void *a, size_t len, int adv)
{
  CHECK (vp_maps && (uintptr_t) a == vp_addr && len == vp_maplen && adv == MADV_WILLNEED, "C14.map: the mapped pages are wanted");
  if (nondet_bool ()) { vp_req_ok = 1; return 0; }
  return -1;
}
int munmap (void *a, size_t len)
{ CHECK (vp_maps && (uintptr_t) a == vp_addr && len == vp_maplen, "C14.map: exactly what was mapped is unmapped, once"); vp_maps = 0; return nondet_bool () ? 0 : -1; }

/* ------------------------------------------------------------------ regions */
extern size_t vp_o[__CPROVER_constant_infinity_uint], vp_l[__CPROVER_constant_infinity_uint];
extern uintptr_t vp_p[__CPROVER_constant_infinity_uint];
static preload_map_t **vp_files; static int vp_n;
static preload_map_t vp_cur; static preload_map_t *vp_slot;
#define INR(o, l, b) ((o) <= (b) && (b) - (o) < (l))                  /* byte b in the range */
static int vp_mode, vp_w, vp_reqs; static size_t vp_b; static uintptr_t vp_bp; static _Bool vp_cov;

#if defined VP_MERGE
/* every region short of address overflow; in mode 1 the byte (vp_bp, vp_b) is in none of them */
static preload_map_t **vp_at (preload_map_t **f, int i)
{
  CHECK (f == vp_files && i >= 0 && i < vp_n, "C13.bounds: regions of the list are looked at");
  vp_cur.path = (char *) vp_p[i]; vp_cur.offset = vp_o[i]; vp_cur.length = vp_l[i];
  ASSUME (vp_p[i] != 0 && vp_o[i] < (1ull << 62) && vp_l[i] < (1ull << 62));
  ASSUME (vp_mode != 1 || !(vp_p[i] == vp_bp && INR (vp_o[i], vp_l[i], vp_b)));
  vp_slot = &vp_cur;
  return &vp_slot;
}
long syscall (long n, ...) { return nondet_long (); }
void qsort (void *b, size_t n, size_t s, int (*c) (const void *, const void *)) { }
static void process_file (const char *path, size_t offset, size_t length)
  __CPROVER_requires (vp_mode != 1 || !((uintptr_t) path == vp_bp && INR (offset, length, vp_b)))
  __CPROVER_requires (path != 0 && offset < (1ull << 62) && length < (1ull << 63))
  __CPROVER_assigns (vp_cov, vp_reqs)
  __CPROVER_ensures (vp_reqs == __CPROVER_old (vp_reqs) + 1)
  __CPROVER_ensures (vp_cov == (__CPROVER_old (vp_cov) || ((uintptr_t) path == vp_bp && INR (offset, length, vp_b))));
static void wait_for_children (void) __CPROVER_requires (1) __CPROVER_assigns (vp_live) __CPROVER_ensures (vp_live == 0);
static void sort_files (preload_map_t **files, int file_count)
  __CPROVER_requires (files == vp_files && file_count == vp_n) __CPROVER_assigns (conf->system.sortstrategy) __CPROVER_ensures (1);
#elif defined VP_SORT
/* one arbitrary region is followed through the arranging: its position vp_w and its block */
static int vp_wblk, vp_wlook, vp_looks, vp_curidx, vp_last, vp_sorts, vp_strategy;
static preload_map_t **vp_at (preload_map_t **f, int i)
{
  CHECK (f == vp_files && i >= 0 && i < vp_n, "C15.bounds: regions of the list are looked at");
  if (i != vp_curidx) { HAVOC (vp_cur); if (i == vp_w) vp_cur.block = vp_wblk; }
  vp_curidx = i; vp_slot = &vp_cur;
  return &vp_slot;
}
static void set_block (preload_map_t *file, gboolean use_inode)
  __CPROVER_requires (file == &vp_cur && file->block == -1 && !use_inode == (vp_strategy != SORT_INODE))
  __CPROVER_requires (vp_curidx != vp_w || vp_wlook == 0)
  __CPROVER_assigns (vp_cur.block, vp_wblk, vp_wlook, vp_looks)
  __CPROVER_ensures (file->block != -1 && vp_looks == 1)
  __CPROVER_ensures (vp_curidx == vp_w ? (vp_wblk == file->block && vp_wlook == 1) : (vp_wblk == __CPROVER_old (vp_wblk) && vp_wlook == __CPROVER_old (vp_wlook)));
#define U(p) ((uintptr_t) (p))
#define LESS3(a, b) (U ((a)->path) != U ((b)->path) ? U ((a)->path) < U ((b)->path) : (a)->offset < (b)->offset)
void qsort (void *base, size_t n, size_t size, int (*cmp) (const void *, const void *))
{
  CHECK (base == (void *) vp_files && n == (size_t) (unsigned) vp_n && size == sizeof (preload_map_t *), "C15.whole: the whole list is arranged");
  /* which order is it?  judged by an arbitrary pair of regions */
  preload_map_t x, y; HAVOC (x); HAVOC (y); ASSUME (x.path && y.path);
  preload_map_t *px = &x, *py = &y;
  int r = cmp (&px, &py);
  _Bool path_ok = !LESS3 (px, py) || r < 0, path_ok2 = !LESS3 (py, px) || r > 0;
  _Bool blk_ok = x.block == y.block ? path_ok && path_ok2 : x.block < y.block ? r < 0 : r > 0;
  vp_last = (path_ok && path_ok2 ? 1 : 0) | (blk_ok ? 2 : 0);
  vp_sorts++;
  int w2; HAVOC (w2); ASSUME (w2 >= 0 && w2 < vp_n); vp_w = w2; vp_curidx = -1;       /* a permutation */
}
#else
static preload_map_t **vp_at (preload_map_t **f, int i) { CHECK (0, "not used here"); return 0; }
void qsort (void *b, size_t n, size_t s, int (*c) (const void *, const void *)) { }
long syscall (long n, ...) { return nondet_long (); }
#endif
#if defined VP_PROCESS
static void wait_for_children (void);
#endif
#if !defined VP_MERGE
static int vp_maxprocs;
pid_t fork (void);
pid_t wait (int *st);
void exit (int c) __attribute__ ((noreturn));
#endif
#define VP_INV_WAIT (procs >= 0 && vp_live >= 0 && vp_live <= procs && vp_eintr >= 0)
#include "handling/readahead.c"

#if defined VP_MERGE
static void setup (void)
{
  HAVOC (conf[0]); HAVOC (vp_n); HAVOC (vp_mode); HAVOC (vp_w); HAVOC (vp_b); HAVOC (vp_bp); HAVOC (procs);
  vp_files = malloc (8); vp_cov = 0; vp_reqs = 0; vp_live = 0; vp_slot = &vp_cur;
}
void h_readahead (void)
{
  setup (); ASSUME (vp_n >= 0 && vp_n < 0x7ffffff0);
  if (vp_mode != 1) {
    vp_mode = 0; ASSUME (vp_w >= 0 && vp_w < vp_n && vp_bp == vp_p[vp_w] && INR (vp_o[vp_w], vp_l[vp_w], vp_b));
  } else vp_w = -1;
  int r = preload_readahead (vp_files, vp_n);
  CHECK (r == vp_reqs, "C13.count: the result is the number of requests");
  CHECK (vp_mode != 0 || vp_cov, "C13.cover: every byte of every region is requested");
  CHECK (vp_mode != 1 || !vp_cov, "C13.only: no byte outside the regions is requested");
  CHECK (vp_n > 0 || r == 0, "C13.none: nothing is requested for an empty list");
  CHECK (vp_live == 0, "C14.waited: all workers have been waited for");
  COVER (vp_mode == 0 && r > 1, "several requests"); COVER (vp_mode == 1, "outside"); COVER (vp_n == 0, "empty");
}
#elif defined VP_SORT
void h_sort (void)
{
  HAVOC (conf[0]); HAVOC (vp_n); HAVOC (vp_w); HAVOC (vp_wblk); vp_wlook = vp_looks = vp_last = vp_sorts = 0; vp_slot = &vp_cur; vp_curidx = -1;
  ASSUME (vp_n > 0 && vp_n < 0x7ffffff0 && vp_w >= 0 && vp_w < vp_n);
  int b0 = vp_wblk; vp_strategy = conf->system.sortstrategy; preload_conf_t c0 = conf[0];
  vp_files = malloc (8);
  sort_files (vp_files, vp_n);
  CHECK (vp_strategy != SORT_NONE || vp_sorts == 0, "C15.none: the list is left as it is");
  CHECK (vp_strategy != SORT_PATH || (vp_sorts > 0 && (vp_last & 1)), "C15.path: the list is arranged by path and offset");
  CHECK ((vp_strategy != SORT_BLOCK && vp_strategy != SORT_INODE) || (vp_sorts > 0 && (vp_last & 2)), "C15.block: the list is arranged by position, path and offset");
  CHECK ((vp_strategy != SORT_BLOCK && vp_strategy != SORT_INODE) || vp_wblk != -1, "C15.lookup: every position is known before the arranging");
  CHECK (b0 == -1 || (vp_wblk == b0 && vp_wlook == 0), "C15.once: a known position is not looked up again");
  if (vp_strategy < SORT_NONE || vp_strategy > SORT_BLOCK) {
    CHECK (conf->system.sortstrategy == SORT_BLOCK, "C15.invalid: an invalid strategy is replaced by the default"); }
  else CHECK (conf->system.sortstrategy == vp_strategy, "C15.kept: a valid strategy is kept");
  CHECK (vp_strategy == SORT_BLOCK || vp_strategy == SORT_INODE || vp_looks == 0 || vp_last, "C15.lookup: positions are looked up only for an order that needs them");
  COVER (vp_strategy == SORT_INODE && vp_wlook, "looked up"); COVER (vp_strategy == SORT_PATH, "path"); COVER (vp_strategy > 5, "invalid");
}
#else
pid_t fork (void)
{
  CHECK (vp_maxprocs > 0, "C14.limit: with a limit of zero no worker is made");
  CHECK (!vp_child, "C14.child: a worker makes no workers");
  CHECK (vp_live < vp_maxprocs, "C14.limit: the limit is kept");
  CHECK (vp_fds == 0, "C14.fd: no file is open across a fork");
  vp_forks++;
  pid_t r = nondet_int (); ASSUME (r >= -1);
  if (r == 0) { vp_child = 1; vp_live = 0; }
  if (r > 0) vp_live++;
  return r;
}
/* interrupted finitely often (vp_eintr); others may reap our children; ECHILD only without children */
pid_t wait (int *st)
{
  CHECK (!vp_child, "C14.child: a worker waits for nobody");
  int other = nondet_int (); ASSUME (other >= 0 && other <= vp_live); vp_live -= other;
  if (vp_live == 0) { vp_errno = ECHILD; return -1; }
  if (vp_eintr > 0 && nondet_bool ()) { vp_eintr--; vp_errno = EINTR; return -1; }
  vp_live--; *st = nondet_int (); pid_t r = nondet_int (); ASSUME (r > 0); return r;
}
static void at_end (void);
void exit (int c)
{
  CHECK (vp_child, "C14.daemon: only a worker ends itself");
  CHECK (vp_fds == 0, "C14.fd: every file opened is closed");
  CHECK (vp_maps == 0, "C14.map: every mapping is removed");
  CHECK (vp_opens == 1 && (vp_open_fail || vp_ras == 1), "C13.made: the worker makes the request");
  COVER (vp_ras == 1, "a worker reads");
  STOP (); while (1) ;
}
static void common (void)
{
  HAVOC (conf[0]); HAVOC (procs); HAVOC (vp_path); HAVOC (vp_off); HAVOC (vp_len_); HAVOC (vp_open_fail); HAVOC (vp_eintr); HAVOC (vp_live); HAVOC (vp_page);
  HAVOC (vp_errno);
  vp_fds = vp_child = vp_forks = vp_maps = vp_opens = vp_reads = vp_ras = vp_req_ok = vp_ioctls = 0;
  vp_maxprocs = conf->system.maxprocs;
  ASSUME (vp_page >= 512 && vp_page <= (1 << 20) && (vp_page & (vp_page - 1)) == 0);
  ASSUME (vp_path != 0 && vp_off < (1ull << 62) && vp_len_ < (1ull << 62));
  ASSUME (VP_INV_WAIT && vp_eintr < 1000 && procs < 0x7ffffff0);
  ASSUME (procs <= (vp_maxprocs > 0 ? vp_maxprocs : 0) || procs < 10);   /* the limit may have been lowered by a reload: then workers are waited for first */
}
void h_wait (void)
{
  common ();
  wait_for_children ();
  CHECK (procs == 0 && vp_live == 0, "C14.waited: all workers have been waited for");
  COVER (1, "returns");
}
void h_process (void)
{
  common (); ASSUME (procs <= vp_maxprocs || vp_maxprocs <= 0); ASSUME (vp_maxprocs > 0 || procs == 0);
  process_file (vp_path, vp_off, vp_len_);
  CHECK (!vp_child, "C14.child: a worker never returns into the daemon's work");
  CHECK (VP_INV_WAIT && procs <= (vp_maxprocs > 0 ? vp_maxprocs : 0), "C14.limit: the number of workers is known and within the limit");
  CHECK (vp_fds == 0, "C14.fd: every file opened is closed");
  CHECK (vp_maps == 0, "C14.map: every mapping is removed");
  CHECK (vp_maxprocs > 0 ? vp_forks == 1 && vp_opens == 0 : vp_opens == 1 && (vp_open_fail || vp_ras == 1), "C13.made: the request is made or handed to a worker");
  CHECK (vp_maxprocs > 0 || vp_opens == 0 || vp_open_fail || vp_fdpath == vp_path, "C13.path: the file of the request is opened");
  COVER (vp_maxprocs > 0, "worker"); COVER (vp_maxprocs <= 0 && !vp_open_fail, "direct"); COVER (vp_maxprocs == procs && procs > 3, "at the limit");
}
void h_fallback (void)
{
  common (); vp_fds = 1; HAVOC (vp_fd); ASSUME (vp_fd >= 0);
  int r = try_readahead_with_fallback (vp_fd, vp_off, vp_len_);
  CHECK (vp_fds == 1 && vp_maps == 0, "C14.map: every mapping is removed");
  CHECK (vp_ras == 1, "C13.made: the kernel is asked");
  CHECK ((r == 0) == (vp_req_ok != 0), "C13.result: success is reported iff the kernel took the request");
  COVER (r == 0, "success"); COVER (r != 0, "failure");
}
void h_block (void)
{
  common (); HAVOC (vp_st); HAVOC (vp_stat_fail); HAVOC (vp_ioctl_fail); HAVOC (vp_blockno);
  ASSUME (vp_st.st_blksize > 0 && (int) vp_st.st_ino != -1 && vp_blockno != -1);
  preload_map_t m, m0; HAVOC (m); vp_off = m.offset; m0 = m; _Bool use_inode = nondet_bool ();
  set_block (&m, use_inode);
  CHECK (vp_fds == 0, "C14.fd: every file opened is closed");
  CHECK (m.block != -1, "C15.remembered: a position is looked up once");
  CHECK (vp_opens <= 1 && (vp_opens == 0 || vp_open_fail || vp_fdpath == m0.path), "C15.file: the region's file is looked at");
  if (!vp_open_fail && !vp_stat_fail) {
    _Bool ok = !use_inode && !vp_ioctl_fail && vp_blockno != 0;
    CHECK (!ok || vp_ioctls == 1, "C15.block: the block is asked for");
    CHECK (m.block == (ok ? vp_blockno : (int) vp_st.st_ino), "C15.block: block, or inode where the block cannot be had");
  }
  CHECK (m.path == m0.path && m.offset == m0.offset && m.length == m0.length && m.refcount == m0.refcount && m.update_time == m0.update_time && m.seq == m0.seq, "C15.only: nothing else changes");
  COVER (!vp_open_fail && !vp_stat_fail && use_inode, "inode"); COVER (vp_open_fail, "no file"); COVER (!vp_open_fail && !vp_stat_fail && !use_inode && !vp_ioctl_fail, "block");
}
/* the comparisons are total orders on the keys they stand for */
#define SGN(v) (((v) > 0) - ((v) < 0))
#define U(p) ((uintptr_t) (p))
#define LESS3(a, b) (U ((a).path) != U ((b).path) ? U ((a).path) < U ((b).path) : (a).offset < (b).offset)
#define LESS4(a, b) ((a).block != (b).block ? (a).block < (b).block : LESS3 (a, b))
void h_order (void)
{
  preload_map_t a, b, c; HAVOC (a); HAVOC (b); HAVOC (c); ASSUME (a.path && b.path && c.path);
  const preload_map_t *pa = &a, *pb = &b, *pc = &c;
  int ab = map_path_compare (&pa, &pb), ba = map_path_compare (&pb, &pa), bc = map_path_compare (&pb, &pc), ac = map_path_compare (&pa, &pc);
  CHECK (SGN (ab) == -SGN (ba), "C15.path: the comparison is antisymmetric");
  CHECK (!(ab <= 0 && bc <= 0) || ac <= 0, "C15.path: the comparison is transitive");
  CHECK ((!LESS3 (a, b) || ab < 0) && (!LESS3 (b, a) || ab > 0), "C15.path: by path, then offset");
  ab = map_block_compare (&pa, &pb), ba = map_block_compare (&pb, &pa), bc = map_block_compare (&pb, &pc), ac = map_block_compare (&pa, &pc);
  CHECK (SGN (ab) == -SGN (ba), "C15.block: the comparison is antisymmetric");
  CHECK (!(ab <= 0 && bc <= 0) || ac <= 0, "C15.block: the comparison is transitive");
  CHECK ((!LESS4 (a, b) || ab < 0) && (!LESS4 (b, a) || ab > 0), "C15.block: by position, then path, then offset");
  COVER (ab == 0, "equal"); COVER (ab < 0 && bc < 0, "chain");
}
#endif
