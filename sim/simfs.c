// Preloaded into the generator (and every process it starts): puts the file
// system, the clock, randomness, identity and memory placement under the
// simulator.  All decisions come from a control block in a shared file named by
// VSIM_CTL, written by lib/fsim.py; what happened is recorded in the same block.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

enum { F_ERRNO = 1, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN_CRASH, F_TORN_ERROR, F_FULL, F_SIGINT };
enum { O_SHUFFLE = 1, O_CLOCK = 2, O_PLACE = 4, O_RANDOM = 8, O_IDENT = 16 };
#define NF 32
#define LOGSZ (4u << 20)

struct fault { uint32_t ord, kind, arg, fired; };
struct ctl {
  uint32_t magic, opts;
  uint64_t seed;
  int64_t clock_ns, clock_step;
  uint32_t nfaults, full;      // full: sticky "disk full"
  int32_t driver_sid;          // session of the driver: never signalled
  uint32_t umask_, cpu_s, ncpu; // process set-up; umask_ 0xffff: leave
  struct fault f[NF];
  char root[512];
  // results
  uint32_t ops, crashed;
  uint64_t hash;
  uint32_t loglen, procs;
  uint64_t rnd, dirs, clocks, randoms, places;
  char log[LOGSZ];             // "<class> <relative path>\n" per operation
};

static struct ctl *C;
static size_t rootlen;

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

__attribute__((constructor)) static void init(void) {
  const char *p = getenv("VSIM_CTL");
  if (!p) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC);
  if (fd < 0) return;
  void *m = (void *)syscall(SYS_mmap, 0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED || ((struct ctl *)m)->magic != 0x5653494d) return;
  C = m; rootlen = strlen(C->root); C->procs++;
  if (C->umask_ != 0xffff) umask((mode_t)C->umask_);
  if (C->cpu_s) { struct rlimit l = {C->cpu_s, C->cpu_s + 1}; setrlimit(RLIMIT_CPU, &l); }
  if (C->ncpu) { cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); unsigned n = 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs) && ++n > C->ncpu) CPU_CLR(i, &cs); sched_setaffinity(0, sizeof cs, &cs); }
}

static uint64_t rnd(void) { C->rnd++; return mix(C->seed ^ 0xabcdef, C->rnd); }

// path -> absolute, lexically normalised; returns the part below the root or NULL
static const char *below(int dirfd, const char *path, char *buf, size_t n) {
  char raw[8192], out[8192];
  if (!C || !path) return 0;
  if (path[0] == '/') snprintf(raw, sizeof raw, "%s", path);
  else {
    char cwd[4096];
    if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return 0; }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, cwd, sizeof cwd - 1);
      if (k < 0) return 0;
      cwd[k] = 0;
    }
    snprintf(raw, sizeof raw, "%s/%s", cwd, path);
  }
  size_t o = 0;
  for (char *s = raw; *s;) {
    while (*s == '/') s++;
    char *e = s; while (*e && *e != '/') e++;
    size_t k = (size_t)(e - s);
    if (k == 0) break;
    if (k == 1 && s[0] == '.') {}
    else if (k == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/') {} }
    else { out[o++] = '/'; memcpy(out + o, s, k); o += k; }
    s = e;
  }
  out[o] = 0;
  if (strncmp(out, C->root, rootlen) || (out[rootlen] != '/' && out[rootlen] != 0)) return 0;
  snprintf(buf, n, "%s", out[rootlen] ? out + rootlen + 1 : ".");
  return buf;
}
static const char *fdpath(int fd, char *buf, size_t n) {
  char l[64], t[4096];
  if (!C) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, t, sizeof t - 1);
  if (k <= 0 || t[0] != '/') return 0;
  t[k] = 0;
  return below(AT_FDCWD, t, buf, n);
}

static void note(char cls, const char *rel) {
  uint32_t k = (uint32_t)strlen(rel) + 3;
  C->hash = mix(C->hash, mix((uint64_t)cls, hstr(rel)));
  if (C->loglen + k < LOGSZ) { char *q = C->log + C->loglen; q[0] = cls; q[1] = ' '; memcpy(q + 2, rel, k - 3); q[k - 1] = '\n'; C->loglen += k; }
}
static void die(void) { C->crashed = 1; __sync_synchronize(); syscall(SYS_kill, getpid() > 0 ? (pid_t)syscall(SYS_getpid) : 0, SIGKILL); for (;;) {} }
static void die_all(void) { C->crashed = 1; if (syscall(SYS_getsid, 0) != C->driver_sid) syscall(SYS_kill, 0, SIGKILL); die(); }

// an operation below the root: returns the fault that strikes it, if any
static struct fault *op(char cls, const char *rel) {
  uint32_t k = C->ops++;
  note(cls, rel);
  for (uint32_t i = 0; i < C->nfaults; i++)
    if (C->f[i].ord == k) {
      struct fault *f = &C->f[i];
      f->fired = 1;
      C->hash = mix(C->hash, f->kind * 1000 + f->arg);
      if (f->kind == F_CRASH_BEFORE) die_all();
      if (f->kind == F_FULL) { C->full = 1; }
      if (f->kind == F_SIGINT) { syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGINT); return 0; }
      return f;
    }
  return 0;
}
static void after(struct fault *f) { if (f && f->kind == F_CRASH_AFTER) die_all(); }
// plain operation that either fails or not
static int fails(struct fault *f, int creates) {
  if (f && (f->kind == F_ERRNO || f->kind == F_TORN_ERROR || f->kind == F_SHORT)) { errno = f->kind == F_ERRNO ? (int)f->arg : EIO; if (f->kind == F_SHORT) return 0; return 1; }
  if (f && f->kind == F_TORN_CRASH) die_all();
  if (C->full && creates) { errno = ENOSPC; return 1; }
  return 0;
}

// ---------------------------------------------------------------------- open
static int exists(int d, const char *p) { struct stat st; return syscall(SYS_newfstatat, d, p, &st, 0) == 0; }
static int do_open(int d, const char *path, int flags, mode_t mode) {
  char b[8192]; const char *rel = below(d, path, b, sizeof b);
  struct fault *f = 0;
  if (rel) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    int creates = w && (flags & O_CREAT) && !exists(d, path);
    f = op((flags & O_DIRECTORY) ? 'd' : creates ? 'C' : w ? ((flags & O_TRUNC) ? 'T' : 'A') : 'r', rel);
    if (fails(f, creates)) return -1;
  }
  else if (C && path && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))) {
    char w[8192]; // a write outside the tree: recorded for the driver to judge
    char root[512]; memcpy(root, C->root, sizeof root);
    size_t rl = rootlen; C->root[0] = 0; rootlen = 0;
    const char *abs = below(d, path, w, sizeof w);
    memcpy(C->root, root, sizeof root); rootlen = rl;
    if (abs && strncmp(abs, "dev/", 4) && strncmp(abs, "proc/", 5)) note('E', abs);
  }
  int r = (int)syscall(SYS_openat, d, path, flags, mode);
  if (rel) { int e = errno; after(f); errno = e; }
  return r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static FILE *do_fopen(const char *p, const char *m, FILE *(*real)(const char *, const char *)) {
  char b[8192]; const char *rel = below(AT_FDCWD, p, b, sizeof b);
  if (!rel) return real(p, m);
  struct fault *f = op(strpbrk(m, "wa+") ? 'C' : 'r', rel);
  if (fails(f, strpbrk(m, "wa") != 0)) return 0;
  return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen)); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen64)); }

// --------------------------------------------------------------------- write
ssize_t write(int fd, const void *buf, size_t n) {
  char b[8192]; const char *rel = fd >= 0 && C ? fdpath(fd, b, sizeof b) : 0;
  if (!rel) return syscall(SYS_write, fd, buf, n);
  struct fault *f = op('W', rel);
  if (f) switch (f->kind) {
    case F_ERRNO: errno = (int)f->arg; return -1;
    case F_SHORT: if (n > 1) n = 1 + (size_t)((uint64_t)(n - 1) * f->arg / 256); break;
    case F_TORN_CRASH: { size_t k = (size_t)((uint64_t)n * f->arg / 256); if (k) syscall(SYS_write, fd, buf, k); die_all(); }
    case F_TORN_ERROR: { C->full = 1; size_t k = (size_t)((uint64_t)n * f->arg / 256); if (k) return syscall(SYS_write, fd, buf, k); errno = ENOSPC; return -1; }
  }
  if (C->full && (!f || f->kind != F_TORN_ERROR)) { errno = ENOSPC; return -1; }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  int e = errno; after(f); errno = e;
  return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
  char b[8192]; const char *rel = fdpath(fd, b, sizeof b);
  if (rel) { struct fault *f = op('W', rel); if (fails(f, 1)) return -1; }
  return syscall(SYS_pwrite64, fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  char b[8192]; const char *rel = fdpath(fd, b, sizeof b);
  if (rel) { struct fault *f = op('W', rel); if (fails(f, 1)) return -1; }
  return syscall(SYS_writev, fd, v, c);
}
static ssize_t copyop(int out, int in, off64_t *off, size_t n, int which, off64_t *offout, unsigned flags) {
  char b[8192]; const char *rel = fdpath(out, b, sizeof b);
  struct fault *f = 0;
  if (rel) {
    f = op('W', rel);
    if (f && f->kind == F_SHORT) n = n > 65536 ? 65536 : n > 1 ? n / 2 : n;
    else if (f && f->kind == F_TORN_CRASH) { n = (size_t)((uint64_t)(n > 4096 ? 4096 : n) * f->arg / 256); if (n) syscall(SYS_sendfile, out, in, off, n); die_all(); }
    else if (f && f->kind == F_TORN_ERROR) { C->full = 1; n = (size_t)((uint64_t)(n > 4096 ? 4096 : n) * f->arg / 256); if (!n) { errno = ENOSPC; return -1; } return syscall(SYS_sendfile, out, in, off, n); }
    else if (fails(f, 1)) return -1;
  }
  ssize_t r = which ? syscall(SYS_copy_file_range, in, off, out, offout, n, flags) : syscall(SYS_sendfile, out, in, off, n);
  if (rel) { int e = errno; after(f); errno = e; }
  return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return copyop(out, in, off, n, 0, 0, 0); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return copyop(out, in, off, n, 0, 0, 0); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) { return copyop(out, in, oi, n, 1, oo, fl); }
int close(int fd) {
  char b[8192];
  const char *rel = 0;
  if (C && fd > 2) { int fl = (int)syscall(SYS_fcntl, fd, F_GETFL); if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) rel = fdpath(fd, b, sizeof b); }
  if (!rel) return (int)syscall(SYS_close, fd);
  struct fault *f = op('X', rel);
  int r = (int)syscall(SYS_close, fd);
  if (f && f->kind == F_ERRNO) { errno = (int)f->arg; return -1; }
  int e = errno; after(f); errno = e;
  return r;
}
#define FDOP(name, cls, args, call, creates) \
  int name args { char b[8192]; const char *rel = fdpath(fd, b, sizeof b); struct fault *f = 0; if (rel) { f = op(cls, rel); if (fails(f, creates)) return -1; } int r = (int)(call); if (rel) { int e = errno; after(f); errno = e; } return r; }
FDOP(ftruncate, 'U', (int fd, off_t n), syscall(SYS_ftruncate, fd, n), 0)
FDOP(ftruncate64, 'U', (int fd, off64_t n), syscall(SYS_ftruncate, fd, n), 0)
FDOP(fsync, 'F', (int fd), 0, 0)
FDOP(fdatasync, 'F', (int fd), 0, 0)
FDOP(fchmod, 'M', (int fd, mode_t m), syscall(SYS_fchmod, fd, m), 0)
FDOP(posix_fallocate, 'U', (int fd, off_t o, off_t n), syscall(SYS_fallocate, fd, 0, o, n), 1)

#define PATHOP(name, cls, args, dir, path, call, creates) \
  int name args { char b[8192]; const char *rel = below(dir, path, b, sizeof b); struct fault *f = 0; if (rel) { f = op(cls, rel); if (fails(f, creates)) return -1; } int r = (int)(call); if (rel) { int e = errno; after(f); errno = e; } return r; }
PATHOP(mkdir, 'K', (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_mkdirat, AT_FDCWD, p, m), 1)
PATHOP(mkdirat, 'K', (int d, const char *p, mode_t m), d, p, syscall(SYS_mkdirat, d, p, m), 1)
PATHOP(rename, 'N', (const char *o, const char *p), AT_FDCWD, p, syscall(SYS_renameat2, AT_FDCWD, o, AT_FDCWD, p, 0), 1)
PATHOP(renameat, 'N', (int d1, const char *o, int d, const char *p), d, p, syscall(SYS_renameat2, d1, o, d, p, 0), 1)
PATHOP(unlink, 'R', (const char *p), AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0), 0)
PATHOP(unlinkat, 'R', (int d, const char *p, int fl), d, p, syscall(SYS_unlinkat, d, p, fl), 0)
PATHOP(rmdir, 'R', (const char *p), AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR), 0)
PATHOP(remove, 'R', (const char *p), AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0) == 0 ? 0 : errno == EISDIR ? syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : -1, 0)
PATHOP(symlink, 'S', (const char *t, const char *p), AT_FDCWD, p, syscall(SYS_symlinkat, t, AT_FDCWD, p), 1)
PATHOP(link, 'S', (const char *t, const char *p), AT_FDCWD, p, syscall(SYS_linkat, AT_FDCWD, t, AT_FDCWD, p, 0), 1)
PATHOP(truncate, 'U', (const char *p, off_t n), AT_FDCWD, p, syscall(SYS_truncate, p, n), 0)
PATHOP(chmod, 'M', (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_fchmodat, AT_FDCWD, p, m), 0)

// ----------------------------------------------------------- directory order
struct snap { DIR *d; struct dirent64 *e; size_t n, i; struct snap *next; };
static struct snap *snaps;
static int bynm(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
DIR *opendir(const char *p) {
  char b[8192]; const char *rel = below(AT_FDCWD, p, b, sizeof b);
  if (rel) { struct fault *f = op('d', rel); if (fails(f, 0)) return 0; }
  return REAL(opendir)(p);
}
static struct snap *take(DIR *d) {
  for (struct snap *s = snaps; s; s = s->next) if (s->d == d) return s;
  char b[8192]; const char *rel = C && (C->opts & O_SHUFFLE) ? fdpath(dirfd(d), b, sizeof b) : 0;
  if (!rel) return 0;
  struct snap *s = calloc(1, sizeof *s);
  struct dirent64 *e; size_t cap = 0;
  int er = errno; errno = 0;
  while ((e = REAL(readdir64)(d))) {
    if (s->n == cap) s->e = realloc(s->e, (cap = cap ? 2 * cap : 64) * sizeof *e);
    memset(&s->e[s->n], 0, sizeof *e); memcpy(&s->e[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
  }
  errno = er;
  qsort(s->e, s->n, sizeof *s->e, bynm);
  uint64_t h = mix(C->seed, hstr(rel));
  for (size_t i = s->n; i > 1; i--) { size_t j = (size_t)(mix(h, i) % i); struct dirent64 t = s->e[i - 1]; s->e[i - 1] = s->e[j]; s->e[j] = t; }
  s->d = d; s->next = snaps; snaps = s; C->dirs++;
  return s;
}
struct dirent64 *readdir64(DIR *d) { struct snap *s = take(d); if (!s) return REAL(readdir64)(d); return s->i < s->n ? &s->e[s->i++] : 0; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { struct snap *s = take(d); if (s) s->i = 0; REAL(rewinddir)(d); }
int closedir(DIR *d) {
  for (struct snap **p = &snaps; *p; p = &(*p)->next) if ((*p)->d == d) { struct snap *s = *p; *p = s->next; free(s->e); free(s); break; }
  return REAL(closedir)(d);
}

// ------------------------------------------------- clock, randomness, identity
static int64_t tick(void) { C->clocks++; int64_t s = C->clock_step; C->clock_ns += s ? s + (int64_t)(mix(C->seed, C->clocks) % 1000) : 1000; return C->clock_ns; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!C || !(C->opts & O_CLOCK) || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE)) return (int)syscall(SYS_clock_gettime, c, t);
  int64_t n = tick(); if (c == CLOCK_MONOTONIC) n &= 0x7ffffffffffll << 8 | 0xff;
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  if (!C || !(C->opts & O_CLOCK)) return (int)syscall(SYS_gettimeofday, t, 0);
  int64_t n = tick(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0;
}
time_t time(time_t *t) {
  time_t r;
  if (!C || !(C->opts & O_CLOCK)) r = (time_t)syscall(SYS_time, 0); else r = (time_t)(tick() / 1000000000);
  if (t) *t = r;
  return r;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (!C || !(C->opts & O_RANDOM)) return syscall(SYS_getrandom, p, n, fl);
  C->randoms++;
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rnd();
  return (ssize_t)n;
}
int getentropy(void *p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
int uname(struct utsname *u) {
  int r = (int)syscall(SYS_uname, u);
  if (C && (C->opts & O_IDENT)) { snprintf(u->nodename, sizeof u->nodename, "node%llu", (unsigned long long)(mix(C->seed, 77) % 1000)); snprintf(u->release, sizeof u->release, "%llu.1.0-sim", (unsigned long long)(3 + mix(C->seed, 78) % 4)); }
  return r;
}
int gethostname(char *s, size_t n) {
  if (!C || !(C->opts & O_IDENT)) return REAL(gethostname)(s, n);
  snprintf(s, n, "node%llu", (unsigned long long)(mix(C->seed, 77) % 1000)); return 0;
}
pid_t getpid(void) { return C && (C->opts & O_IDENT) ? (pid_t)(2 + mix(C->seed, 79) % 30000) : (pid_t)syscall(SYS_getpid); }

// ------------------------------------------------------------ memory placement
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
  if (C && (C->opts & O_PLACE) && !a && (fl & MAP_ANONYMOUS) && n >= (1u << 18)) {
    for (int t = 0; t < 8; t++) {
      void *h = (void *)(0x200000000000ull + (mix(C->seed, 1000 + C->places++) % 65536 << 24));
      void *r = (void *)syscall(SYS_mmap, h, n, prot, fl | MAP_FIXED_NOREPLACE, fd, o);
      if (r != MAP_FAILED) return r;
    }
  }
  return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return mmap(a, n, prot, fl, fd, o); }
