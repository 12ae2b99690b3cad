// LD_PRELOAD shim: fault injection and tracing for file operations below one
// directory, a virtual wall clock and a virtual locale. Off until sim_arm().
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <limits.h>
#include <locale.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_CLOSE = 8, OP_SYNC = 16, OP_TRUNC = 32,
       OP_RENAME = 64, OP_UNLINK = 128, OP_SEEK = 256, OP_STAT = 512 };
enum { A_FAIL = 1, A_SHORT = 2, A_QUOTA = 3, A_CRASH_BEFORE = 4, A_CRASH_AFTER = 5, A_CRASH_TORN = 6,
       A_FAIL_AFTER = 7 };

typedef struct { int mask; long nth; int action; int err; long arg; long count; long seen; long fired; } rule_t;
typedef struct { int op; int fd; long size; long ret; int err; int rule; } event_t;

#define MAXR 16
#define MAXE 8192
static rule_t rules[MAXR];
static int nrules;
static event_t events[MAXE];
static int nevents;
static int armed;
static char root[PATH_MAX];
static size_t rootlen;
static unsigned char tracked[65536];
static long written;

static int clock_on;
static long clock_calls;
static double clock_base;      // seconds
static double clock_step;      // per call
static struct { long call; double to; } jumps[16];
static int njumps;
static char codeset[64];
static int foreign;

void sim_reset(void) { nrules = nevents = armed = 0; written = 0; }
void sim_root(const char *p) { strncpy(root, p, sizeof root - 1); rootlen = strlen(root); }
void sim_rule(int mask, long nth, int action, int err, long arg, long count) {
  if (nrules < MAXR) rules[nrules++] = (rule_t){mask, nth, action, err, arg, count, 0, 0};
}
void sim_arm(int on) { armed = on; }
long sim_fired(int i) { return i < nrules ? rules[i].fired : -1; }
int sim_nevents(void) { return nevents; }
event_t *sim_events(void) { return events; }
void sim_clock(int on, double base, double step) { clock_on = on; clock_base = base; clock_step = step; clock_calls = 0; njumps = 0; }
void sim_jump(long call, double to) { if (njumps < 16) { jumps[njumps].call = call; jumps[njumps++].to = to; } }
void sim_clock_set(double t) { clock_base = t; }
long sim_clock_calls(void) { return clock_calls; }
void sim_locale(const char *cs, int f) { strncpy(codeset, cs ? cs : "", sizeof codeset - 1); foreign = f; }
int sim_open_fds(void) {
  int n = 0;
  char p[64], t[PATH_MAX];
  for (int i = 0; i < 4096; i++) {
    snprintf(p, sizeof p, "/proc/self/fd/%d", i);
    ssize_t k = syscall(SYS_readlink, p, t, sizeof t - 1);
    if (k > 0) { t[k] = 0; if (rootlen && !strncmp(t, root, rootlen)) n++; }
  }
  return n;
}

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under_fd(int fd) {
  char p[64], t[PATH_MAX];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, p, t, sizeof t - 1);
  if (n <= 0) return 0;
  t[n] = 0;
  return rootlen && !strncmp(t, root, rootlen);
}
static int under_path(const char *p) {
  char b[PATH_MAX];
  if (!armed || !rootlen || !p) return 0;
  if (p[0] != '/') {
    if (!getcwd(b, sizeof b)) return 0;
    size_t n = strlen(b);
    snprintf(b + n, sizeof b - n, "/%s", p);
    p = b;
  }
  return !strncmp(p, root, rootlen);
}
static int is_tracked(int fd) { return armed && fd >= 0 && fd < 65536 && tracked[fd]; }

static void ev(int op, int fd, long size, long ret, int err, int rule) {
  if (nevents < MAXE) events[nevents++] = (event_t){op, fd, size, ret, err, rule};
}

// Decide what happens to this operation. Returns the rule index or -1.
static int decide(int op) {
  for (int i = 0; i < nrules; i++) {
    rule_t *r = &rules[i];
    if (!(r->mask & op)) continue;
    if (r->action == A_QUOTA) { if (op == OP_WRITE) return i; continue; }
    long k = r->seen++;
    if (k < r->nth) continue;
    if (r->count >= 0 && k >= r->nth + r->count) continue;
    return i;
  }
  return -1;
}
static void die(int op, int fd, long size, int rule) {
  ev(op, fd, size, -1, 0, rule);
  syscall(SYS_exit_group, 137);
}

// before the call: returns 1 when the call must fail with errno set
static int before(int op, int fd, long size, int *rule) {
  int i = *rule = decide(op);
  if (i < 0) return 0;
  rule_t *r = &rules[i];
  if (r->action == A_CRASH_BEFORE) { r->fired++; die(op, fd, size, i); }
  if (r->action == A_FAIL && op != OP_CLOSE) {
    r->fired++;
    ev(op, fd, size, -1, r->err, i);
    errno = r->err;
    return 1;
  }
  return 0;
}
static long after(int op, int fd, long size, long ret, int rule) {
  int e = errno;
  if (rule >= 0) {
    rule_t *r = &rules[rule];
    if (r->action == A_CRASH_AFTER) { r->fired++; die(op, fd, size, rule); }
    if (r->action == A_FAIL_AFTER || (r->action == A_FAIL && op == OP_CLOSE)) {
      if (ret >= 0) { r->fired++; ev(op, fd, size, -1, r->err, rule); errno = r->err; return -1; }
    }
  }
  ev(op, fd, size, ret, ret < 0 ? e : 0, rule);
  errno = e;
  return ret;
}
// limit for a transfer of n bytes; *crash set when the process dies after it; -1: fail with errno
static long limit(int rule, long n, int *crash) {
  *crash = 0;
  if (rule < 0) return n;
  rule_t *r = &rules[rule];
  if (r->action == A_SHORT) { long k = r->arg < 1 ? 1 : r->arg; if (k < n) { r->fired++; return k; } return n; }
  if (r->action == A_CRASH_TORN) { r->fired++; *crash = 1; return r->arg < n ? r->arg : n; }
  if (r->action == A_QUOTA) {
    long left = r->arg - written;
    if (n <= left) return n;
    r->fired++;
    if (left > 0) return left;
    errno = r->err ? r->err : ENOSPC;
    return -1;
  }
  return n;
}

static int do_open(int (*f)(const char *, int, ...), const char *path, int flags, mode_t mode) {
  int rule = -1;
  if (under_path(path)) {
    if (before(OP_OPEN, -1, flags, &rule)) return -1;
    int fd = f(path, flags, mode);
    if (fd >= 0 && fd < 65536) tracked[fd] = 1;
    int r = (int)after(OP_OPEN, fd, flags, fd, rule);
    if (r < 0 && fd >= 0) { int e = errno; syscall(SYS_close, fd); tracked[fd] = 0; errno = e; }
    return r;
  }
  int fd = f(path, flags, mode);
  if (fd >= 0 && fd < 65536) tracked[fd] = 0;
  return fd;
}
#define OPENBODY(name) \
  REAL(int, name, const char *, int, ...); \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  return do_open(real_##name, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(open) }
int open64(const char *path, int flags, ...) { OPENBODY(open64) }
static int do_openat(int (*f)(int, const char *, int, ...), int dir, const char *path, int flags, mode_t mode) {
  int rule = -1;
  int in = dir == AT_FDCWD || path[0] == '/' ? under_path(path) : (armed && under_fd(dir));
  if (in) {
    if (before(OP_OPEN, -1, flags, &rule)) return -1;
    int fd = f(dir, path, flags, mode);
    if (fd >= 0 && fd < 65536) tracked[fd] = 1;
    int r = (int)after(OP_OPEN, fd, flags, fd, rule);
    if (r < 0 && fd >= 0) { int e = errno; syscall(SYS_close, fd); tracked[fd] = 0; errno = e; }
    return r;
  }
  int fd = f(dir, path, flags, mode);
  if (fd >= 0 && fd < 65536) tracked[fd] = 0;
  return fd;
}
#define OPENATBODY(name) \
  REAL(int, name, int, const char *, int, ...); \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  return do_openat(real_##name, dir, path, flags, mode);
int openat(int dir, const char *path, int flags, ...) { OPENATBODY(openat) }
int openat64(int dir, const char *path, int flags, ...) { OPENATBODY(openat64) }

int close(int fd) {
  REAL(int, close, int);
  if (!is_tracked(fd)) { if (fd >= 0 && fd < 65536) tracked[fd] = 0; return real_close(fd); }
  int rule;
  if (before(OP_CLOSE, fd, 0, &rule)) return -1;
  tracked[fd] = 0;
  int r = real_close(fd);
  return (int)after(OP_CLOSE, fd, 0, r, rule);
}
ssize_t write(int fd, const void *buf, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!is_tracked(fd)) return real_write(fd, buf, n);
  int rule, crash;
  if (before(OP_WRITE, fd, n, &rule)) return -1;
  long k = limit(rule, n, &crash);
  if (k < 0) { ev(OP_WRITE, fd, n, -1, errno, rule); return -1; }
  ssize_t r = k == 0 && n ? 0 : real_write(fd, buf, k);
  if (r > 0) written += r;
  if (crash) die(OP_WRITE, fd, r, rule);
  return after(OP_WRITE, fd, n, r, rule);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  if (!is_tracked(fd)) return real_pwrite64(fd, buf, n, o);
  int rule, crash;
  if (before(OP_WRITE, fd, n, &rule)) return -1;
  long k = limit(rule, n, &crash);
  if (k < 0) { ev(OP_WRITE, fd, n, -1, errno, rule); return -1; }
  ssize_t r = k == 0 && n ? 0 : real_pwrite64(fd, buf, k, o);
  if (r > 0) written += r;
  if (crash) die(OP_WRITE, fd, r, rule);
  return after(OP_WRITE, fd, n, r, rule);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!is_tracked(fd)) return real_writev(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if (r < (ssize_t)v[i].iov_len) break;
  }
  return tot;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  if (!is_tracked(out)) return real_sendfile64(out, in, off, n);
  int rule, crash;
  if (before(OP_WRITE, out, n, &rule)) return -1;
  long k = limit(rule, n, &crash);
  if (k < 0) { ev(OP_WRITE, out, n, -1, errno, rule); return -1; }
  ssize_t r = real_sendfile64(out, in, off, k);
  if (r > 0) written += r;
  if (crash) die(OP_WRITE, out, r, rule);
  return after(OP_WRITE, out, n, r, rule);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t read(int fd, void *buf, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!is_tracked(fd)) return real_read(fd, buf, n);
  int rule, crash;
  if (before(OP_READ, fd, n, &rule)) return -1;
  long k = limit(rule, n, &crash);
  ssize_t r = real_read(fd, buf, k);
  if (crash) die(OP_READ, fd, r, rule);
  return after(OP_READ, fd, n, r, rule);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
  REAL(ssize_t, pread64, int, void *, size_t, off64_t);
  if (!is_tracked(fd)) return real_pread64(fd, buf, n, o);
  int rule, crash;
  if (before(OP_READ, fd, n, &rule)) return -1;
  long k = limit(rule, n, &crash);
  ssize_t r = real_pread64(fd, buf, k, o);
  if (crash) die(OP_READ, fd, r, rule);
  return after(OP_READ, fd, n, r, rule);
}
#define FD1(name, op) \
  int name(int fd) { REAL(int, name, int); if (!is_tracked(fd)) return real_##name(fd); \
    int rule; if (before(op, fd, 0, &rule)) return -1; return (int)after(op, fd, 0, real_##name(fd), rule); }
FD1(fsync, OP_SYNC)
FD1(fdatasync, OP_SYNC)
int ftruncate64(int fd, off64_t n) {
  REAL(int, ftruncate64, int, off64_t);
  if (!is_tracked(fd)) return real_ftruncate64(fd, n);
  int rule;
  if (before(OP_TRUNC, fd, n, &rule)) return -1;
  return (int)after(OP_TRUNC, fd, n, real_ftruncate64(fd, n), rule);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
off64_t lseek64(int fd, off64_t o, int w) {
  REAL(off64_t, lseek64, int, off64_t, int);
  if (!is_tracked(fd)) return real_lseek64(fd, o, w);
  int rule;
  if (before(OP_SEEK, fd, o, &rule)) return -1;
  return after(OP_SEEK, fd, o, real_lseek64(fd, o, w), rule);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
#define PATH2(name) \
  int name(const char *a, const char *b) { REAL(int, name, const char *, const char *); \
    if (!under_path(a) && !under_path(b)) return real_##name(a, b); \
    int rule; if (before(OP_RENAME, -1, 0, &rule)) return -1; return (int)after(OP_RENAME, -1, 0, real_##name(a, b), rule); }
PATH2(rename)
PATH2(link)
int renameat(int da, const char *a, int db, const char *b) {
  REAL(int, renameat, int, const char *, int, const char *);
  if (!under_path(a) && !under_path(b)) return real_renameat(da, a, db, b);
  int rule;
  if (before(OP_RENAME, -1, 0, &rule)) return -1;
  return (int)after(OP_RENAME, -1, 0, real_renameat(da, a, db, b), rule);
}
int unlink(const char *a) {
  REAL(int, unlink, const char *);
  if (!under_path(a)) return real_unlink(a);
  int rule;
  if (before(OP_UNLINK, -1, 0, &rule)) return -1;
  return (int)after(OP_UNLINK, -1, 0, real_unlink(a), rule);
}
int truncate64(const char *a, off64_t n) {
  REAL(int, truncate64, const char *, off64_t);
  if (!under_path(a)) return real_truncate64(a, n);
  int rule;
  if (before(OP_TRUNC, -1, n, &rule)) return -1;
  return (int)after(OP_TRUNC, -1, n, real_truncate64(a, n), rule);
}

// ---- clock
static double vnow(void) {
  long c = clock_calls++;
  for (int i = 0; i < njumps; i++)
    if (jumps[i].call == c) clock_base = jumps[i].to - clock_step * c;
  return clock_base + clock_step * c;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (!clock_on || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return real_clock_gettime(id, ts);
  double t = vnow();
  double s = __builtin_floor(t);
  ts->tv_sec = (time_t)s;
  ts->tv_nsec = (long)((t - s) * 1e9);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  REAL(int, gettimeofday, struct timeval *, void *);
  if (!clock_on) return real_gettimeofday(tv, tz);
  double t = vnow(), s = __builtin_floor(t);
  tv->tv_sec = (time_t)s;
  tv->tv_usec = (long)((t - s) * 1e6);
  return 0;
}
time_t time(time_t *o) {
  REAL(time_t, time, time_t *);
  if (!clock_on) return real_time(o);
  time_t t = (time_t)__builtin_floor(vnow());
  if (o) *o = t;
  return t;
}

// ---- locale
char *nl_langinfo(nl_item i) {
  REAL(char *, nl_langinfo, nl_item);
  if (i == CODESET && codeset[0]) return codeset;
  return real_nl_langinfo(i);
}
struct lconv *localeconv(void) {
  REAL(struct lconv *, localeconv, void);
  struct lconv *r = real_localeconv();
  static struct lconv v;
  if (!foreign) return r;
  v = *r;
  v.decimal_point = ",";
  v.thousands_sep = ".";
  v.grouping = "\3\3";
  return &v;
}
size_t strftime(char *s, size_t max, const char *f, const struct tm *tm) {
  REAL(size_t, strftime, char *, size_t, const char *, const struct tm *);
  if (foreign) {
    // a locale whose names and date layout differ from English
    char g[512];
    size_t k = 0;
    for (const char *p = f; *p && k < sizeof g - 20; p++) {
      if (*p == '%' && p[1]) {
        char c = *++p;
        if (strchr("aAbBhp", c)) { k += snprintf(g + k, sizeof g - k, "xx%%m"); continue; }
        if (strchr("cxXr", c)) { k += snprintf(g + k, sizeof g - k, "%%d.%%m.%%Y"); continue; }
        g[k++] = '%';
        g[k++] = c;
      } else g[k++] = *p;
    }
    g[k] = 0;
    return real_strftime(s, max, g, tm);
  }
  return real_strftime(s, max, f, tm);
}
