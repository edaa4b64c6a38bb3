/* Fault injection and scheduling at the libc boundary of one process.

   Preloaded into the explorer; dormant until vp_start / vp_sched is called in
   the forked child that runs the code under test.  Only calls on files below
   `root` (and not below a skipped prefix) are events.

   Event classes: O open for writing, W write, R rename, M mkdir, C chmod,
   U unlink/rmdir, S sendfile/copy_file_range, T truncate, N utime, L link,
   I read of a file, Q query (stat/access/open for reading; scheduler only).  */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { M_RECORD, M_ERR, M_ERR_GROW, M_ERR_ALL, M_KILL_BEFORE, M_KILL_AFTER, M_TORN_KILL, M_SHORT, M_FULL, M_SIGNAL };

static char root[PATH_MAX], skip[PATH_MAX], shared[PATH_MAX], shared1[PATH_MAX];
static int on, mode, target, err, count, tripped, reads, kill_later;
static int sched_out = -1, sched_in = -1;
static long long clock_off;
static char trace[1 << 20];
static size_t tlen;

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = dlsym(RTLD_NEXT, name)

static int under(const char *p, const char *pre) {
  size_t n = strlen(pre);
  return n && !strncmp(p, pre, n) && (p[n] == '/' || !p[n]);
}

static void fdpath(int fd, char *out) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  out[n < 0 ? 0 : n] = 0;
}

/* lexical normalisation of dirfd + path */
static void abspath(int dirfd, const char *p, char *out) {
  char tmp[PATH_MAX * 2];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else fdpath(dirfd, base);
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  }
  size_t o = 0;
  char *save, *t = strtok_r(tmp, "/", &save);
  for (; t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o && out[o - 1] != '/') o--; if (o) o--; continue; }
    size_t n = strlen(t);
    if (o + n + 2 >= PATH_MAX) break;
    out[o++] = '/';
    memcpy(out + o, t, n);
    o += n;
  }
  out[o] = 0;
}

/* The linker configuration and the system directories of the simulated machine:
   /etc/ld*, and libvp* in the system library directories, live below `machine`. */
static char machine[PATH_MAX];

static const char *redir(int dirfd, const char *p, char *out) {
  static const char *dirs[] = {"/lib", "/lib64", "/usr/lib", "/usr/lib64", "/usr/local/lib", 0};
  if (!machine[0] || !p || !p[0]) return p;
  char a[PATH_MAX];
  abspath(dirfd, p, a);
  int hit = !strcmp(a, "/etc") || !strncmp(a, "/etc/ld", 7);
  for (int i = 0; dirs[i] && !hit; i++) {
    size_t n = strlen(dirs[i]);
    if (!strncmp(a, dirs[i], n)) hit = !a[n] || !strncmp(a + n, "/libvp", 6);
  }
  if (!hit) return p;
  snprintf(out, PATH_MAX, "%s%s", machine, a);
  return out;
}
#define REDIR(d) char rb[PATH_MAX]; p = redir(d, p, rb)

static int grows(char c, int flags) { return c == 'W' || c == 'M' || c == 'S' || c == 'L' || (c == 'O' && (flags & O_CREAT)) || (c == 'T'); }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static void sched(char c, const char *p) {
  if (sched_out < 0) return;
  if (!under(p, shared)) { /* or directly in the directory of temporary files */
    size_t n1 = strlen(shared1);
    if (!n1 || !under(p, shared1) || p[n1] != '/' || strchr(p + n1 + 1, '/')) return;
  }
  char m[PATH_MAX + 8], a;
  int n = snprintf(m, sizeof m, "%c%s\n", c, p + strlen(root));
  int s = sched_out;
  sched_out = -1;
  static ssize_t (*w)(int, const void *, size_t);
  static ssize_t (*r)(int, void *, size_t);
  if (!w) { w = dlsym(RTLD_NEXT, "write"); r = dlsym(RTLD_NEXT, "read"); }
  if (w(s, m, n) != n || r(sched_in, &a, 1) != 1) _exit(97);
  sched_out = s;
}

/* returns: 0 proceed; 1 fail with errno set; 2 do half only, then *after = what
   to do (1 kill, 0 nothing) */
static int event(char c, const char *p, int flags, int *after) {
  *after = 0;
  if (!on || !under(p, root) || (skip[0] && under(p, skip))) return 0;
  sched(c, p);
  if (c == 'Q') return 0;
  if (c == 'I' && !reads) return 0;
  int k = count++;
  if (mode == M_RECORD) {
    int n = snprintf(trace + tlen, sizeof trace - tlen, "%c%s\n", c, p + strlen(root));
    if (n > 0 && tlen + n < sizeof trace) tlen += n;
    return 0;
  }
  if (tripped) {
    if (kill_later && k == target + kill_later) die();
    if ((mode == M_ERR_GROW || mode == M_FULL) && grows(c, flags)) { errno = err; return 1; }
    if (mode == M_ERR_ALL) { errno = err; return 1; }
    return 0;
  }
  if (k != target) return 0;
  tripped = 1;
  switch (mode) {
    case M_ERR: case M_ERR_ALL: errno = err; return 1;
    case M_ERR_GROW: if (grows(c, flags)) { errno = err; return 1; } return 0;
    case M_KILL_BEFORE: die();
    case M_KILL_AFTER: *after = 1; return 0;
    case M_TORN_KILL: if (c == 'W' || c == 'S') { *after = 1; return 2; } die();
    case M_SHORT: return c == 'W' || c == 'S' ? 2 : 0;
    case M_FULL: if (c == 'W' || c == 'S') return 2; if (grows(c, flags)) { errno = err; return 1; } return 0;
    case M_SIGNAL: raise(err); return 0;
  }
  return 0;
}

#define PATHEV(c, dirfd, path, flags) \
  char ap[PATH_MAX]; int after = 0; ap[0] = 0; \
  if (on && path) abspath(dirfd, path, ap); \
  int ev = on ? event(c, ap, flags, &after) : 0; \
  if (ev == 1) return -1
#define FDEV(c, fd) \
  char ap[PATH_MAX]; int after = 0; ap[0] = 0; \
  if (on) fdpath(fd, ap); \
  int ev = on ? event(c, ap, 0, &after) : 0; \
  if (ev == 1) return -1
#define DONE(expr) do { __auto_type r_ = (expr); int e_ = errno; if (after) die(); errno = e_; return r_; } while (0)

static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }

int open64(const char *p, int flags, ...) {
  REDIR(AT_FDCWD);
  REAL(int, "open64", const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!on) return real(p, flags, m);
  PATHEV(wr(flags) ? 'O' : 'Q', AT_FDCWD, p, flags);
  DONE(real(p, flags, m));
}
int openat64(int d, const char *p, int flags, ...) {
  REDIR(d);
  REAL(int, "openat64", int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!on) return real(d, p, flags, m);
  PATHEV(wr(flags) ? 'O' : 'Q', d, p, flags);
  DONE(real(d, p, flags, m));
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  FDEV('W', fd);
  if (ev == 2) n = n > 1 ? n / 2 : n;
  DONE(real(fd, b, n));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
  FDEV('W', fd);
  if (ev == 2) n = n > 1 ? n / 2 : n;
  DONE(real(fd, b, n, o));
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, "read", int, void *, size_t);
  if (!on || !reads) return real(fd, b, n);
  FDEV('I', fd);
  DONE(real(fd, b, n));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  FDEV('S', o);
  if (ev == 2) { struct stat st; if (!fstat(i, &st) && st.st_size < (off_t)n) n = st.st_size; n = n > 1 ? n / 2 : n; }
  DONE(real(o, i, off, n));
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  FDEV('S', o);
  if (ev == 2) n = n > 1 ? n / 2 : n;
  DONE(real(i, io, o, oo, n, f));
}
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); FDEV('T', fd); DONE(real(fd, n)); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); PATHEV('T', AT_FDCWD, p, 0); DONE(real(p, n)); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PATHEV('R', AT_FDCWD, b, 0); DONE(real(a, b)); }
int renameat(int da, const char *a, int db, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); PATHEV('R', db, b, 0); DONE(real(da, a, db, b)); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATHEV('M', AT_FDCWD, p, 0); DONE(real(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); PATHEV('M', d, p, 0); DONE(real(d, p, m)); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); PATHEV('C', AT_FDCWD, p, 0); DONE(real(p, m)); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); FDEV('C', fd); DONE(real(fd, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); PATHEV('C', d, p, 0); DONE(real(d, p, m, f)); }
int unlink(const char *p) { REAL(int, "unlink", const char *); PATHEV('U', AT_FDCWD, p, 0); DONE(real(p)); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); PATHEV('U', d, p, 0); DONE(real(d, p, f)); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); PATHEV('U', AT_FDCWD, p, 0); DONE(real(p)); }
int symlink(const char *t, const char *p) { REAL(int, "symlink", const char *, const char *); PATHEV('L', AT_FDCWD, p, 0); DONE(real(t, p)); }
int link(const char *t, const char *p) { REAL(int, "link", const char *, const char *); PATHEV('L', AT_FDCWD, p, 0); DONE(real(t, p)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec *, int); if (!p) return real(d, p, t, f); PATHEV('N', d, p, 0); DONE(real(d, p, t, f)); }
int futimens(int fd, const struct timespec t[2]) { REAL(int, "futimens", int, const struct timespec *); FDEV('N', fd); DONE(real(fd, t)); }
/* queries matter to the scheduler only */
int stat64(const char *p, struct stat64 *s) { REDIR(AT_FDCWD); REAL(int, "stat64", const char *, struct stat64 *); PATHEV('Q', AT_FDCWD, p, 0); DONE(real(p, s)); }
int lstat64(const char *p, struct stat64 *s) { REDIR(AT_FDCWD); REAL(int, "lstat64", const char *, struct stat64 *); PATHEV('Q', AT_FDCWD, p, 0); DONE(real(p, s)); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REDIR(d); REAL(int, "fstatat64", int, const char *, struct stat64 *, int); PATHEV('Q', d, p, 0); DONE(real(d, p, s, f)); }
int access(const char *p, int m) { REDIR(AT_FDCWD); REAL(int, "access", const char *, int); PATHEV('Q', AT_FDCWD, p, 0); DONE(real(p, m)); }
ssize_t readlink(const char *p, char *b, size_t n) { REDIR(AT_FDCWD); REAL(ssize_t, "readlink", const char *, char *, size_t); return real(p, b, n); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { REDIR(d); REAL(ssize_t, "readlinkat", int, const char *, char *, size_t); return real(d, p, b, n); }
DIR *opendir(const char *p) { REDIR(AT_FDCWD); REAL(DIR *, "opendir", const char *); return real(p); }

int clock_gettime(clockid_t c, struct timespec *t) {
  REAL(int, "clock_gettime", clockid_t, struct timespec *);
  int r = real(c, t);
  if (!r && clock_off && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += clock_off;
  return r;
}
time_t time(time_t *o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}

void vp_start(const char *r, const char *sk, int m, int k, int e, int rd, int kl) {
  snprintf(root, sizeof root, "%s", r);
  snprintf(skip, sizeof skip, "%s", sk);
  mode = m; target = k; err = e; reads = rd; kill_later = kl; count = tripped = 0; tlen = 0; trace[0] = 0;
  on = 1;
}
void vp_sched(const char *r, const char *sh, const char *sh1, int out, int in) {
  snprintf(shared1, sizeof shared1, "%s", sh1);
  snprintf(root, sizeof root, "%s", r);
  snprintf(shared, sizeof shared, "%s", sh);
  skip[0] = 0; mode = M_RECORD; count = tripped = 0; tlen = 0;
  sched_out = out; sched_in = in;
  on = 1;
}
void vp_clock(long long off) { clock_off = off; }
void vp_machine(const char *m) { snprintf(machine, sizeof machine, "%s", m); }
void vp_stop(void) { on = 0; sched_out = -1; }
int vp_count(void) { return count; }
int vp_tripped(void) { return tripped; }
const char *vp_trace(void) { return trace; }
