/* preload library: file-operation log, crash and fault injection, containment
 *  FP_DIR   directory whose files are observed (others untouched; destructive calls outside it are refused and logged)
 *  FP_LOG   log file (appended by raw system calls), one line per operation
 *  FP_MODE  none | kill | fail | trunc (the file is cut to FP_LEN bytes, or -FP_LEN thousandths of its size, before it is used)
 *          FP_N  index of the operation (counted over the kinds in FP_KINDS, all of them by default)
 *  FP_WHEN  before | mid | after      (kill)
 *  FP_ERR   errno (fail)              FP_PERSIST=1: every later operation of the same kinds fails too (full disk)
 *  FP_KINDS letters: o open for writing, w write, n rename, u unlink, d mkdir/rmdir, r read, i open for reading, c close of a written file
 *  FP_ONLY  fail/kill only operations on paths containing this text
 *  FP_MKD   six characters that replace XXXXXX in mkdtemp (the directory may exist already)                                */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char dir[PATH_MAX], only[256], kinds[32], mode, when; static int dl, N, err, persist, lfd = -1, cnt, ready, tripped;
static char *fdp[4096]; static char fdw[4096];
static const char *ge(const char *k, const char *d) { const char *s = getenv(k); return s && *s ? s : d; }
static void init(void) {
  if (ready) return; ready = 1;
  snprintf(dir, sizeof dir, "%s", ge("FP_DIR", "/nonexistent")); dl = strlen(dir);
  snprintf(only, sizeof only, "%s", ge("FP_ONLY", "")); snprintf(kinds, sizeof kinds, "%s", ge("FP_KINDS", "ownudric"));
  mode = ge("FP_MODE", "none")[0]; when = ge("FP_WHEN", "before")[0]; N = atoi(ge("FP_N", "-1")); err = atoi(ge("FP_ERR", "28")); persist = atoi(ge("FP_PERSIST", "0"));
  const char *l = ge("FP_LOG", ""); if (*l) { lfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666); if (lfd >= 0) { int h = fcntl(lfd, F_DUPFD_CLOEXEC, 3000); if (h >= 0) { syscall(SYS_close, lfd); lfd = h; } } }
}
static void lg(const char *f, ...) { if (lfd < 0) return; char b[PATH_MAX + 300]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > 0) syscall(SYS_write, lfd, b, (size_t)n < sizeof b ? (size_t)n : sizeof b); }
/* path of interest, relative to FP_DIR; NULL if outside */
static const char *inside(int at, const char *p, char *b) {
  init(); if (!p) return 0; char full[2 * PATH_MAX];
  if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
  else { char base[PATH_MAX]; if (at == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; } else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", at); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    snprintf(full, sizeof full, "%s/%s", base, p); }
  /* lexical normalisation */
  char out[2 * PATH_MAX]; int n = 0; char *s = full;
  while (*s) { while (*s == '/') s++; char *e = s; while (*e && *e != '/') e++; int k = e - s; if (!k) break;
    if (k == 1 && s[0] == '.') ; else if (k == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && out[--n] != '/') ; }
    else { out[n++] = '/'; memcpy(out + n, s, k); n += k; } s = e; }
  out[n] = 0;
  if (!strncmp(out, dir, dl) && out[dl] == '/') { snprintf(b, PATH_MAX, "%s", out + dl + 1); return b; }
  return 0;
}
static void die(void) { lg("KILLED\n"); kill(getpid(), SIGKILL); for (;;) pause(); }
/* returns 1 if this operation is to fail; *mid set if the process is to die in the middle of / after the operation */
static int point(char k, const char *p, int *mid, long size) {
  *mid = 0; int hit = 0;
  if (strchr(kinds, k) && (!*only || strstr(p, only))) { int i = __atomic_fetch_add(&cnt, 1, __ATOMIC_RELAXED); lg("%d %c %s %ld\n", i, k, p, size); hit = i == N || (persist && tripped && i > N); }
  else lg("- %c %s %ld\n", k, p, size);
  if (!hit || mode == 'n') return 0;
  tripped = 1; lg("INJECT %c %s\n", k, p);
  if (mode == 'f') return 1;
  if (mode == 't') { char f[2 * PATH_MAX]; snprintf(f, sizeof f, "%s/%s", dir, p); int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY); struct stat st;
    if (fd >= 0 && !fstat(fd, &st)) { long n = atol(ge("FP_LEN", "0")); if (n < 0) n = st.st_size * -n / 1000; if (n < st.st_size) { lg("CUT %s %ld %ld\n", p, (long)st.st_size, n); syscall(SYS_ftruncate, fd, n); } } if (fd >= 0) syscall(SYS_close, fd); return 0; }
  if (when == 'b') die();
  *mid = 1; return 0;
}
static void refuse(const char *f, const char *p) { lg("OUTSIDE %s %s\n", f, p ? p : "?"); }
#define REAL(T, name, ...) static T (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
static int wr(int fl) { return (fl & O_ACCMODE) != O_RDONLY; }
static void track(int fd, const char *p, int w) { if (fd >= 0 && fd < 4096) { free(fdp[fd]); fdp[fd] = p ? strdup(p) : 0; fdw[fd] = w; } }
#define OPEN(NAME, ...) int NAME(const char *p, int fl, ...) { REAL(int, NAME, const char *, int, ...); mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
  char b[PATH_MAX]; const char *q = inside(AT_FDCWD, p, b); int mid = 0; if (q && (fl & O_DIRECTORY)) q = 0; if (q && point(wr(fl) ? 'o' : 'i', q, &mid, 0)) { errno = err; return -1; } int r = real(p, fl, m); if (q && r >= 0) track(r, q, wr(fl)); if (mid) die(); return r; }
OPEN(open) OPEN(open64)
#define OPENAT(NAME) int NAME(int at, const char *p, int fl, ...) { REAL(int, NAME, int, const char *, int, ...); mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
  char b[PATH_MAX]; const char *q = inside(at, p, b); int mid = 0; if (q && (fl & O_DIRECTORY)) q = 0; if (q && point(wr(fl) ? 'o' : 'i', q, &mid, 0)) { errno = err; return -1; } int r = real(at, p, fl, m); if (q && r >= 0) track(r, q, wr(fl)); if (mid) die(); return r; }
OPENAT(openat) OPENAT(openat64)
#define FOPEN(NAME) FILE *NAME(const char *p, const char *md) { REAL(FILE *, NAME, const char *, const char *); int w = md[0] != 'r' || strchr(md, '+'); \
  char b[PATH_MAX]; const char *q = inside(AT_FDCWD, p, b); int mid = 0; if (q && point(w ? 'o' : 'i', q, &mid, 0)) { errno = err; return 0; } FILE *r = real(p, md); if (q && r) track(fileno(r), q, w); if (mid) die(); return r; }
FOPEN(fopen) FOPEN(fopen64)
#define P(fd) ((fd) >= 0 && (fd) < 4096 ? fdp[fd] : 0)
ssize_t write(int fd, const void *buf, size_t n) { REAL(ssize_t, write, int, const void *, size_t); const char *q = P(fd); int mid = 0;
  if (q && point('w', q, &mid, n)) { errno = err; return -1; } if (mid && when == 'm') { real(fd, buf, n / 2); die(); } ssize_t r = real(fd, buf, n); if (mid) die(); return r; }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); const char *q = P(fd); int mid = 0; long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (q && point('w', q, &mid, n)) { errno = err; return -1; } if (mid && when == 'm') { if (c) real(fd, v, 1); die(); } ssize_t r = real(fd, v, c); if (mid) die(); return r; }
#define PW(NAME, OT) ssize_t NAME(int fd, const void *buf, size_t n, OT off) { REAL(ssize_t, NAME, int, const void *, size_t, OT); const char *q = P(fd); int mid = 0; \
  if (q && point('w', q, &mid, n)) { errno = err; return -1; } if (mid && when == 'm') { real(fd, buf, n / 2, off); die(); } ssize_t r = real(fd, buf, n, off); if (mid) die(); return r; }
PW(pwrite, off_t) PW(pwrite64, off64_t)
size_t fwrite(const void *buf, size_t s, size_t n, FILE *f) { REAL(size_t, fwrite, const void *, size_t, size_t, FILE *); const char *q = f ? P(fileno(f)) : 0; int mid = 0;
  if (q && point('w', q, &mid, s * n)) { errno = err; return 0; } if (mid && when == 'm') { real(buf, s, n / 2, f); fflush(f); die(); } size_t r = real(buf, s, n, f); if (mid) { fflush(f); die(); } return r; }
ssize_t read(int fd, void *buf, size_t n) { REAL(ssize_t, read, int, void *, size_t); const char *q = P(fd); int mid = 0; if (q && !fdw[fd] && point('r', q, &mid, n)) { errno = err; return -1; } if (mid) die(); return real(fd, buf, n); }
int close(int fd) { REAL(int, close, int); const char *q = P(fd); int mid = 0, f = 0; if (q && fdw[fd]) f = point('c', q, &mid, 0); else if (q) lg("- x %s 0\n", q); int r = real(fd); track(fd, 0, 0); if (mid) die(); if (f) { errno = err; return -1; } return r; }
int fclose(FILE *F) { REAL(int, fclose, FILE *); int fd = F ? fileno(F) : -1; const char *q = P(fd); int mid = 0, f = 0; if (q && fdw[fd]) f = point('c', q, &mid, 0); else if (q) lg("- x %s 0\n", q); track(fd, 0, 0); int r = real(F); if (mid) die(); if (f) { errno = err; return EOF; } return r; }
int rename(const char *a, const char *c) { REAL(int, rename, const char *, const char *); char b[PATH_MAX], d[PATH_MAX]; const char *q = inside(AT_FDCWD, a, b), *s = inside(AT_FDCWD, c, d); int mid = 0;
  if (!q || !s) { refuse("rename", q ? c : a); errno = EPERM; return -1; } char t[2 * PATH_MAX]; snprintf(t, sizeof t, "%s>%s", q, s);
  if (point('n', t, &mid, 0)) { errno = err; return -1; } int r = real(a, c); if (mid) die(); return r; }
#define RM(NAME, KIND) int NAME(const char *p) { REAL(int, NAME, const char *); char b[PATH_MAX]; const char *q = inside(AT_FDCWD, p, b); int mid = 0; \
  if (!q) { if (p && (!strncmp(p, "/dev/shm/", 9) || strstr(p, "/ompi.") || strstr(p, "/pmix"))) return real(p); refuse(#NAME, p); errno = EPERM; return -1; } if (point(KIND, q, &mid, 0)) { errno = err; return -1; } int r = real(p); if (mid) die(); return r; }
RM(unlink, 'u') RM(remove, 'u') RM(rmdir, 'd')
int unlinkat(int at, const char *p, int fl) { REAL(int, unlinkat, int, const char *, int); char b[PATH_MAX]; const char *q = inside(at, p, b); int mid = 0;
  if (!q) { refuse("unlinkat", p); errno = EPERM; return -1; } if (point(fl & AT_REMOVEDIR ? 'd' : 'u', q, &mid, 0)) { errno = err; return -1; } int r = real(at, p, fl); if (mid) die(); return r; }
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); char b[PATH_MAX]; const char *q = inside(AT_FDCWD, p, b); int mid = 0; if (!q) { refuse("truncate", p); errno = EPERM; return -1; } if (point('w', q, &mid, n)) { errno = err; return -1; } int r = real(p, n); if (mid) die(); return r; }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); const char *q = P(fd); int mid = 0; if (q && point('w', q, &mid, -1)) { errno = err; return -1; } int r = real(fd, n); if (mid) die(); return r; }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); const char *q = P(fd); int mid = 0; if (q && point('w', q, &mid, -1)) { errno = err; return -1; } int r = real(fd, n); if (mid) die(); return r; }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); char b[PATH_MAX]; const char *q = inside(AT_FDCWD, p, b); int mid = 0; if (q && point('d', q, &mid, 0)) { errno = err; return -1; } int r = real(p, m); if (mid) die(); return r; }
char *mkdtemp(char *t) { REAL(char *, mkdtemp, char *); char b[PATH_MAX]; const char *q = inside(AT_FDCWD, t, b); int mid = 0; const char *fx = ge("FP_MKD", ""); size_t n = strlen(t);
  if (q && point('d', q, &mid, 0)) { errno = err; return 0; }
  char *r; if (q && strlen(fx) == 6 && n >= 6 && !strcmp(t + n - 6, "XXXXXX")) { memcpy(t + n - 6, fx, 6); if (syscall(SYS_mkdirat, AT_FDCWD, t, 0700) && errno != EEXIST) return 0; r = t; } else r = real(t);
  if (q && r) { char c[PATH_MAX]; const char *s = inside(AT_FDCWD, r, c); lg("- D %s 0\n", s ? s : r); } if (mid) die(); return r; }
