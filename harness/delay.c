/* preload library: random delays around the eigensolvers and the MPI calls; log of what each process and thread did */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
static long env(const char *k, long d) { const char *s = getenv(k); return s ? atol(s) : d; }
static __thread uint64_t rs;
static uint64_t rnd(void) {
  if (!rs) { const char *r = getenv("OMPI_COMM_WORLD_RANK"); rs = (env("DL_SEED", 1) * 1000003ull + (r ? atol(r) : 0) * 7919 + (uint64_t)(syscall(SYS_gettid) - getpid()) * 104729) * 2 + 1; for (int i = 0; i < 5; i++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; } }
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs;
}
static void pause_(const char *k) { static long calls; if (__atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED) >= 20000) return; long us = env(k, 0); if (us && rnd() % 3) usleep(rnd() % us); }
static FILE *lg(void) { static FILE *f; if (!f) { const char *p = getenv("DL_LOG"); const char *r = getenv("OMPI_COMM_WORLD_RANK"); char b[4096]; if (!p) return 0; snprintf(b, sizeof b, "%s.%s", p, r ? r : "0"); f = fopen(b, "a"); if (f) setvbuf(f, 0, _IOLBF, 0); } return f; }
#define SLOW { const char *s = getenv("DL_SLOW"), *r = getenv("OMPI_COMM_WORLD_RANK"); if (s && r && !strcmp(s, r)) usleep(env("DL_SLOWUS", 20000)); }
#define EIG(F) int F(char *a, char *b, int *n) ;
typedef void (*anyf)();
#define W(NAME, NPOS) \
  void NAME(void *a, void *b, void *c, void *d, void *e, void *f, void *g, void *h, void *i, void *j, void *k, void *l, void *m, void *n, void *o, void *p, void *q, void *r, void *s, void *t, void *u, void *v, void *w, void *x, void *y, void *z) { \
    static anyf real; if (!real) real = (anyf)dlsym(RTLD_NEXT, #NAME); \
    int dim = *(int *)NPOS; pause_("DL_EIG"); SLOW \
    ((void (*)(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *))real)(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u, v, w, x, y, z); \
    pause_("DL_EIG"); FILE *L = lg(); if (L) fprintf(L, "eig %d\n", dim); }
W(dsyev_, c) W(dsyevd_, c) W(zheev_, c) W(zheevd_, c) W(dsyevr_, d) W(zheevr_, d)
int MPI_Send(const void *b, int c, void *t, int d, int tag, void *comm) {
  static int (*real)(const void *, int, void *, int, int, void *); if (!real) real = dlsym(RTLD_NEXT, "MPI_Send");
  pause_("DL_MPI"); FILE *L = lg(); if (L) fprintf(L, "send %d %d\n", d, tag);
  return real(b, c, t, d, tag, comm);
}
int MPI_Recv(void *b, int c, void *t, int s, int tag, void *comm, void *st) {
  static int (*real)(void *, int, void *, int, int, void *, void *); if (!real) real = dlsym(RTLD_NEXT, "MPI_Recv");
  pause_("DL_MPI"); return real(b, c, t, s, tag, comm, st);
}
int MPI_Iprobe(int s, int tag, void *comm, int *flag, void *st) {
  static int (*real)(int, int, void *, int *, void *); if (!real) real = dlsym(RTLD_NEXT, "MPI_Iprobe");
  if (rnd() % 7 == 0) pause_("DL_MPI");
  int r = real(s, tag, comm, flag, st);
  if (!r && *flag && env("DL_HIDE", 0) && rnd() % 3 == 0) *flag = 0;   /* the message is seen only by a later probe */
  return r;
}

/* HDF5 need not be thread-safe: calls from two threads must not overlap */
static volatile int h5tid; static volatile int h5depth;
static void h5in(const char *f) {
  int me = syscall(SYS_gettid);
  int o = __sync_val_compare_and_swap(&h5tid, 0, me);
  if (o != 0 && o != me) { FILE *L = lg(); if (L) fprintf(L, "h5overlap %s\n", f); return; }
  h5depth++; long us = env("DL_H5", 0); if (us && rnd() % 8 == 0) usleep(rnd() % us);
}
static void h5out(void) { if (h5tid == (int)syscall(SYS_gettid) && --h5depth == 0) { __sync_synchronize(); h5tid = 0; } }
#define H5(RET, NAME, ARGS, CALL) RET NAME ARGS { static RET (*real) ARGS; if (!real) real = dlsym(RTLD_NEXT, #NAME); h5in(#NAME); RET r = real CALL; h5out(); return r; }
H5(int64_t, H5Dcreate2, (int64_t a, const char *b, int64_t c, int64_t d, int64_t e, int64_t f, int64_t g), (a, b, c, d, e, f, g))
H5(int, H5Dwrite, (int64_t a, int64_t b, int64_t c, int64_t d, int64_t e, const void *f), (a, b, c, d, e, f))
H5(int64_t, H5Screate_simple, (int a, const void *b, const void *c), (a, b, c))
H5(int, H5Sclose, (int64_t a), (a))
H5(int, H5Dclose, (int64_t a), (a))
