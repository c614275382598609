/* Runtime shared by every program the symbolic executor works on: process snapshot, libc call points, symbolic-input API. */
#define _GNU_SOURCE
#include "xcore.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <math.h>
#include <malloc.h>


/* ---- libc call points.  --wrap redirects every call of the code under test here, so that the executor can attach its
   model of the libc function to one fixed address; natively they are the libc functions. */
#define W1(ret, name, params, args) \
  extern ret __real_##name params; NI ret __wrap_##name params { __asm__ volatile(""); return __real_##name args; }
#define WV(name, params, args) \
  extern void __real_##name params; NI void __wrap_##name params { __asm__ volatile(""); __real_##name args; }
long x_live, x_nmaps;
#define CNT(p, d) ({ void *q_ = (p); if (q_) x_live += (d); q_; })
extern void *__real_malloc(size_t); NI void *__wrap_malloc(size_t n) { __asm__ volatile(""); return CNT(__real_malloc(n), 1); }
extern void *__real_calloc(size_t, size_t);
NI void *__wrap_calloc(size_t n, size_t m) { __asm__ volatile(""); return CNT(__real_calloc(n, m), 1); }
extern void *__real_realloc(void *, size_t);
void *(*x_realloc)(void *, size_t);        /* replay: growth of wasm memories always moves them, or fails on demand */
NI void *__wrap_realloc(void *p, size_t n) {
  __asm__ volatile("");
  if (!p) x_live++;
  return x_realloc ? x_realloc(p, n) : __real_realloc(p, n);
}
extern void __real_free(void *); NI void __wrap_free(void *p) { __asm__ volatile(""); if (p) x_live--; __real_free(p); }
W1(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n))
W1(void *, memmove, (void *d, const void *s, size_t n), (d, s, n))
W1(void *, memset, (void *d, int c, size_t n), (d, c, n))
W1(int, memcmp, (const void *d, const void *s, size_t n), (d, s, n))
W1(size_t, strlen, (const char *s), (s))
W1(int, strcmp, (const char *a, const char *b), (a, b))
W1(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n))
W1(char *, strcpy, (char *a, const char *b), (a, b))
W1(char *, strncpy, (char *a, const char *b, size_t n), (a, b, n))
extern void *__real_mmap(void *, size_t, int, int, int, off_t);
NI void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  __asm__ volatile(""); void *r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED) x_nmaps++; return r;
}
extern int __real_munmap(void *, size_t);
NI int __wrap_munmap(void *a, size_t n) { __asm__ volatile(""); x_nmaps--; return __real_munmap(a, n); }
W1(int, mprotect, (void *a, size_t n, int p), (a, n, p))
W1(int, madvise, (void *a, size_t n, int p), (a, n, p))
W1(int, posix_madvise, (void *a, size_t n, int p), (a, n, p))
W1(long, sysconf, (int n), (n))
W1(int, puts, (const char *s), (s))
W1(float, ceilf, (float x), (x))
W1(float, floorf, (float x), (x))
W1(float, truncf, (float x), (x))
W1(float, rintf, (float x), (x))
W1(float, nearbyintf, (float x), (x))
W1(float, roundf, (float x), (x))
W1(float, sqrtf, (float x), (x))
W1(float, fminf, (float x, float y), (x, y))
W1(float, fmaxf, (float x, float y), (x, y))
W1(double, ceil, (double x), (x))
W1(double, floor, (double x), (x))
W1(double, trunc, (double x), (x))
W1(double, rint, (double x), (x))
W1(double, nearbyint, (double x), (x))
W1(double, round, (double x), (x))
W1(double, sqrt, (double x), (x))
W1(double, fmin, (double x, double y), (x, y))
W1(double, fmax, (double x, double y), (x, y))
W1(int, pthread_mutex_lock, (void *m), (m))
W1(int, pthread_mutex_unlock, (void *m), (m))
W1(FILE *, fopen, (const char *a, const char *b), (a, b))
W1(int, fclose, (FILE *f), (f))
W1(size_t, fread, (void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
W1(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
extern void __real_exit(int) __attribute__((noreturn));
NI __attribute__((noreturn)) void __wrap_exit(int c) { __asm__ volatile(""); __real_exit(c); }
extern void __real_abort(void) __attribute__((noreturn));
NI __attribute__((noreturn)) void __wrap_abort(void) { __asm__ volatile(""); __real_abort(); }
extern void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
NI __attribute__((noreturn)) void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) {
  __asm__ volatile(""); __real___assert_fail(a, f, l, g);
}
NI int __wrap_printf(const char *f, ...) {
  va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r;
}
NI int __wrap_fprintf(FILE *o, const char *f, ...) {
  va_list a; va_start(a, f); int r = vfprintf(o, f, a); va_end(a); return r;
}

/* ---- process snapshot */
struct seg { unsigned long lo, hi, off, prot; };
NI void x_snapshot(const char *path) {
  FILE *m = fopen("/proc/self/maps", "r");
  int pm = open("/proc/self/pagemap", O_RDONLY);
  static struct seg segs[65536];
  int n = 0;
  char line[512];
  while (fgets(line, sizeof line, m)) {
    unsigned long lo, hi; char perm[8];
    if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) != 3) continue;
    if (strstr(line, "[vvar") || strstr(line, "[vsyscall") || perm[0] != 'r') continue;
    unsigned long prot = 1 | (perm[1] == 'w' ? 2 : 0) | (perm[2] == 'x' ? 4 : 0);
    if (hi - lo <= (16ul << 20) || pm < 0) {
      segs[n++] = (struct seg){lo, hi, 0, prot};
      continue;
    }
    /* big mapping: keep only resident pages, the rest reads as zero (offset -1) */
    static unsigned long ent[4096];
    unsigned long a = lo, run = lo; int cur = -1;
    while (a < hi) {
      unsigned long k = (hi - a) / 4096; if (k > 4096) k = 4096;
      if (pread(pm, ent, k * 8, a / 4096 * 8) != (long)k * 8) break;
      for (unsigned long i = 0; i < k; i++) {
        int p = ent[i] >> 63 || (ent[i] >> 62 & 1);
        unsigned long x = a + i * 4096;
        if (cur == -1) cur = p;
        else if (cur != p) { segs[n++] = (struct seg){run, x, cur ? 0 : ~0ul, prot}; run = x; cur = p; }
      }
      a += k * 4096;
    }
    if (cur != -1) segs[n++] = (struct seg){run, hi, cur ? 0 : ~0ul, prot};
  }
  fclose(m);
  if (pm >= 0) close(pm);
  unsigned long off = 8 + 32ul * n + 8;
  off = (off + 4095) & ~4095ul;
  unsigned long start = off;
  for (int i = 0; i < n; i++) if (segs[i].off != ~0ul) { segs[i].off = off; off += segs[i].hi - segs[i].lo; }
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  unsigned long nn = n, fs;
  __asm__ volatile("mov %%fs:0, %0" : "=r"(fs));
  if (write(fd, &nn, 8) != 8 || write(fd, segs, 32ul * n) != 32l * n || write(fd, &fs, 8) != 8) _exit(9);
  lseek(fd, start, SEEK_SET);
  for (int i = 0; i < n; i++) {
    if (segs[i].off == ~0ul) continue;
    lseek(fd, segs[i].off, SEEK_SET);
    unsigned long a = segs[i].lo;
    while (a < segs[i].hi) {
      long w = write(fd, (void *)a, segs[i].hi - a);
      if (w <= 0) { a += 4096; lseek(fd, segs[i].off + (a - segs[i].lo), SEEK_SET); continue; }
      a += w;
    }
  }
  if (ftruncate(fd, off)) _exit(9);
  close(fd);
}

/* ---- symbolic inputs.  The executor intercepts these; natively values come from the replay file (name -> bytes). */
static FILE *replay;
static int sym_failed;
void x_replay_open(const char *p) { replay = fopen(p, "r"); if (!replay) _exit(9); }
NI void sym_bytes(void *p, unsigned long n, const char *name) {
  __asm__ volatile("" ::: "memory");
  char line[8192], nm[128], hex[8000];
  memset(p, 0, n);
  if (!replay) return;
  rewind(replay);
  while (fgets(line, sizeof line, replay)) {
    if (sscanf(line, "%127s %7999s", nm, hex) != 2 || strcmp(nm, name)) continue;
    for (unsigned long i = 0; i < n && hex[2 * i]; i++) {
      unsigned v; sscanf(hex + 2 * i, "%2x", &v); ((unsigned char *)p)[i] = v;
    }
    return;
  }
}
NI void sym_assume(int c) { __asm__ volatile(""); if (!c) { printf("REPLAY assume-false\n"); fflush(stdout); _exit(3); } }
NI void sym_assert(int c, const char *what) {
  __asm__ volatile("");
  if (!c) { printf("REPLAY assert-failed %s\n", what); fflush(stdout); sym_failed = 1; _exit(1); }
}
NI void sym_reach(const char *what) { __asm__ volatile(""); printf("REPLAY reach %s\n", what); }
NI void sym_note(const char *what, unsigned long v) { __asm__ volatile(""); printf("REPLAY note %s %lx\n", what, v); }
NI unsigned long sym_pick(unsigned long v) { __asm__ volatile(""); return v; }   /* executor: fork on every value */
NI void sym_clobber(void) { __asm__ volatile(""); }   /* executor: caller-saved registers become arbitrary */
NI unsigned long sym_alloc_size(void *p) { __asm__ volatile(""); return p ? malloc_usable_size(p) : 0; } /* executor: size of the live block at p, 0 if none */
NI unsigned long sym_live(void) { __asm__ volatile(""); return x_live; }    /* number of live heap blocks */
NI unsigned long sym_maps(void) { __asm__ volatile(""); return x_nmaps; }    /* number of live mappings */
NI unsigned long sym_mapped(void *p, unsigned long n) {
  __asm__ volatile("");
  unsigned long a = (unsigned long)p & ~4095ul;
  return msync((void *)a, (unsigned long)p + n - a, MS_ASYNC) == 0;
}   /* executor: [p,p+n) in one live mapping */
NI void sym_region(unsigned long p, unsigned long n, int on) { __asm__ volatile(""); mprotect((void *)p, n, on ? PROT_READ | PROT_WRITE : PROT_NONE); }
NI void sym_fail(unsigned long k) { __asm__ volatile(""); }   /* executor: the k-th allocation from here on fails */
