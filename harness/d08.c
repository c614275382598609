/* D08: the executable allocator over histories of allocations and frees of symbolic sizes.  The system calls under it are replaced
   by an arena that hands out fresh zeroed chunks with gaps between them. */
#define _GNU_SOURCE
#include "hlib.h"
#include <sys/mman.h>
#include <sljitLir.h>
#define ARENA 0x610000000000ul
#define ASIZE (1ul << 21)
#define NCH 8
#define NBL 8
static u64 cb[NCH], cs[NCH]; static int cl[NCH], nch, failmap = -1; static u64 nxt = ARENA + 65536;
static u64 seed_;
void *h_mmap(void *a, u64 n, int prot, int fl, int fd, long off) {
  sym_assert(a == 0 && fl == (MAP_PRIVATE | MAP_ANON) && prot == (PROT_READ | PROT_WRITE | PROT_EXEC) && off == 0 && n > 0, "executable memory is not asked for as such");
  if (nch == failmap) { failmap = -1; return MAP_FAILED; }
  n = sym_pick(n); n = (n + 4095) & -4096ul;
  u64 p = nxt; nxt += n + 8192;
  sym_assume(nxt < ARENA + ASIZE && nch < NCH);
  cb[nch] = p; cs[nch] = n; cl[nch] = 1; nch++; sym_region(p, n, 1);
  return (void *)p;
}
int h_munmap(void *a, u64 n) {
  u64 p = sym_pick((u64)a); n = sym_pick(n); n = (n + 4095) & -4096ul;
  for (int i = 0; i < nch; i++) if (cl[i] && cb[i] == p) { sym_assert(cs[i] == n, "a chunk is not returned as a whole"); cl[i] = 0;
    sym_region(p, n, 0); return 0; }
  sym_assert(0, "memory that is not a mapped chunk is returned");
  return -1;
}
struct bl { u64 p, n, v, w; int live; };
static struct bl B[NBL]; static int nb, nlive;
static u64 last_(u64 p, u64 n) { return p + ((n - 8) & ~7ul); }
/* what every live block must satisfy */
static void check(void) {
  for (int i = 0; i < nb; i++) if (B[i].live) {
    int in = 0; u64 p = B[i].p, n = B[i].n;
    for (int c = 0; c < nch; c++) if (cl[c]) in |= (p >= cb[c]) & (p + n <= cb[c] + cs[c]);
    sym_assert(in, "a live block is not in mapped memory");
    for (int j = 0; j < i; j++) if (B[j].live) sym_assert((p + n <= B[j].p) | (B[j].p + B[j].n <= p), "two live blocks overlap");
  }
}
static void keeps(int i) {
  sym_assert((*(u64 *)B[i].p == B[i].v) & (*(u64 *)last_(B[i].p, B[i].n) == B[i].w), "a live block lost its contents");
}
static void alloc_(u64 lo, u64 mask) {                   /* lo to lo + mask bytes */
  struct bl *b = &B[nb]; u64 n = lo + (in32("n", nb) & mask);
  int before = nch, willfail = failmap == nch;
  u64 p = (u64)sljit_malloc_exec(n);
  if (!p) { sym_assert(willfail, "no memory although there is some"); b->live = 0; b->p = 0; nb++; return; }
  sym_assert((p & 7) == 0, "a block is not aligned");
  b->p = p; b->n = n; b->live = 1; b->v = in64("v", nb); b->w = in64("w", nb); nb++; nlive++;
  check();
  *(u64 *)p = b->v; *(u64 *)last_(p, n) = b->w;
}
static void free_(int i) { keeps(i); B[i].live = 0; nlive--; sljit_free_exec((void *)B[i].p); check(); }
static void finish_(int order) {
  for (int k = 0; k < nb; k++) if (B[k].live) keeps(k);
  for (int k = 0; k < nb; k++) {                          /* frees the rest, first to last, last to first or from the middle */
    int i = order == 0 ? k : order == 1 ? nb - 1 - k : (k & 1 ? nb / 2 - (k + 1) / 2 : nb / 2 + k / 2);
    if (i >= 0 && i < nb && B[i].live) free_(i);
  }
  for (int k = 0; k < nb; k++) if (B[k].live) free_(k);
  sljit_free_unused_memory_exec();
  for (int c = 0; c < nch; c++) sym_assert(!cl[c], "freed space is not reclaimed");
  sym_reach(nch > 1 ? "several chunks" : "one chunk");
}
/* histories: every sequence of n allocations and frees in which a free names one of the live blocks, in a fixed order */
static int hist(long k, int n, int *ops) {              /* op: -1 allocate, i free block i */
  int live[16], nl = 0, na = 0;
  for (int s = 0; s < n; s++) {
    int choices = 1 + nl; if (na == NBL) return 0;
    int c = k % 8; k /= 8;
    if (c >= choices) return 0;
    if (c == 0) { ops[s] = -1; live[nl++] = na++; }
    else { ops[s] = live[c - 1]; for (int i = c - 1; i + 1 < nl; i++) live[i] = live[i + 1]; nl--; }
  }
  return k == 0;
}
#define MAXH 700
static signed char H[4][MAXH][10]; static int hn[4], hl[4] = {5, 6, 7, 4};
static void build(void) {
  for (int q = 0; q < 4; q++) {
    long m = 1; for (int s = 0; s < hl[q]; s++) m *= 8;
    for (long k = 0; k < m && hn[q] < MAXH; k++) { int ops[10]; if (hist(k, hl[q], ops)) { for (int s = 0; s < hl[q]; s++) H[q][hn[q]][s] = ops[s]; hn[q]++; } }
  }
}
static void unused_(void) {
  sljit_free_unused_memory_exec();
  for (int c = 0; c < nch; c++) if (cl[c]) {
    int in = 0; for (int i = 0; i < nb; i++) if (B[i].live) in |= (B[i].p >= cb[c]) & (B[i].p < cb[c] + cs[c]);
    sym_assert(in, "a chunk without a live block is kept");
  }
  check();
}
/* the sizes of four kinds: small ones, halves of a chunk, whole chunks and two chunks, each around its boundary */
static const u32 lo_[5] = {16, 32700, 65400, 130900, 16}, ma_[5] = {63, 63, 127, 127, 255};
static void go(int q, long k, int w, int order, int un) {
  if (k >= hn[q]) { sym_assert(1, ""); return; }
  for (int s = 0; s < hl[q]; s++) {
    int o = H[q][k][s];
    if (o >= 0) { if (B[o].live) free_(o); }
    else { int x = w < 0 ? 4 : w & 3; if (w > 0) w >>= 2; alloc_(lo_[x], ma_[x]); }
    if (s == un) unused_();
  }
  finish_(order);
}
static void h_small(long a) { go(1, a, -1, a % 3, (a * 5) % 9); }
static void h_long(long a) { go(2, a, -1, a % 3, (a * 5) % 11); }
static void h_sizes(long a) { go(3, a / 256, a % 256, a % 3, (a / 3) % 6); }
static void h_sizes5(long a) { go(0, a / 1024, a % 1024, a % 3, (a / 3) % 7); }
static void h_nomap(long a) { failmap = a % 2; go(3, a / 32, (a / 2 % 16) * 5 + 64 * (a % 4), a % 3, 9); }
void h_setup(void) {
  if (mmap((void *)ARENA, ASIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA) { printf("arena\n"); fflush(stdout); exit(8); }
  build();
#ifdef COUNT
  for (int q = 0; q < 4; q++) printf("%d: %d\n", hl[q], hn[q]);
#endif
}
struct xh harnesses[] = {{"small", h_small, 76}, {"sizes", h_sizes, 2560}, {"long", h_long, 232}, {"sizes5", h_sizes5, 26 * 1024}, {"nomap", h_nomap, 320}, {0}};
