/* D09: the growable stack over any sizes and any resize requests.  The system calls under it are replaced by ones that check what they are
   asked for; nothing dereferences the memory, so its address is a variable as well. */
#define _GNU_SOURCE
#include "hlib.h"
#include <sys/mman.h>
#include <sljitLir.h>
static u64 page, base[2], len[2]; static int nmap, up[2], nomap;
static u64 req_new, req_old; static int cur, resizing;
long h_sysconf(int n) { return page; }
void *h_mmap(void *a, u64 n, int prot, int fl, int fd, long off) {
  sym_assert(a == 0 && fl == (MAP_PRIVATE | MAP_ANON) && prot == (PROT_READ | PROT_WRITE) && off == 0, "the memory is not asked for as such");
  sym_assert((n & (page - 1)) == 0, "the length is not a multiple of the page size");
  if (nomap || n == 0 || n > (1ul << 46)) return MAP_FAILED;
  u64 b = in64("base", nmap) & ((1ul << 47) - page);
  sym_assume((b >= 65536) & (b <= (1ul << 47) - 65536 - n));
  for (int i = 0; i < nmap; i++) if (up[i]) sym_assume((b + n <= base[i]) | (base[i] + len[i] <= b));
  base[nmap] = b; len[nmap] = n; up[nmap] = 1; nmap++;
  return (void *)b;
}
int h_munmap(void *a, u64 n) {
  for (int i = 0; i < nmap; i++) if (i == cur) { sym_assert(up[i] & (base[i] == (u64)a) & (len[i] == n), "what is returned is not the area that was obtained"); up[i] = 0; return 0; }
  sym_assert(0, "something else is returned");
  return -1;
}
static int drop(u64 a, u64 n) {
  sym_assert(resizing, "memory is dropped outside of a resize");
  sym_assert((a & (page - 1)) == 0, "the address of the part that is dropped is not aligned");
  sym_assert((a >= base[cur]) & (a + n >= a) & (a + n <= base[cur] + len[cur]), "memory outside the area is dropped");
  sym_assert((n == 0) | (a + n <= (req_new & -page)), "memory of the part that is kept is dropped");
  return 0;
}
int h_madvise(void *a, u64 n, int how) { return drop((u64)a, n); }
int h_posix_madvise(void *a, u64 n, int how) { return drop((u64)a, n); }
static struct sljit_stack *make(int k) {
  u64 start = in64("start", k), max = in64("max", k), live = sym_live(); int maps = nmap;
  struct sljit_stack *s = sljit_allocate_stack(start, max, 0);
  int valid = (start >= 1) & (start <= max);
  if (!s) {
    sym_assert(sym_live() == live && nmap == maps, "something is left behind by a failed allocation");
    sym_assert(!valid | (max > (1ul << 46) - page) | nomap, "an allocation with valid sizes fails");
    sym_reach("refused"); return 0;
  }
  sym_assert(valid, "an allocation with invalid sizes succeeds");
  sym_assert(nmap == maps + 1 && ((u64)s->min_start == base[maps]) & ((u64)s->end == base[maps] + len[maps]), "the limits are not those of the area");
  sym_assert((len[maps] >= max) & (len[maps] - max < page), "the area is not as large as asked for");
  sym_assert(((u64)s->end - (u64)s->start == start) & (s->top == s->end), "the usable part does not have the size asked for");
  return s;
}
static void resize(struct sljit_stack *s, int k) {
  u64 to = in64("to", k); struct sljit_stack o = *s;
  req_new = to; req_old = (u64)s->start; resizing = 1;
  u64 r = (u64)sljit_stack_resize(s, (u8 *)to);
  resizing = 0;
  int in = (to >= (u64)o.min_start) & (to < (u64)o.end);
  sym_assert((s->min_start == o.min_start) & (s->end == o.end) & (s->top == o.top), "a resize changes what it must not change");
  if (r) { sym_assert(in, "a resize beyond the limits succeeds"); sym_assert((r == to) & ((u64)s->start == to), "a resize does not set the start asked for"); }
  else { sym_assert(!in, "a resize within the limits fails"); sym_assert(s->start == o.start, "a failed resize changes the start"); sym_reach("out of limits"); }
}
static void release(struct sljit_stack *s, int i) { u64 live = sym_live(); cur = i; sljit_free_stack(s, 0); sym_assert(!up[i] && sym_live() == live - 1, "the stack is not released"); }
static const u64 pages[4] = {4096, 8192, 16384, 65536};
/* one stack, a resizes */
static void h_resize(long a) {
  page = pages[a % 4];
  struct sljit_stack *s = make(0); if (!s) return;
  for (int i = 0; i < 1 + a / 4; i++) resize(s, i);
  release(s, 0);
}
/* two stacks at once, released in either order */
static void h_two(long a) {
  page = pages[a % 4]; int o = (a / 4) & 1;
  struct sljit_stack *s[2]; s[0] = make(0); if (!s[0]) return;
  s[1] = make(1); if (!s[1]) { release(s[0], 0); return; }
  for (int i = 0; i < 3; i++) { cur = (a / 8 >> i) & 1; resize(s[cur], i); }
  sym_assert(((u64)s[0]->end <= (u64)s[1]->min_start) | ((u64)s[1]->end <= (u64)s[0]->min_start), "two stacks overlap");
  release(s[o], o); release(s[!o], !o);
}
/* memory runs out */
static void h_fail(long a) {
  page = pages[a % 4]; if (a / 4) nomap = 1; else sym_fail(0);
  u64 start = in64("start", 0), max = in64("max", 0), live = sym_live();
  struct sljit_stack *s = sljit_allocate_stack(start, max, 0);
  sym_assert((u64)s == 0 && sym_live() == live && nmap == 0, "an allocation that fails leaves something behind");
}
void h_setup(void) {}
struct xh harnesses[] = {{"resize", h_resize, 16}, {"two", h_two, 64}, {"fail", h_fail, 8}, {0}};
