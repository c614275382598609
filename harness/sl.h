/* Common frame of the sljit harnesses: a function loads all registers from a context, runs the operation under test and
   stores all registers back; the whole context is compared with what the reference leaves. */
#ifndef SL_H
#define SL_H
#include "hlib.h"
#include <sljitLir.h>
#include <stddef.h>
#define NR 13                   /* r[0..6] R0..R6, r[7..12] S5..S0 (sljit's own numbering, less one) */
#define NF 15
#define NLOC 4
struct cx { u64 r[NR]; u64 f[NF]; u64 loc[NLOC]; u8 mem[96]; };
static struct cx A __attribute__((aligned(64))), P, E;
#define MOFF ((long)offsetof(struct cx, mem))
#define RG(n) ((n) + 1)         /* register number of r[n] */
#define FR(n) ((n) + 1)
#define S0_ SLJIT_S0
typedef struct sljit_compiler C_;
struct op_ { int k; long w; };  /* an operand as sljit takes it */
static u32 usereg, usefreg;     /* registers loaded and stored; S0 holds the context */
static int useloc;
static C_ *begin(void) {
  C_ *c = sljit_create_compiler(0);
  sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 7 | SLJIT_ENTER_FLOAT(usefreg ? NF : 0), 6, 64);
  if (useloc) for (int i = 0; i < NLOC; i++) {
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(S0_), (long)offsetof(struct cx, loc) + 8 * i);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 8 * i, SLJIT_R0, 0);
  }
  for (int i = 0; i < NF; i++) if (usefreg >> i & 1)
    sljit_emit_fop1(c, SLJIT_MOV_F64, FR(i), 0, SLJIT_MEM1(S0_), (long)offsetof(struct cx, f) + 8 * i);
  for (int i = 0; i < 12; i++) if (usereg >> i & 1) sljit_emit_op1(c, SLJIT_MOV, RG(i), 0, SLJIT_MEM1(S0_), 8 * i);
  return c;
}
static void *finish_(C_ *c) {
  void *f = sljit_generate_code(c, 0, 0);
  if (!f || sljit_get_compiler_error(c) != SLJIT_ERR_COMPILED) { printf("sljit error %d\n", sljit_get_compiler_error(c)); fflush(stdout); exit(8); }
  sljit_free_compiler(c);
  return f;
}
static void emit_tail(C_ *c) {
  for (int i = 0; i < 12; i++) if (usereg >> i & 1) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), 8 * i, RG(i), 0);
  for (int i = 0; i < NF; i++) if (usefreg >> i & 1)
    sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_MEM1(S0_), (long)offsetof(struct cx, f) + 8 * i, FR(i), 0);
  if (useloc) for (int i = 0; i < NLOC; i++) {
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), 8 * i);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), (long)offsetof(struct cx, loc) + 8 * i, SLJIT_R0, 0);
  }
  sljit_emit_return_void(c);
}
static void *finish(C_ *c) { emit_tail(c); return finish_(c); }
static u64 msk(int n) { return n == 8 ? ~0ul : (1ul << 8 * n) - 1; }
/* address of a memory operand, as an offset in the context */
static u8 *addr_of(struct cx *x, struct op_ o) {
  u64 a = o.k & SLJIT_MEM ? 0 : 0; int b = o.k & 0x7f, i = o.k >> 8 & 0x7f;
  if (b == SLJIT_SP) return (u8 *)x->loc + o.w + (i ? x->r[i - 1] : 0);
  if (b) a = b == S0_ ? (u64)&A : P.r[b - 1];
  if (i) a += P.r[i - 1] << o.w; else a += o.w;
  return (u8 *)x + (a - (u64)&A);
}
static u64 get_(struct op_ o, int n, int sgn) {
  u64 v = 0;
  if (o.k == SLJIT_IMM) v = o.w;
  else if (o.k & SLJIT_MEM) memcpy(&v, addr_of(&P, o), n);
  else v = P.r[o.k - 1];
  int s = 64 - 8 * n;
  return sgn ? (u64)((s64)(v << s) >> s) : v << s >> s;
}
/* n bytes into memory, or a register: hi says whether the upper half of a 32-bit result is defined */
static u64 undef[NR + NF];
static void put_(struct op_ o, int n, u64 v) {
  if (o.k & SLJIT_MEM) memcpy(addr_of(&E, o), &v, n);
  else { E.r[o.k - 1] = v; undef[o.k - 1] = 0; }
}
static void put32(struct op_ o, u64 v) { put_(o, 4, (u32)v); if (!(o.k & SLJIT_MEM)) undef[o.k - 1] = 0xffffffff00000000ul; }
static void want_(const char *what) {
  u64 bad = 0, *a = (u64 *)&A, *e = (u64 *)&E;
  for (int i = 0; i < (int)(sizeof(struct cx) / 8); i++) bad |= (a[i] ^ e[i]) & ~(i < NR + NF ? undef[i] : 0);
  sym_assert(bad == 0, what);
}
static void start_(void) { for (int i = 0; i < NR + NF; i++) undef[i] = 0; P = A; E = A; }
static u64 ref2(int op, u64 a, u64 b, int w) {     /* w: 32 or 64 */
  u64 m = w == 32 ? 0xffffffffu : ~0ul, s = b & (w - 1);
  a &= m; b &= m;
  switch (op & ~SLJIT_32) {
    case SLJIT_ADD: return (a + b) & m;
    case SLJIT_SUB: return (a - b) & m;
    case SLJIT_MUL: return w == 32 ? (u64)((u32)a * (u32)b) : a * b;
    case SLJIT_AND: return a & b;
    case SLJIT_OR: return a | b;
    case SLJIT_XOR: return a ^ b;
    case SLJIT_SHL: case SLJIT_MSHL: return w == 32 ? (u64)((u32)a << (s & 31)) : a << (s & 63);
    case SLJIT_LSHR: case SLJIT_MLSHR: return w == 32 ? (u64)((u32)a >> (s & 31)) : a >> (s & 63);
    case SLJIT_ASHR: case SLJIT_MASHR: return w == 32 ? (u64)(u32)((int)a >> (s & 31)) : (u64)((s64)a >> (s & 63));
    case SLJIT_ROTL: return w == 32 ? (u64)((u32)a << (s & 31) | (u32)a >> (-s & 31)) : a << (s & 63) | a >> (-s & 63);
    case SLJIT_ROTR: return w == 32 ? (u64)((u32)a >> (s & 31) | (u32)a << (-s & 31)) : a >> (s & 63) | a << (-s & 63);
  }
  return 0;
}
static int needmask(int op) { op &= ~SLJIT_32; return op == SLJIT_SHL || op == SLJIT_LSHR || op == SLJIT_ASHR; }
static int opw(int o, int w) { return o | (w ? SLJIT_32 : 0); }
static void alluse(void) { usereg = 0xfff; usefreg = 0; useloc = 1; }
static struct cx S;
static void inputs(void) {
  for (int i = 0; i < 12; i++) S.r[i] = in64("r", i);
  for (int i = 0; i < NLOC; i++) S.loc[i] = in64("l", i);
  for (int i = 0; i < NF; i++) if (usefreg >> i & 1) S.f[i] = in64("f", i);
  sym_bytes(S.mem, sizeof S.mem, "mem");
}
static void run(void *f) { ((void (*)(void *))f)(&A); }
#define IMM(v) {SLJIT_IMM, v}
#define M1(r, w) {SLJIT_MEM1(r), w}
#endif
