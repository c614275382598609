/* D01: integer operations in every operand form. */
#include "sl.h"
/* registers: R0 rax, R3 rcx, R4 r8, S4 rbp, S5 r12; bases S0 rbx, S3 r13, R6 r10, R0; index S1 r15 */
static struct op_ form[] = {
  {SLJIT_R0, 0}, {SLJIT_R3, 0}, {SLJIT_R4, 0}, {SLJIT_S4, 0}, {SLJIT_S5, 0},
  M1(SLJIT_S0, MOFF + 8), M1(SLJIT_S3, 0), M1(SLJIT_R6, -8), {SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 3}, {SLJIT_MEM0(), (long)&A + MOFF + 40}, M1(SLJIT_R0, 8),
  M1(SLJIT_SP, 8), M1(SLJIT_S2, 1l << 40), M1(SLJIT_R3, 0),
#define NDST 14
  IMM(0), IMM(1), IMM(-1), IMM(8), IMM(127), IMM(-128), IMM(128), IMM(0x7fffffff), IMM(-0x80000000l), IMM(0x80000000l), IMM(0xffffffffl), IMM(0x123456789abcdefl), IMM(31), IMM(63),
  IMM(3), IMM(-129), IMM(-0x80000001l), IMM(1l << 62)
};
#define NF_ ((int)(sizeof form / sizeof *form))
static int isimm(int f) { return f >= NDST; }
static void bases(struct op_ o) {
  int b = o.k & 0x7f, i = o.k >> 8 & 0x7f;
  if (!(o.k & SLJIT_MEM)) return;
  if (b == SLJIT_S3) A.r[b - 1] = (u64)A.mem + 24;
  if (b == SLJIT_R6) A.r[b - 1] = (u64)A.mem + 64;
  if (b == SLJIT_R0) A.r[b - 1] = (u64)A.mem + 72;
  if (b == SLJIT_R3) A.r[b - 1] = (u64)A.mem + 32;
  if (b == SLJIT_S2) A.r[b - 1] = (u64)A.mem + 16 - (1ul << 40);
  if (i) A.r[i - 1] = (MOFF + 80) / 8;
}
static const int op2s[] = {SLJIT_ADD, SLJIT_SUB, SLJIT_MUL, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR, SLJIT_ASHR, SLJIT_MASHR, SLJIT_ROTL, SLJIT_ROTR};
#define NOP2 14
/* programs: op x width x src1 x src2 x 4 destinations */
static int dst_of(int op, int i, int j, int d) {
  if (d == 0) return i < NDST ? i : (j * 5 + op) % NDST;
  if (d == 1) return j < NDST ? j : (i * 7 + op + 3) % NDST;
  return (i * 5 + j * 3 + op + (d - 2) * 5 + 1) % NDST;
}
#define ND 4
static void *f2[NOP2][2][NF_][NF_][ND], *f2u[NOP2][2][NF_][NF_ > 0 ? 4 : 1];
static const int op1s[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P,
  SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16,
  SLJIT_CLZ, SLJIT_CTZ, SLJIT_REV, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV_U32, SLJIT_REV_S32, SLJIT_CLZ32, SLJIT_CTZ32, SLJIT_REV32, SLJIT_REV32_U16, SLJIT_REV32_S16};
#define NOP1 25
#define NMOV 13
static void *f1[NOP1][NF_][NDST];
#define NSF 12
#define SZERO 9
static void *f0[12], *fr[2][NDST][NF_ > 0 ? NF_ : 1], *fs[4][2][2][5][5][5][NSF];
static const int op0s[] = {SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_SW, SLJIT_DIVMOD_S32, SLJIT_DIV_UW, SLJIT_DIV_U32, SLJIT_DIV_SW, SLJIT_DIV_S32, SLJIT_NOP, SLJIT_MEMORY_BARRIER};
static const int sops[] = {SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR};
static const struct op_ sform[] = {{SLJIT_R0, 0}, {SLJIT_R3, 0}, {SLJIT_S5, 0}, {SLJIT_R1, 0}, M1(SLJIT_S0, MOFF + 8), {SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 3}, M1(SLJIT_R0, 8), M1(SLJIT_R3, 0), M1(SLJIT_S2, 1l << 40), IMM(0), IMM(5), IMM(63)};
static const int sreg[] = {SLJIT_R0, SLJIT_R3, SLJIT_S5, SLJIT_R1, SLJIT_R4};
void h_setup(void) {
  alluse();
  for (int o = 0; o < NOP2; o++) for (int w = 0; w < 2; w++) for (int i = 0; i < NF_; i++) for (int j = 0; j < NF_; j++) {
    for (int d = 0; d < ND; d++) {
      if (isimm(i) && isimm(j) && d) continue;
      struct op_ a = form[i], b = form[j], t = form[dst_of(o, i, j, d)];
      C_ *c = begin();
      sljit_emit_op2(c, opw(op2s[o], w), t.k, t.w, a.k, a.w, b.k, b.w);
      f2[o][w][i][j][d] = finish(c);
    }
  }
  for (int o = 0; o < NOP1; o++) for (int i = 0; i < (o < NMOV ? NF_ : NDST); i++) for (int d = 0; d < NDST; d++) {
    C_ *c = begin();
    sljit_emit_op1(c, op1s[o], form[d].k, form[d].w, form[i].k, form[i].w);
    f1[o][i][d] = finish(c);
  }
  for (int o = 0; o < 12; o++) { C_ *c = begin(); sljit_emit_op0(c, op0s[o]); f0[o] = finish(c); }
  for (int o = 0; o < 4; o++) for (int w = 0; w < 2; w++) for (int nz = 0; nz < 2; nz++) for (int d = 0; d < 5; d++)
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int s = 0; s < NSF; s++) {
      if (d == b || (nz && s == SZERO)) continue;
      C_ *c = begin();
      sljit_emit_shift_into(c, opw(sops[o], w) | (nz ? SLJIT_SHIFT_INTO_NON_ZERO : 0), sreg[d], sreg[a], sreg[b], sform[s].k, sform[s].w);
      fs[o][w][nz][d][a][b][s] = finish(c);
    }
  for (int w = 0; w < 2; w++) for (int i = 0; i < NDST; i++) for (int j = 0; j < NF_; j++) {
    C_ *c = begin();
    sljit_emit_op2r(c, opw(SLJIT_MULADD, w), SLJIT_R3, form[i].k, form[i].w, form[j].k, form[j].w);
    fr[w][i][j] = finish(c);
  }
}
/* keeps an unmasked shift count in its documented range; 0: the operand is an address here */
static int isbase(struct op_ o, int r) { return (o.k & SLJIT_MEM) && ((o.k & 0x7f) == r || (o.k >> 8 & 0x7f) == r); }
static int clip(struct op_ o, struct op_ x, struct op_ y, int n, int mask, int nz) {
  if (o.k == SLJIT_IMM || !(mask | nz)) return 1;
  if (!(o.k & SLJIT_MEM) && (isbase(x, o.k) || isbase(y, o.k))) return 0;
  u64 v = get_(o, n, 0);
  if (mask) v &= 8 * n - 1;
  if (nz) v |= (v & (8 * n - 1)) == 0;
  if (!(o.k & SLJIT_MEM) && n == 4) v |= get_(o, 8, 0) >> 32 << 32;
  E = A; put_(o, n, v); A = E; P = A;
  return 1;
}
static void h_op2(long arg) {
  int i = arg % NF_, w = arg / NF_ % 2, o = arg / NF_ / 2, W = w ? 32 : 64, n = w ? 4 : 8;
  inputs();
  for (int j = 0; j < NF_; j++) for (int d = 0; d < ND; d++) {
    void *f = f2[o][w][i][j][d];
    if (!f) continue;
    struct op_ a = form[i], b = form[j], t = form[dst_of(o, i, j, d)];
    A = S; bases(a); bases(b); bases(t); start_();
    if (!clip(b, a, t, n, needmask(op2s[o]), 0)) continue;
    u64 x = get_(a, n, 0), y = get_(b, n, 0), v;
    v = ref2(op2s[o], x, y, W);
    if (w) put32(t, v); else put_(t, 8, v);
    run(f);
    want_("an integer operation leaves a wrong result or changes something else");
  }
  sym_reach("op2");
}
static const int bytes1[] = {8, 1, 1, 2, 2, 4, 4, 4, 8, 1, 1, 2, 2};
static const int sgn1[] = {0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 1, 0, 1};
static u64 bswap(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) r |= (v >> 8 * i & 255) << 8 * (n - 1 - i); return r; }
static u64 clz_(u64 v, int w) { u64 r = 0; for (int s = w / 2; s; s /= 2) { u64 z = !(v >> (w - s)); r += z * s; v = (z ? v << s : v) & (w == 32 ? 0xffffffffu : ~0ul); } return r + (v == 0); }
static u64 ctz_(u64 v, int w) { u64 r = 0; for (int s = w / 2; s; s /= 2) { u64 z = !(v & ((1ul << s) - 1)); r += z * s; v = z ? v >> s : v; } return r + !(v & 1); }
static void h_op1(long arg) {
  int o = arg / NF_, i = arg % NF_;
  if (o >= NMOV && isimm(i)) { sym_assert(1, ""); return; }
  inputs();
  for (int d = 0; d < NDST; d++) {
    struct op_ a = form[i], t = form[d];
    void *f = f1[o][i][d];
    A = S; bases(a); bases(t); start_();
    if (o < NMOV) {
      u64 v = get_(a, bytes1[o], sgn1[o]);
      if (o == 7 || o >= 9) { if (t.k & SLJIT_MEM) put_(t, bytes1[o], v); else put32(t, v); }
      else put_(t, bytes1[o], v);
    } else switch (op1s[o]) {
      case SLJIT_CLZ: put_(t, 8, clz_(get_(a, 8, 0), 64)); break;
      case SLJIT_CTZ: put_(t, 8, ctz_(get_(a, 8, 0), 64)); break;
      case SLJIT_CLZ32: put32(t, clz_(get_(a, 4, 0), 32)); break;
      case SLJIT_CTZ32: put32(t, ctz_(get_(a, 4, 0), 32)); break;
      case SLJIT_REV: put_(t, 8, bswap(get_(a, 8, 0), 8)); break;
      case SLJIT_REV32: put32(t, bswap(get_(a, 4, 0), 4)); break;
      case SLJIT_REV_U32: put_(t, t.k & SLJIT_MEM ? 4 : 8, bswap(get_(a, 4, 0), 4)); break;
      case SLJIT_REV_S32: put_(t, t.k & SLJIT_MEM ? 4 : 8, (s64)(int)bswap(get_(a, 4, 0), 4)); break;
      case SLJIT_REV_U16: put_(t, t.k & SLJIT_MEM ? 2 : 8, bswap(get_(a, 2, 0), 2)); break;
      case SLJIT_REV_S16: put_(t, t.k & SLJIT_MEM ? 2 : 8, (s64)(short)bswap(get_(a, 2, 0), 2)); break;
      case SLJIT_REV32_U16: if (t.k & SLJIT_MEM) put_(t, 2, bswap(get_(a, 2, 0), 2)); else put32(t, bswap(get_(a, 2, 0), 2)); break;
      case SLJIT_REV32_S16: if (t.k & SLJIT_MEM) put_(t, 2, bswap(get_(a, 2, 0), 2)); else put32(t, (s64)(short)bswap(get_(a, 2, 0), 2)); break;
    }
    run(f);
    want_("a move, count or byte reversal leaves a wrong result or changes something else");
  }
  sym_reach("op1");
}
static void h_op0(long o) {
  inputs(); A = S; start_();
  u64 a = P.r[0], b = P.r[1], q = a, r = b;
  struct op_ R0 = {SLJIT_R0, 0}, R1 = {SLJIT_R1, 0};
  switch (op0s[o]) {
    case SLJIT_LMUL_UW: { unsigned __int128 p = (unsigned __int128)a * b; q = p; r = p >> 64; break; }
    case SLJIT_LMUL_SW: __asm__("imulq %3" : "=a"(q), "=d"(r) : "a"(a), "r"(b) : "cc"); break;
    case SLJIT_DIVMOD_UW: case SLJIT_DIV_UW: sym_assume(b != 0); q = a / b; r = a % b; break;
    case SLJIT_DIVMOD_SW: case SLJIT_DIV_SW: sym_assume(b != 0 & !(b == ~0ul & a == 1ul << 63)); q = (s64)a / (s64)b; r = (s64)a % (s64)b; break;
    case SLJIT_DIVMOD_U32: case SLJIT_DIV_U32: sym_assume((u32)b != 0); q = (u32)a / (u32)b; r = (u32)a % (u32)b; break;
    case SLJIT_DIVMOD_S32: case SLJIT_DIV_S32: sym_assume((u32)b != 0 & !((u32)b == ~0u & (u32)a == 1u << 31)); q = (int)a / (int)b; r = (int)a % (int)b; break;
  }
  if (o == 6 || o == 7 || o == 8 || o == 9) r = b;
  if (o < 10) {
    if (op0s[o] & SLJIT_32) { put32(R0, q); if (o < 6) put32(R1, r); else undef[1] = 0; } else { put_(R0, 8, q); put_(R1, 8, r); }
  }
  run(f0[o]);
  want_("a multiplication or division leaves a wrong result or changes something else");
  sym_reach("op0");
}
static void h_shift_into(long arg) {
  int s = arg % NSF, nz = arg / NSF % 2, w = arg / NSF / 2 % 2, o = arg / NSF / 4, W = w ? 32 : 64, n = w ? 4 : 8;
  if (nz && s == SZERO) { sym_assert(1, ""); return; }
  inputs();
  for (int d = 0; d < 5; d++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) {
    void *f = fs[o][w][nz][d][a][b][s];
    if (!f) continue;
    struct op_ t = {sreg[d], 0}, x = {sreg[a], 0}, y = {sreg[b], 0};
    A = S; bases(sform[s]); start_();
    if (!clip(sform[s], sform[s], sform[s], n, o == 0 || o == 2, nz)) continue;
    u64 c = get_(sform[s], n, 0), p = get_(x, n, 0), q = get_(y, n, 0), m = w ? 0xffffffffu : ~0ul, v;
    c &= W - 1;
    if (o < 2) v = w ? (u32)p << (c & 31) | ((u32)q >> 1) >> ((c ^ 31) & 31) : p << (c & 63) | (q >> 1) >> ((c ^ 63) & 63);
    else v = w ? (u32)p >> (c & 31) | ((u32)q << 1) << ((c ^ 31) & 31) : p >> (c & 63) | (q << 1) << ((c ^ 63) & 63);
    if (w) put32(t, v); else put_(t, 8, v);
    (void)m;
    run(f);
    want_("a double-width shift leaves a wrong result or changes something else");
  }
  sym_reach("shift_into");
}
static void h_muladd(long arg) {
  int w = arg % 2, i = arg / 2, n = w ? 4 : 8;
  inputs();
  for (int j = 0; j < NF_; j++) {
    struct op_ t = {SLJIT_R3, 0};
    A = S; bases(form[i]); bases(form[j]); start_();
    u64 v = P.r[3] + get_(form[i], n, 0) * get_(form[j], n, 0);
    if (w) put32(t, (u32)P.r[3] + (u32)get_(form[i], 4, 0) * (u32)get_(form[j], 4, 0)); else put_(t, 8, v);
    run(fr[w][i][j]);
    want_("a multiply-add leaves a wrong result or changes something else");
  }
  sym_reach("muladd");
}
/* the operation is emitted with an arbitrary immediate: the emitter runs symbolically too */
static const int idst[] = {0, 2, 5, 3};
static void h_imm(long arg) {
  int left = arg & 1, k = arg >> 1 & 3, w = arg >> 3 & 1, o = arg >> 4;
  inputs();
  struct op_ b = {SLJIT_IMM, in64("imm", -1)}, a = form[(o + k) % 6], t = form[idst[k]], x = left ? b : a, y = left ? a : b;
  if (w) sym_assume(b.w == (int)b.w | b.w == (u32)b.w);
  A = S; bases(a); bases(t); start_();
  C_ *c = begin();
  int r = o < NOP2 ? sljit_emit_op2(c, opw(op2s[o], w), t.k, t.w, x.k, x.w, y.k, y.w)
    : o == NOP2 ? sljit_emit_op1(c, w ? SLJIT_MOV32 : SLJIT_MOV, t.k, t.w, b.k, b.w)
    : sljit_emit_op2r(c, opw(SLJIT_MULADD, w), SLJIT_R3, x.k, x.w, y.k, y.w);
  sym_assert(r == 0, "an operation with an immediate is refused");
  void *f = finish(c);
  int W = w ? 32 : 64, n = w ? 4 : 8;
  if (o < NOP2 && left && needmask(op2s[o]) && !clip(y, y, t, n, 1, 0)) { sym_assert(1, ""); return; }
  u64 p = get_(x, n, 0), q = get_(y, n, 0), v;
  if (o == 2 || o > NOP2) {        /* products: the same value, in the form the multiplication sees it */
    u64 z = b.w;
    if ((s64)(signed char)z == (s64)z) { sym_reach("imm8"); z = (s64)(signed char)z; } else if ((s64)(int)z == (s64)z) { sym_reach("imm32"); z = (s64)(int)z; }
    if (left) p = w ? (u32)z : z; else q = w ? (u32)z : z;
  }
  if (o < NOP2) { v = ref2(op2s[o], p, q, W); }
  else if (o == NOP2) v = b.w;
  else { v = w ? (u64)((u32)P.r[3] + (u32)p * (u32)q) : P.r[3] + p * q; t = (struct op_){SLJIT_R3, 0}; }
  if (w) put32(t, v); else put_(t, 8, v);
  run(f);
  want_("an operation with an immediate leaves a wrong result or changes something else");
  sym_reach("imm");
}
struct xh harnesses[] = {{"op2", h_op2, NOP2 * 2 * NF_}, {"op1", h_op1, NOP1 * NF_}, {"op0", h_op0, 12}, {"imm", h_imm, (NOP2 + 2) * 16}, {"shift_into", h_shift_into, NSF * 2 * 2 * 4}, {"muladd", h_muladd, 2 * NDST}, {0}};
