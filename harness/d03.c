/* D03: floating point moves, arithmetic, conversions, constants, comparisons and selects. */
#include "sl.h"
static const struct op_ ff[] = {{SLJIT_FR0, 0}, {SLJIT_FR3, 0}, {SLJIT_FR9, 0}, M1(SLJIT_S0, MOFF + 8), {SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 3}, M1(SLJIT_S2, 1l << 40)};
#define NFF 6
static const struct op_ fi[] = {{SLJIT_R1, 0}, {SLJIT_S5, 0}, M1(SLJIT_S0, MOFF + 8), {SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 3}, M1(SLJIT_S2, 1l << 40),
  IMM(0), IMM(-1), IMM(0x7fffffff), IMM(-0x80000000l), IMM(0xffffffffl), IMM(0x123456789abcdefl), IMM(-0x7fffffffffffffffl - 1)};
#define NFI 12
#define NFIL 5
static void bases(void) { A.r[SLJIT_S1 - 1] = (MOFF + 16) / 8; A.r[SLJIT_S2 - 1] = (u64)A.mem + 24 - (1ul << 40); }
static void start(void) { A = S; bases(); start_(); }
static u64 getf(struct op_ o, int n) { u64 v = 0; if (o.k & SLJIT_MEM) memcpy(&v, addr_of(&P, o), n); else v = P.f[o.k - 1]; return n == 4 ? (u32)v : v; }
#define HI 0xffffffff00000000ul
static void putf(struct op_ o, int n, u64 v) { if (o.k & SLJIT_MEM) memcpy(addr_of(&E, o), &v, n); else { E.f[o.k - 1] = v; undef[NR + o.k - 1] = n == 4 ? HI : 0; } }
static int isn(u64 v, int n) { return n == 4 ? ((u32)v & 0x7fffffff) > 0x7f800000 : (v & ~0ul >> 1) > 0x7ff0000000000000ul; }
/* any NaN will do where the expected result is one */
static void anynan(struct op_ o, int n) {
  u8 *e = o.k & SLJIT_MEM ? addr_of(&E, o) : (u8 *)&E.f[o.k - 1], *g = (u8 *)&A + (e - (u8 *)&E); u64 x = 0, y = 0;
  memcpy(&x, e, n); memcpy(&y, g, n);
  y ^= (x ^ y) & -(u64)(isn(x, n) & isn(y, n));
  memcpy(g, &y, n);
}
#define F64(v) ({ u64 v_ = (v); double d_; memcpy(&d_, &v_, 8); d_; })
#define F32(v) ({ u32 v_ = (v); float d_; memcpy(&d_, &v_, 4); d_; })
#define U64(v) ({ double d_ = (v); u64 v_; memcpy(&v_, &d_, 8); v_; })
#define U32(v) ({ float d_ = (v); u32 v_; memcpy(&v_, &d_, 4); (u64)v_; })
/* arithmetic */
static const int a2[] = {SLJIT_ADD_F64, SLJIT_SUB_F64, SLJIT_MUL_F64, SLJIT_DIV_F64, SLJIT_COPYSIGN_F64};
static u64 ar(int op, u64 a, u64 b, int n) {
  if (n == 4) switch (op) {
    case 0: return U32(F32(a) + F32(b)); case 1: return U32(F32(a) - F32(b)); case 2: return U32(F32(a) * F32(b)); case 3: return U32(F32(a) / F32(b));
    default: return (a & 0x7fffffff) | (b & 0x80000000u);
  } else switch (op) {
    case 0: return U64(F64(a) + F64(b)); case 1: return U64(F64(a) - F64(b)); case 2: return U64(F64(a) * F64(b)); case 3: return U64(F64(a) / F64(b));
    default: return (a & ~0ul >> 1) | (b & 1ul << 63);
  }
}
static void *f2[5][2][NFF][NFF][NFF];
static void h_fop2(long arg) {
  int w = arg & 1, o = (arg >> 1) % 5, i = (arg >> 1) / 5, n = w ? 4 : 8;
  inputs();
  int j = in_pick("j", -1, NFF), d = in_pick("d", -1, NFF);
  if (!f2[o][w][i][j][d]) { sym_assert(1, ""); return; }
  start();
  putf(ff[d], n, ar(o, getf(ff[i], n), getf(ff[j], n), n));
  run(f2[o][w][i][j][d]);
  if (o < 4) anynan(ff[d], n);
  want_("a floating point operation stores a wrong result or changes something else");
  sym_reach("fop2");
}
/* one operand, float to float: MOV, NEG, ABS, CONV */
static const int a1[] = {SLJIT_MOV_F64, SLJIT_MOV_F32, SLJIT_NEG_F64, SLJIT_NEG_F32, SLJIT_ABS_F64, SLJIT_ABS_F32, SLJIT_CONV_F64_FROM_F32, SLJIT_CONV_F32_FROM_F64};
static void *f1[8][NFF][NFF];
static void h_fop1(long arg) {
  int o = arg % 8, i = arg / 8, n = o & 1 ? 4 : 8, sn = o == 6 ? 4 : o == 7 ? 8 : n; u64 v;
  inputs();
  int d = in_pick("d", -1, NFF);
  start();
  v = getf(ff[i], sn);
  if ((o & ~1) == 2) v ^= 1ul << (8 * n - 1); else if ((o & ~1) == 4) v &= ~(1ul << (8 * n - 1));
  if (o == 6) v = U64((double)F32(v)); else if (o == 7) v = U32((float)F64(v));
  putf(ff[d], n, v);
  if (o == 6 && !(ff[i].k & SLJIT_MEM) && i != d) undef[NR + ff[i].k - 1] = HI;      /* the unused half of a 32 bit register */
  run(f1[o][i][d]);
  if (o >= 6) anynan(ff[d], n);
  want_("a floating point move, negation, absolute value or conversion is wrong");
  sym_reach("fop1");
}
/* integer to float and back */
static const int ci[] = {SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F32_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F32_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F32_FROM_UW, SLJIT_CONV_F64_FROM_U32, SLJIT_CONV_F32_FROM_U32};
static void *fti[8][NFI][NFF];
static void h_fromint(long arg) {
  int o = arg & 7, i = arg >> 3, n = o & 1 ? 4 : 8, s32 = o >> 1 & 1; u64 x, v;
  inputs();
  int d = in_pick("d", -1, NFF);
  start();
  x = get_(fi[i], s32 ? 4 : 8, 0);
  switch (o) {
    case 0: v = U64((double)(s64)x); break; case 1: v = U32((float)(s64)x); break; case 2: v = U64((double)(int)x); break; case 3: v = U32((float)(int)x); break;
    case 6: v = U64((double)(u32)x); break; case 7: v = U32((float)(u32)x); break;
    /* rounding of the upper half to odd keeps what decides the rounding */
    case 4: if ((s64)x < 0) { sym_reach("big"); double h = (double)(s64)(x >> 1 | (x & 1)); v = U64(h + h); } else v = U64((double)(s64)x); break;
    default: if ((s64)x < 0) { sym_reach("big"); float h = (float)(s64)(x >> 1 | (x & 1)); v = U32(h + h); } else v = U32((float)(s64)x);
  }
  putf(ff[d], n, v);
  run(fti[o][i][d]);
  want_("a conversion from an integer is wrong");
  sym_reach("fromint");
}
static const int ti[] = {SLJIT_CONV_SW_FROM_F64, SLJIT_CONV_SW_FROM_F32, SLJIT_CONV_S32_FROM_F64, SLJIT_CONV_S32_FROM_F32};
static void *ftf[4][NFF][NFIL];
static void h_toint(long arg) {
  int o = arg & 3, i = arg >> 2, n = o & 1 ? 4 : 8, w = o >> 1; u64 x, v; int in;
  inputs();
  int d = in_pick("d", -1, NFIL);
  start();
  x = getf(ff[i], n);
  if (n == 8) { double y = F64(x); in = w ? y > -2147483649.0 && y < 2147483648.0 : y >= -0x1p63 && y < 0x1p63; v = w ? (u64)(u32)(int)y : (u64)(s64)y; }
  else { float y = F32(x); in = w ? y >= -0x1p31f && y < 0x1p31f : y >= -0x1p63f && y < 0x1p63f; v = w ? (u64)(u32)(int)y : (u64)(s64)y; }
  if (w) put32(fi[d], v); else put_(fi[d], 8, v);
  run(ftf[o][i][d]);
  if (!in) { /* undefined: anything in the destination, nothing else changes */
    sym_reach("out of range");
    u8 *e = fi[d].k & SLJIT_MEM ? addr_of(&E, fi[d]) : (u8 *)&E.r[fi[d].k - 1];
    memcpy(e, (u8 *)&A + (e - (u8 *)&E), fi[d].k & SLJIT_MEM ? 8 >> w : 8);
  }
  want_("a conversion to an integer is wrong");
  sym_reach("toint");
}
/* constants, with the emitter itself run on an arbitrary value; copies between register files */
static void *fcp[4][4][4];
static const int cr[] = {SLJIT_R0, SLJIT_R3, SLJIT_S5, SLJIT_S1}, cf[] = {SLJIT_FR0, SLJIT_FR2, SLJIT_FR7, SLJIT_FR(14)};
static void h_fset(long arg) {
  int w = arg & 1, r = arg >> 1;
  inputs();
  u64 v = in64("v", -1);
  start();
  C_ *c = begin();
  int e = w ? sljit_emit_fset32(c, FR(r), F32(v)) : sljit_emit_fset64(c, FR(r), F64(v));
  sym_assert(e == 0, "a constant is refused");
  void *f = finish(c);
  E.f[r] = v; if (w) undef[NR + r] = HI;
  run(f);
  want_("a floating point constant is not the one given");
  sym_reach("fset");
}
static const int cpo[] = {SLJIT_COPY_TO_F64, SLJIT_COPY32_TO_F32, SLJIT_COPY_FROM_F64, SLJIT_COPY32_FROM_F32};
static void h_fcopy(long arg) {
  int o = arg & 3, i = arg >> 2;
  inputs();
  for (int j = 0; j < 4; j++) {
    start();
    int f = cf[i] - 1, r = cr[j] - 1;
    if (o < 2) { E.f[f] = P.r[r]; if (o & 1) undef[NR + f] = HI; } else { E.r[r] = P.f[f]; if (o & 1) undef[r] = HI; }
    run(fcp[o][i][j]);
    want_("a copy between an integer and a floating point register is wrong");
  }
  sym_reach("fcopy");
}
/* comparisons: flags, jump, integer and float select in one function */
static void *fcm[20][2][NFF][NFF], *fcj[20][2][NFF][NFF], *fsl[20][2][4][NFF][3];
static int fcond(int t, u64 a, u64 b, int n) {
  int un, lt, eq, gt, c = 0;
  if (n == 8) { double x = F64(a), y = F64(b); lt = x < y; gt = x > y; eq = x == y; } else { float x = F32(a), y = F32(b); lt = x < y; gt = x > y; eq = x == y; }
  un = isn(a, n) | isn(b, n);
  switch (t & ~1) {
    case SLJIT_F_EQUAL: case SLJIT_ORDERED_EQUAL: c = eq; break;
    case SLJIT_F_LESS: case SLJIT_ORDERED_LESS: c = lt; break;
    case SLJIT_F_GREATER: case SLJIT_ORDERED_GREATER: c = gt; break;
    case SLJIT_UNORDERED: c = un; break;
    case SLJIT_UNORDERED_OR_EQUAL: c = un | eq; break;
    case SLJIT_UNORDERED_OR_LESS: c = un | lt; break;
    case SLJIT_UNORDERED_OR_GREATER: c = un | gt; break;
  }
  c ^= t & 1;
  return t < SLJIT_UNORDERED && un ? 2 : c;
}
#define OUT1 (MOFF + 48)
static void h_fcmp(long arg) {
  int w = arg & 1, t = SLJIT_F_EQUAL + (arg >> 1) % 20, i = (arg >> 1) / 20, n = w ? 4 : 8;
  inputs();
  int j = in_pick("j", -1, NFF);
  start();
  u64 a = getf(ff[i], n), b = getf(ff[j], n);
  u64 c = fcond(t, a, b, n);
  if (c == 2) { sym_reach("unspecified"); run(fcm[t - 16][w][i][j]); c = A.mem[48] & 1; }
  else run(fcm[t - 16][w][i][j]);
  *(u64 *)(E.mem + 48) = c; *(u64 *)(E.mem + 56) = c;
  E.r[SLJIT_R4 - 1] = c ? P.r[SLJIT_R5 - 1] : P.r[SLJIT_R4 - 1];
  want_("a floating point comparison, or a jump or select on it, goes the wrong way or changes something else");
  sym_reach("fcmp");
  start();
  run(fcj[t - 16][w][i][j]);
  c = fcond(t, a, b, n); if (c == 2) c = A.r[6] & 1;
  E.r[6] = c;
  want_("a floating point compare and jump goes the wrong way");
}
/* select of floats: dst is neither source, the second or the first */
static const struct op_ sd[] = {{SLJIT_FR5, 0}, {SLJIT_FR3, 0}, {0, 0}};
static int sdst(int i, int d) { return d < 2 ? sd[d].k : ff[i].k & SLJIT_MEM ? SLJIT_FR(12) : ff[i].k; }
static void h_fselect(long arg) {
  int t = arg % 20, w = arg / 20 % 2, i = arg / 40, n = w ? 4 : 8;
  inputs();
  int d = in_pick("d", -1, 3), k = in_pick("k", -1, 2);
  start();
  u64 a = k ? P.f[12] : P.f[9], b = P.f[12]; u64 c = fcond(t + 16, a, b, 8);
  if (t + 16 < SLJIT_UNORDERED) c = fcond(t + 16, a, a & 0 ? b : b, 8);
  struct op_ dst = {sdst(i, d), 0}, s2 = {SLJIT_FR3, 0};
  u64 x = getf(ff[i], n), y = getf(s2, n);
  run(fsl[t][w][k][i][d]);
  if (c == 2) { c = A.r[6] & 1; }
  putf(dst, n, c ? x : y);
  E.r[6] = c;
  want_("a select between floating point values takes the wrong one");
  sym_reach("fselect");
}
void h_setup(void) {
  alluse(); useloc = 0; usefreg = 0x7fff;
  for (int w = 0; w < 2; w++) for (int i = 0; i < NFF; i++) for (int j = 0; j < NFF; j++) for (int d = 0; d < NFF; d++) for (int o = 0; o < 5; o++) {
    if (i && j && i != j && i != d && j != d && (i + j + d + o) % 2) continue;
    if (o == 4 && d >= 3) continue;
    C_ *c = begin();
    if (o < 4) sljit_emit_fop2(c, a2[o] | (w ? SLJIT_32 : 0), ff[d].k, ff[d].w, ff[i].k, ff[i].w, ff[j].k, ff[j].w);
    else sljit_emit_fop2r(c, a2[o] | (w ? SLJIT_32 : 0), ff[d].k, ff[i].k, ff[i].w, ff[j].k, ff[j].w);
    f2[o][w][i][j][d] = finish(c);
  }
  for (int o = 0; o < 8; o++) for (int d = 0; d < NFF; d++) {
    for (int i = 0; i < NFF; i++) { C_ *c = begin(); sljit_emit_fop1(c, a1[o], ff[d].k, ff[d].w, ff[i].k, ff[i].w); f1[o][i][d] = finish(c); }
    for (int i = 0; i < NFI; i++) { C_ *c = begin(); sljit_emit_fop1(c, ci[o], ff[d].k, ff[d].w, fi[i].k, fi[i].w); fti[o][i][d] = finish(c); }
  }
  for (int o = 0; o < 4; o++) for (int i = 0; i < NFF; i++) for (int d = 0; d < NFIL; d++) { C_ *c = begin(); sljit_emit_fop1(c, ti[o], fi[d].k, fi[d].w, ff[i].k, ff[i].w); ftf[o][i][d] = finish(c); }
  for (int o = 0; o < 4; o++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { C_ *c = begin(); sljit_emit_fcopy(c, cpo[o], cf[i], cr[j]); fcp[o][i][j] = finish(c); }
  for (int t = 16; t < 36; t++) for (int w = 0; w < 2; w++) for (int i = 0; i < NFF; i++) for (int j = 0; j < NFF; j++) {
    C_ *c = begin();
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT1 + 8, SLJIT_IMM, 1);
    sljit_emit_fop1(c, SLJIT_CMP_F64 | (w ? SLJIT_32 : 0) | SLJIT_SET(t & ~1), ff[i].k, ff[i].w, ff[j].k, ff[j].w);
    sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT1, t);
    sljit_emit_select(c, t, SLJIT_R4, SLJIT_R5, 0, SLJIT_R4);
    struct sljit_jump *x = sljit_emit_jump(c, t);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT1 + 8, SLJIT_IMM, 0);
    sljit_set_label(x, sljit_emit_label(c));
    fcm[t - 16][w][i][j] = finish(c);
    c = begin();
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 1);
    x = sljit_emit_fcmp(c, t | (w ? SLJIT_32 : 0), ff[i].k, ff[i].w, ff[j].k, ff[j].w);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 0);
    sljit_set_label(x, sljit_emit_label(c));
    fcj[t - 16][w][i][j] = finish(c);
  }
  for (int t = 16; t < 36; t++) for (int w = 0; w < 2; w++) for (int i = 0; i < NFF; i++) for (int d = 0; d < 3; d++) for (int k = 0; k < 2; k++) {
    C_ *c = begin();
    sljit_emit_fop1(c, SLJIT_CMP_F64 | SLJIT_SET(t & ~1), k ? SLJIT_FR(12) : SLJIT_FR9, 0, SLJIT_FR(12), 0);
    sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R6, 0, t);
    sljit_emit_fselect(c, t | (w ? SLJIT_32 : 0), sdst(i, d), ff[i].k, ff[i].w, SLJIT_FR3);
    fsl[t - 16][w][k][i][d] = finish(c);
  }
}
struct xh harnesses[] = {{"fop2", h_fop2, 10 * NFF}, {"fop1", h_fop1, 8 * NFF}, {"fromint", h_fromint, 8 * NFI}, {"toint", h_toint, 4 * NFF}, {"fset", h_fset, 2 * NF}, {"fcopy", h_fcopy, 16},
  {"fcmp", h_fcmp, 40 * NFF}, {"fselect", h_fselect, 40 * NFF}, {0}};
