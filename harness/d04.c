/* D04: memory operands. */
#include <sys/mman.h>
#include "sl.h"
struct lt { int op, n, s; };
static const struct lt lds[] = {{SLJIT_MOV_U8, 1, 0}, {SLJIT_MOV_S8, 1, 1}, {SLJIT_MOV_U16, 2, 0}, {SLJIT_MOV_S16, 2, 1}, {SLJIT_MOV_U32, 4, 0}, {SLJIT_MOV_S32, 4, 1}, {SLJIT_MOV, 8, 0},
  {SLJIT_MOV_P, 8, 0}, {SLJIT_MOV32, 4, 2}, {SLJIT_MOV32_U8, 1, 2}, {SLJIT_MOV32_S8, 1, 3}, {SLJIT_MOV32_U16, 2, 2}, {SLJIT_MOV32_S16, 2, 3}};
#define NLD 13
/* kinds: 13 loads, 13 stores of a register, 3 stores of a constant, float loads and stores, read-modify-write, memory to memory of the same operand */
#define NK 34
#define K_ST 13
#define K_IM 26
#define K_FL 29
#define K_RM 33
static const u64 imms[] = {0x55, (u64)-2, 0x123456789abcdef0ul};
static struct op_ M;           /* the memory operand */
static int reg_, base_, idx_;  /* the other register, and those in the address */
static int emit_k(C_ *c, int k) {
  if (k < K_ST) return sljit_emit_op1(c, lds[k].op, reg_, 0, M.k, M.w);
  if (k < K_IM) return sljit_emit_op1(c, lds[k - K_ST].op, M.k, M.w, reg_, 0);
  if (k < K_FL) return sljit_emit_op1(c, k == K_IM ? SLJIT_MOV_U8 : k == K_IM + 1 ? SLJIT_MOV32 : SLJIT_MOV, M.k, M.w, SLJIT_IMM, imms[k - K_IM]);
  if (k < K_FL + 2) return sljit_emit_fop1(c, k == K_FL ? SLJIT_MOV_F64 : SLJIT_MOV_F32, SLJIT_FR0, 0, M.k, M.w);
  if (k < K_RM) return sljit_emit_fop1(c, k == K_FL + 2 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, M.k, M.w, SLJIT_FR0, 0);
  return sljit_emit_op2(c, SLJIT_XOR, M.k, M.w, M.k, M.w, reg_, 0);
}
/* what the operation leaves; q: where the operand lies in the expected context */
static void expect(int k, u8 *q) {
  u64 v = 0, r = P.r[reg_ - 1]; int n;
  if (k < K_ST) {
    n = lds[k].n; memcpy(&v, (u8 *)&P + (q - (u8 *)&E), n);
    int s = 64 - 8 * n; if (lds[k].s & 1) v = (s64)(v << s) >> s;
    if (lds[k].s & 2) { v = (u32)v; undef[reg_ - 1] = 0xffffffff00000000ul; }
    E.r[reg_ - 1] = v;
  } else if (k < K_IM) memcpy(q, &r, lds[k - K_ST].n);
  else if (k < K_FL) memcpy(q, &imms[k - K_IM], k == K_IM ? 1 : k == K_IM + 1 ? 4 : 8);
  else if (k < K_FL + 2) { n = k == K_FL ? 8 : 4; memcpy(&v, (u8 *)&P + (q - (u8 *)&E), n); E.f[0] = v; if (n == 4) undef[NR] = 0xffffffff00000000ul; }
  else if (k < K_RM) memcpy(q, &P.f[0], k == K_FL + 2 ? 8 : 4);
  else { memcpy(&v, (u8 *)&P + (q - (u8 *)&E), 8); v ^= r; memcpy(q, &v, 8); }
}
static const int others[] = {SLJIT_R0, SLJIT_S5, SLJIT_R4};
static void pick_reg(int k) {
  reg_ = others[k % 3];
  if (reg_ == base_ || reg_ == idx_) reg_ = others[(k + 1) % 3];
  if (reg_ == base_ || reg_ == idx_) reg_ = others[(k + 2) % 3];
  if (k % 5 == 1 && base_ && base_ != S0_) reg_ = base_;
  if (k % 5 == 3 && idx_ && idx_ != S0_) reg_ = idx_;
}
#define T(k) (A.mem + 24 + (k) % 5)
/* base + any offset: the emitter runs with an arbitrary offset, the base is what makes the address right */
static void h_base(long arg) {
  int k = arg % NK, b = arg / NK;
  inputs();
  s64 w = in64("w", -1);
  A = S; base_ = RG(b); idx_ = 0; pick_reg(k);
  if (b == 12) { w = T(k) - (u8 *)&A; sym_reach("ctx"); } else A.r[b] = (u64)T(k) - w;
  M = (struct op_){SLJIT_MEM1(RG(b)), w};
  C_ *c = begin();
  sym_assert(emit_k(c, k) == 0, "a memory operand is refused");
  void *f = finish(c);
  start_();
  expect(k, E.mem + 24 + k % 5);
  run(f);
  want_("an access through base and offset reads or writes the wrong bytes, or changes something else");
  sym_reach("base");
}
/* base + scaled index, every pair of registers */
static void *fx[13][13][4][NK];
static void h_index(long arg) {
  int b = arg % 13, i = arg / 13;
  inputs();
  u64 x = in64("x", -1);
  int k = in_pick("k", -1, NK);
  for (int s = 0; s < 4; s++) {
    if (!fx[b][i][s][k]) continue;
    u8 *t = T(k);
    A = S; base_ = RG(b); idx_ = RG(i); pick_reg(k);
    if (b == i) { u64 m = (u64)1 + (1 << s), v; t = A.mem + 24; while ((u64)t % m) t++; v = (u64)t / m; if (b == 12) continue; A.r[b] = v; }
    else if (b == 12) { t = A.mem + 24; A.r[i] = (u64)(t - (u8 *)&A) >> s; }
    else if (i == 12) A.r[b] = (u64)t - ((u64)&A << s);
    else { A.r[i] = x; A.r[b] = (u64)t - (x << s); }
    start_();
    expect(k, (u8 *)&E + (t - (u8 *)&A));
    run(fx[b][i][s][k]);
    want_("an access through base and scaled index reads or writes the wrong bytes, or changes something else");
  }
  sym_assert(1, ""); sym_reach("index");
}
/* absolute addresses below, around and above 2^31 and 2^32 */
static u8 *const page[] = {(u8 *)0x20000000, (u8 *)0x7ffff000, (u8 *)0x90000000, (u8 *)0xfffff000, (u8 *)0x500000000};
static const int aoff[] = {0x10, 0xff9, 0x1000, 0x1008, 0x20};
#define NPG 5
static void *fa[NPG][5][NK];
static void h_abs(long arg) {
  int p = arg % NPG, o = arg / NPG;
  inputs();
  int k = in_pick("k", -1, NK);
  u8 *t = page[p] + aoff[o];
  if (!fa[p][o][k]) { sym_assert(1, ""); return; }
  A = S; base_ = idx_ = 0; pick_reg(k); start_();
  memcpy(t - 8, P.mem + 16, 24);
  expect(k, E.mem + 24);
  run(fa[p][o][k]);
  memcpy(A.mem + 16, t - 8, 24);
  want_("an access at an absolute address reads or writes the wrong bytes, or changes something else");
  sym_reach("abs");
}
/* stack: what is stored through the stack pointer is found at the local's address, and the other way round */
static const int soff[] = {0, 8, 119, 120, 124, 127, 128, 132, 255, 2048, 32760, 32768, 39984};
#define NSO 13
#define LOCALS 40000
static void *fs[NSO][2][NK];
static C_ *begin_big(void) {
  C_ *c = sljit_create_compiler(0);
  sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 7 | SLJIT_ENTER_FLOAT(1), 6, LOCALS);
  return c;
}
static void h_sp(long arg) {
  int o = arg % NSO, ix = arg / NSO;
  inputs();
  int k = in_pick("k", -1, NK);
  if (!fs[o][ix][k]) { sym_assert(1, ""); return; }
  base_ = 0; idx_ = ix ? SLJIT_R2 : 0; pick_reg(k);
  A = S; if (ix) A.r[SLJIT_R2 - 1] = soff[o]; start_();
  expect(k, E.mem + 24); memcpy(E.mem, P.mem + 8, 8);
  run(fs[o][ix][k]);
  want_("an access to a local reads or writes the wrong bytes, or the local's address is wrong");
  sym_reach("sp");
}
/* pairs and declared-unaligned accesses */
static const int pr[][2] = {{SLJIT_R0, SLJIT_R1}, {SLJIT_R1, SLJIT_R0}, {SLJIT_S5, SLJIT_R3}, {SLJIT_R4, SLJIT_S4}, {SLJIT_R5, SLJIT_R6}, {SLJIT_R1, SLJIT_S3}};
#define NPR 6
static const struct op_ pm[] = {M1(SLJIT_R0, 0), M1(SLJIT_R1, 120), M1(SLJIT_S5, -128), M1(SLJIT_R4, 1l << 40), M1(SLJIT_R1, 0x7ffffff8), M1(SLJIT_R0, 0x7ffffff7), M1(SLJIT_S4, -0x80000000l),
  {SLJIT_MEM2(SLJIT_R0, SLJIT_R1), 3}, {SLJIT_MEM2(SLJIT_R1, SLJIT_R0), 0}, {SLJIT_MEM2(SLJIT_R4, SLJIT_S5), 1}, {SLJIT_MEM2(SLJIT_S4, SLJIT_R1), 2}, {SLJIT_MEM2(SLJIT_S0, SLJIT_R1), 3}, {SLJIT_MEM2(SLJIT_R5, SLJIT_S4), 2}, {SLJIT_MEM0(), 0x20000010}, {SLJIT_MEM0(), 0x500000020}};
#define NPM 15
static void *fp[NPR][NPM][2];
static void h_pair(long arg) {
  int i = arg % NPR, j = arg / NPR;
  inputs();
  u64 x = in64("x", -1);
  struct op_ m = pm[j]; int b = m.k & 0x7f, y = m.k >> 8 & 0x7f; u8 *t = A.mem + 24;
  for (int st = 0; st < 2; st++) {
    A = S;
    if (!b) ;
    else if (!y) A.r[b - 1] = (u64)t - m.w;
    else if (b == S0_) A.r[y - 1] = (u64)(t - (u8 *)&A) >> m.w;
    else { A.r[y - 1] = x; A.r[b - 1] = (u64)t - (x << m.w); }
    start_();
    if (!b) memcpy((u8 *)m.w, P.mem + 24, 16);
    if (st) { memcpy(E.mem + 24, &P.r[pr[i][0] - 1], 8); memcpy(E.mem + 32, &P.r[pr[i][1] - 1], 8); }
    else { memcpy(&E.r[pr[i][0] - 1], P.mem + 24, 8); memcpy(&E.r[pr[i][1] - 1], P.mem + 32, 8); }
    run(fp[i][j][st]);
    if (!b) memcpy(A.mem + 24, (u8 *)m.w, 16);
    want_("a register pair is not the two words at the address");
  }
  sym_reach("pair");
}
static const struct { int t; struct lt l; } un[] = {{SLJIT_MEM_UNALIGNED, {SLJIT_MOV, 8, 0}}, {SLJIT_MEM_ALIGNED_16, {SLJIT_MOV, 8, 0}}, {SLJIT_MEM_ALIGNED_32, {SLJIT_MOV, 8, 0}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_U32, 4, 0}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_S32, 4, 1}},
  {SLJIT_MEM_UNALIGNED, {SLJIT_MOV32, 4, 2}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_U16, 2, 0}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_S16, 2, 1}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_S8, 1, 1}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV32_S16, 2, 3}}, {SLJIT_MEM_UNALIGNED, {SLJIT_MOV_P, 8, 0}}};
#define NUN 11
static void *fu[NUN][2], *fuf[2][2];
static void h_unal(long arg) {
  inputs();
  for (int st = 0; st < 2; st++) {
    A = S; A.r[SLJIT_R2 - 1] = (u64)A.mem + 17; start_();
    u64 v = 0;
    if (arg < NUN) {
      int n = un[arg].l.n, sh = 64 - 8 * n;
      if (st) memcpy(E.mem + 25, &P.r[SLJIT_R3 - 1], n);
      else { memcpy(&v, P.mem + 25, n); if (un[arg].l.s & 1) v = (s64)(v << sh) >> sh; if (un[arg].l.s & 2) { v = (u32)v; undef[SLJIT_R3 - 1] = 0xffffffff00000000ul; } E.r[SLJIT_R3 - 1] = v; }
      run(fu[arg][st]);
    } else {
      int w = arg - NUN, n = w ? 4 : 8;
      if (st) memcpy(E.mem + 25, &P.f[0], n); else { memcpy(&v, P.mem + 25, n); E.f[0] = v; if (w) undef[NR] = 0xffffffff00000000ul; }
      run(fuf[w][st]);
    }
    want_("an unaligned access reads or writes the wrong bytes");
  }
  sym_reach("unal");
}
/* compare and swap: the memory may have changed since it was loaded */
static const struct lt at[] = {{SLJIT_MOV, 8, 0}, {SLJIT_MOV_P, 8, 0}, {SLJIT_MOV_U32, 4, 0}, {SLJIT_MOV32, 4, 2}, {SLJIT_MOV_U16, 2, 0}, {SLJIT_MOV_U8, 1, 0}, {SLJIT_MOV32_U16, 2, 2}, {SLJIT_MOV32_U8, 1, 2}};
static const int ar_[] = {SLJIT_R0, SLJIT_R2, SLJIT_S5, SLJIT_S1};
static void *fat[8][4][4][4];
static void h_atomic(long arg) {
  int o = arg & 7, s = arg >> 3;
  inputs();
  for (int m = 0; m < 4; m++) for (int t = 0; t < 4; t++) {
    if (!fat[o][s][m][t]) continue;
    int n = at[o].n; u64 cur = 0, exp, src;
    A = S; A.r[ar_[m] - 1] = (u64)A.mem + 24; start_();
    memcpy(&cur, P.mem + 24, n); exp = P.r[ar_[t] - 1] & msk(n); src = P.r[ar_[s] - 1];
    u64 ok = cur == exp, nw = ok ? src : cur;
    memcpy(E.mem + 24, &nw, n);
    E.r[5] = ok; undef[ar_[t] - 1] = ok ? 0 : ~0ul;
    if (at[o].s & 2) undef[ar_[t] - 1] |= 0xffffffff00000000ul;
    run(fat[o][s][m][t]);
    want_("an atomic store does not compare and exchange, or changes something else");
  }
  sym_reach("atomic");
}
static void *fal[8][4][4];
static void h_atload(long arg) {
  int o = arg & 7, d = arg >> 3;
  inputs();
  for (int m = 0; m < 4; m++) {
    A = S; A.r[ar_[m] - 1] = (u64)A.mem + 24; start_();
    u64 v = 0; memcpy(&v, P.mem + 24, at[o].n); E.r[ar_[d] - 1] = v; if (at[o].s & 2) undef[ar_[d] - 1] = 0xffffffff00000000ul;
    run(fal[o][d][m]);
    want_("an atomic load is wrong");
  }
  sym_reach("atload");
}
void h_setup(void) {
  alluse(); useloc = 0; usefreg = 1;
  for (int i = 0; i < NPG; i++) if (mmap(page[i], 0x2000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != page[i]) { printf("mmap %d\n", i); fflush(stdout); exit(8); }
  for (int b = 0; b < 13; b++) for (int i = 0; i < 13; i++) for (int s = 0; s < 4; s++) for (int k = 0; k < NK; k++) {
    if ((b * 7 + i * 3 + s * 5 + k) % (b == i || b > 9 || i > 9 ? 5 : 11)) continue;
    base_ = RG(b); idx_ = RG(i); pick_reg(k);
    M = (struct op_){SLJIT_MEM2(RG(b), RG(i)), s};
    C_ *c = begin(); emit_k(c, k); fx[b][i][s][k] = finish(c);
  }
  for (int p = 0; p < NPG; p++) for (int o = 0; o < 5; o++) for (int k = 0; k < NK; k++) {
    base_ = idx_ = 0; pick_reg(k); M = (struct op_){SLJIT_MEM0(), (long)(page[p] + aoff[o])};
    C_ *c = begin(); emit_k(c, k); fa[p][o][k] = finish(c);
  }
  for (int o = 0; o < NSO; o++) for (int ix = 0; ix < 1; ix++) for (int k = 0; k < NK; k++) {
    C_ *c = begin_big(); base_ = 0; idx_ = ix ? SLJIT_R2 : 0; pick_reg(k);
    /* the 24 bytes around the local come from and go to the context */
    for (int w = 0; w < 3; w++) if (soff[o] + 8 * w - 8 >= 0 && soff[o] + 8 * w <= LOCALS) {
      sljit_get_local_base(c, SLJIT_R5, 0, soff[o] + 8 * w - 8);
      sljit_emit_op1(c, SLJIT_MOV, SLJIT_R4, 0, SLJIT_MEM1(S0_), MOFF + 16 + 8 * w);
      sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R5), 0, SLJIT_R4, 0);
    }
    sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR0, 0, SLJIT_MEM1(S0_), (long)offsetof(struct cx, f));
    for (int i = 0; i < 12; i++) sljit_emit_op1(c, SLJIT_MOV, RG(i), 0, SLJIT_MEM1(S0_), 8 * i);
    M = ix ? (struct op_){SLJIT_MEM2(SLJIT_SP, SLJIT_R2), 0} : (struct op_)M1(SLJIT_SP, soff[o]);
    emit_k(c, k);
    for (int i = 0; i < 12; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), 8 * i, RG(i), 0);
    sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_MEM1(S0_), (long)offsetof(struct cx, f), SLJIT_FR0, 0);
    for (int w = 0; w < 3; w++) if (soff[o] + 8 * w - 8 >= 0 && soff[o] + 8 * w <= LOCALS) {
      sljit_get_local_base(c, SLJIT_MEM1(S0_), MOFF, soff[o] + 8 * w - 8);
      sljit_emit_op1(c, SLJIT_MOV, SLJIT_R5, 0, SLJIT_MEM1(S0_), MOFF);
      sljit_emit_op1(c, SLJIT_MOV, SLJIT_R4, 0, SLJIT_MEM1(SLJIT_R5), 0);
      sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), MOFF + 16 + 8 * w, SLJIT_R4, 0);
    }
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R4, 0, SLJIT_MEM1(S0_), MOFF + 8);     /* the scratch word of the context */
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), MOFF, SLJIT_R4, 0);
    sljit_emit_return_void(c);
    fs[o][ix][k] = finish_(c);
  }
  for (int i = 0; i < NPR; i++) for (int j = 0; j < NPM; j++) for (int st = 0; st < 2; st++) {
    C_ *c = begin();
    int r = sljit_emit_mem(c, SLJIT_MOV | (st ? SLJIT_MEM_STORE : 0) | ((i + j) & 1 ? SLJIT_MEM_UNALIGNED : 0), SLJIT_REG_PAIR(pr[i][0], pr[i][1]), pm[j].k, pm[j].w);
    if (r) { printf("pair %d\n", r); fflush(stdout); exit(8); }
    fp[i][j][st] = finish(c);
  }
  for (int i = 0; i < NUN; i++) for (int st = 0; st < 2; st++) {
    C_ *c = begin(); sljit_emit_mem(c, un[i].l.op | un[i].t | (st ? SLJIT_MEM_STORE : 0), SLJIT_R3, SLJIT_MEM1(SLJIT_R2), 8); fu[i][st] = finish(c);
  }
  for (int w = 0; w < 2; w++) for (int st = 0; st < 2; st++) {
    C_ *c = begin(); sljit_emit_fmem(c, (w ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | SLJIT_MEM_UNALIGNED | (st ? SLJIT_MEM_STORE : 0), SLJIT_FR0, SLJIT_MEM1(SLJIT_R2), 8); fuf[w][st] = finish(c);
  }
  for (int o = 0; o < 8; o++) for (int s = 0; s < 4; s++) for (int m = 0; m < 4; m++) {
    C_ *c = begin(); if (sljit_emit_atomic_load(c, at[o].op, ar_[s], ar_[m])) { printf("atomic\n"); fflush(stdout); exit(8); } fal[o][s][m] = finish(c);
    for (int t = 0; t < 4; t++) if (t != s && t != m) {
      c = begin();
      if (sljit_emit_atomic_store(c, at[o].op | SLJIT_SET_ATOMIC_STORED, ar_[s], ar_[m], ar_[t])) { printf("atomic\n"); fflush(stdout); exit(8); }
      sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R5, 0, SLJIT_ATOMIC_STORED);
      fat[o][s][m][t] = finish(c);
    }
  }
}
struct xh harnesses[] = {{"base", h_base, 13 * NK}, {"index", h_index, 169}, {"abs", h_abs, NPG * 5}, {"sp", h_sp, NSO}, {"pair", h_pair, NPR * NPM}, {"unal", h_unal, NUN + 2}, {"atomic", h_atomic, 32}, {"atload", h_atload, 32}, {0}};
