/* D02: status flags, conditional jumps, flag materialisation, selects, comparisons. */
#include "sl.h"
static struct op_ form[] = {
  {SLJIT_R0, 0}, {SLJIT_R3, 0}, {SLJIT_S5, 0}, M1(SLJIT_S0, MOFF + 8), {SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 3}, M1(SLJIT_S2, 1l << 40),
#define NREG 3
#define NLV 6
  IMM(0), IMM(1), IMM(-1), IMM(-128), IMM(0x1234567), IMM(-0x80000000l), IMM(0x123456789abcdefl), IMM(0xf0000000l)
};
#define NFO ((int)(sizeof form / sizeof *form))
static void bases(void) { A.r[SLJIT_S1 - 1] = (MOFF + 16) / 8; A.r[SLJIT_S2 - 1] = (u64)A.mem + 24 - (1ul << 40); }
struct fl { int op, type; };
/* operation and the flag read after it */
static const struct fl fls[] = {
  {SLJIT_ADD, SLJIT_EQUAL}, {SLJIT_ADD, SLJIT_OVERFLOW}, {SLJIT_ADD, SLJIT_CARRY}, {SLJIT_SUB, SLJIT_EQUAL}, {SLJIT_SUB, SLJIT_LESS}, {SLJIT_SUB, SLJIT_GREATER},
  {SLJIT_SUB, SLJIT_SIG_LESS}, {SLJIT_SUB, SLJIT_SIG_GREATER}, {SLJIT_SUB, SLJIT_OVERFLOW}, {SLJIT_SUB, SLJIT_CARRY}, {SLJIT_MUL, SLJIT_OVERFLOW},
  {SLJIT_AND, SLJIT_EQUAL}, {SLJIT_OR, SLJIT_EQUAL}, {SLJIT_XOR, SLJIT_EQUAL}, {SLJIT_SHL, SLJIT_EQUAL}, {SLJIT_MSHL, SLJIT_EQUAL}, {SLJIT_LSHR, SLJIT_EQUAL},
  {SLJIT_MLSHR, SLJIT_EQUAL}, {SLJIT_ASHR, SLJIT_EQUAL}, {SLJIT_MASHR, SLJIT_EQUAL}};
#define NFL 20
static int cond(int op, int type, u64 a, u64 b, int w) {
  u64 m = w == 32 ? 0xffffffffu : ~0ul, r = ref2(op, a, b, w); s64 x, y; int c = 0, s = w - 1;
  a &= m; b &= m; x = w == 32 ? (s64)(int)a : (s64)a; y = w == 32 ? (s64)(int)b : (s64)b;
  switch (type & ~1) {
    case SLJIT_EQUAL: c = r == 0; break;
    case SLJIT_LESS: c = a < b; break;
    case SLJIT_GREATER: c = a > b; break;
    case SLJIT_SIG_LESS: c = x < y; break;
    case SLJIT_SIG_GREATER: c = x > y; break;
    case SLJIT_OVERFLOW:
      if (op == SLJIT_ADD) c = ((a ^ r) & (b ^ r)) >> s & 1;
      else if (op == SLJIT_SUB) c = ((a ^ b) & (a ^ r)) >> s & 1;
      else if (w == 32) { int z = a; u8 f; __asm__("imull %2, %0\n seto %1" : "+r"(z), "=q"(f) : "r"((int)b) : "cc"); c = f; }
      else { s64 z = a; u8 f; __asm__("imulq %2, %0\n seto %1" : "+r"(z), "=q"(f) : "r"(b) : "cc"); c = f; }
      break;
    case SLJIT_CARRY: c = op == SLJIT_ADD ? r < a : a < b; break;
  }
  return (c ^ type) & 1;
}
static int setof(int type) { return type < 2 ? SLJIT_SET_Z : SLJIT_SET(type & ~1); }
static int opnext(int op) { return op == SLJIT_SHL || op == SLJIT_LSHR || op == SLJIT_ASHR; }
#define NDD 3
/* destination: none, one of the sources or another place */
static int dst_of(int o, int i, int j, int d) { return d == 0 ? -1 : d == 1 ? (i < NLV && (j >= NLV || (i + j) & 1) ? i : j < NLV ? j : (o + j) % NLV) : (i + 2 * j + o) % NLV; }
/* consumers in one function: MOV to memory, a move, a select, a 32-bit MOV to a register, another select, a jump; none changes the flags */
#define OUT1 (MOFF + 48)
#define OUT2 (MOFF + 56)
#define OUT3 (MOFF + 64)
static int iscarry(int type) { return (type & ~1) == SLJIT_CARRY; }
static void consume(C_ *c, int type, int k) {
  struct sljit_jump *j; struct op_ s = k % 3 == 0 ? (struct op_){SLJIT_R2, 0} : k % 3 == 1 ? (struct op_)M1(SLJIT_S0, MOFF + 72) : (struct op_)IMM(0x55);
  sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT1, type);
  sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 0);
  sljit_emit_op1(c, SLJIT_MOV32_U8, SLJIT_MEM1(S0_), MOFF + 80, SLJIT_IMM, 0);
  if (iscarry(type)) sljit_emit_op_flags(c, k & 1 ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_R6, 0, type);
  if (!iscarry(type) || (k & 2)) sljit_emit_select(c, type, SLJIT_R4, s.k, s.w, k & 1 ? SLJIT_R4 : SLJIT_R5);
  if (iscarry(type) && (k & 2)) return;   /* the carry is gone after a select */
  if (!iscarry(type)) {
    sljit_emit_op_flags(c, k & 1 ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_R6, 0, type);
    sljit_emit_select(c, type | SLJIT_32, SLJIT_S3, SLJIT_S3, 0, SLJIT_S4);
  }
  sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT2, SLJIT_IMM, 1);
  j = sljit_emit_jump(c, type);
  sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(S0_), OUT2, SLJIT_IMM, 0);
  sljit_set_label(j, sljit_emit_label(c));
}
static void wide(int reg, u64 v) { E.r[reg - 1] = v; }
static void consumed(int v, int k, int type) {
  *(u64 *)(E.mem + 48) = v; E.mem[80] = 0;
  u64 s; if (k % 3 == 0) s = E.r[SLJIT_R2 - 1]; else if (k % 3 == 1) memcpy(&s, E.mem + 72, 8); else s = 0x55;
  int cy = iscarry(type);
  if (!cy || (k & 2)) wide(SLJIT_R4, v ? s : E.r[(k & 1 ? SLJIT_R4 : SLJIT_R5) - 1]);
  wide(SLJIT_R6, v); if (k & 1) undef[SLJIT_R6 - 1] = 0xffffffff00000000ul;
  if (!cy) { wide(SLJIT_S3, v ? E.r[SLJIT_S3 - 1] : E.r[SLJIT_S4 - 1]); undef[SLJIT_S3 - 1] = 0xffffffff00000000ul; }
  if (!cy || !(k & 2)) *(u64 *)(E.mem + 56) = v;
}
static void *ff[NFL][2][2][NFO][NFO][NDD];
/* read-modify-write consumers */
static const int fops[] = {SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_AND32, SLJIT_OR32, SLJIT_XOR32, SLJIT_MOV, SLJIT_MOV32};
static void *fm[NFL][2][8][NLV], *fc[10][2][NFO][NFO], *fca[2][2][NFO][NFO][2], *fz[9][2][2][NFO];
static const int zops[] = {SLJIT_ADD, SLJIT_SUB, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_MSHL, SLJIT_MLSHR, SLJIT_MASHR, SLJIT_SUB};
static const int cdst[] = {0, 2};
void h_setup(void) {
  alluse(); useloc = 0;
  for (int o = 0; o < NFL; o++) for (int w = 0; w < 2; w++) for (int n = 0; n < 2; n++) for (int i = 0; i < NFO; i++) for (int j = 0; j < NFO; j++) for (int d = 0; d < NDD; d++) {
    int t = fls[o].type ^ n, dd = dst_of(o, i, j, d);
    if ((i >= NLV && j >= NLV && d) || ((i * 31 + j * 17 + d * 7 + o * 5 + n) % 3 && i && j)) continue;
    C_ *c = begin();
    int op = opw(fls[o].op, w) | setof(t);
    if (fls[o].type == SLJIT_LESS && (i + j) % 2) op |= SLJIT_SET_Z;
    if (dd < 0) sljit_emit_op2u(c, op, form[i].k, form[i].w, form[j].k, form[j].w);
    else sljit_emit_op2(c, op, form[dd].k, form[dd].w, form[i].k, form[i].w, form[j].k, form[j].w);
    consume(c, t, i + j + d);
    ff[o][w][n][i][j][d] = finish(c);
  }
  for (int o = 0; o < NFL; o++) for (int n = 0; n < 2; n++) for (int k = 0; k < 8; k++) for (int d = 0; d < NLV; d++) {
    int t = fls[o].type ^ n;
    C_ *c = begin();
    sljit_emit_op2u(c, fls[o].op | setof(t), SLJIT_R1, 0, SLJIT_R2, 0);
    sljit_emit_op_flags(c, fops[k] | (k < 6 ? SLJIT_SET_Z : 0), form[d].k, form[d].w, t);
    if (k < 6) sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_EQUAL);
    fm[o][n][k][d] = finish(c);
  }
  for (int t = 0; t < 10; t++) for (int w = 0; w < 2; w++) for (int i = 0; i < NFO; i++) for (int j = 0; j < NFO; j++) {
    C_ *c = begin();
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 1);
    struct sljit_jump *x = sljit_emit_cmp(c, t | (w ? SLJIT_32 : 0), form[i].k, form[i].w, form[j].k, form[j].w);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 0);
    sljit_set_label(x, sljit_emit_label(c));
    fc[t][w][i][j] = finish(c);
  }
  /* carry chains */
  for (int s = 0; s < 2; s++) for (int w = 0; w < 2; w++) for (int i = 0; i < NFO; i++) for (int j = 0; j < NFO; j++) for (int d = 0; d < 2; d++) {
    C_ *c = begin();
    sljit_emit_op2(c, opw(s ? SLJIT_SUB : SLJIT_ADD, w) | SLJIT_SET_CARRY, SLJIT_R4, 0, SLJIT_R5, 0, SLJIT_R6, 0);
    int t = d ? (i < NLV ? i : j < NLV ? j : 3) : 4;
    sljit_emit_op2(c, opw(s ? SLJIT_SUBC : SLJIT_ADDC, w) | SLJIT_SET_CARRY, form[t].k, form[t].w, form[i].k, form[i].w, form[j].k, form[j].w);
    sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_CARRY);
    fca[s][w][i][j][d] = finish(c);
  }
  for (int o = 0; o < 9; o++) for (int w = 0; w < 2; w++) for (int z = 0; z < 2; z++) for (int j = 0; j < NFO; j++) {
    C_ *c = begin();
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 1);
    struct sljit_jump *x = sljit_emit_op2cmpz(c, opw(zops[o], w) | (z ? SLJIT_JUMP_IF_ZERO : SLJIT_JUMP_IF_NON_ZERO), o == 8 ? SLJIT_R1 : SLJIT_R0, 0, SLJIT_R1, 0, form[j].k, form[j].w);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R6, 0, SLJIT_IMM, 0);
    sljit_set_label(x, sljit_emit_label(c));
    fz[o][w][z][j] = finish(c);
  }
}
static void clip(struct op_ o, int n) {
  if (o.k == SLJIT_IMM) return;
  u64 v = get_(o, n, 0) & (8 * n - 1);
  if (!(o.k & SLJIT_MEM) && n == 4) v |= get_(o, 8, 0) >> 32 << 32;
  E = A; put_(o, n, v); A = E; P = A;
}
static void start(void) { A = S; bases(); start_(); }
static void h_flags(long arg) {
  int n_ = arg & 1, w = arg >> 1 & 1, o = (arg >> 2) % NFL, i = (arg >> 2) / NFL, W = w ? 32 : 64, n = w ? 4 : 8;
  inputs();
  int j = in_pick("j", -1, NFO), d = in_pick("d", -1, NDD);
  void *f = ff[o][w][n_][i][j][d];
  if (!f) { sym_assert(1, ""); return; }
  start();
  struct op_ a = form[i], b = form[j];
  if (opnext(fls[o].op)) clip(b, n);
  u64 x = get_(a, n, 0), y = get_(b, n, 0);
  int t = fls[o].type ^ n_, dd = dst_of(o, i, j, d), v = cond(fls[o].op, t, x, y, W);
  if (dd >= 0) { u64 r = ref2(fls[o].op, x, y, W); if (w) put32(form[dd], r); else put_(form[dd], 8, r); }
  consumed(v, i + j + d, t);
  run(f);
  want_("a flag, a conditional jump or a select is not what the operation says");
  sym_reach("flags");
}
static void h_opflags(long arg) {
  int n_ = arg & 1, k = arg >> 1 & 7, o = arg >> 4;
  inputs();
  for (int d = 0; d < NLV; d++) {
    start();
    struct op_ r1 = {SLJIT_R1, 0}, r2 = {SLJIT_R2, 0}, t = form[d];
    if (opnext(fls[o].op)) clip(r2, 8);
    u64 v = cond(fls[o].op, fls[o].type ^ n_, get_(r1, 8, 0), get_(r2, 8, 0), 64), x, n = k == 7 || (k >= 3 && k < 6) ? 4 : 8;
    x = get_(t, n, 0);
    switch (fops[k] & ~SLJIT_32) { case SLJIT_AND: x &= v; break; case SLJIT_OR: x |= v; break; case SLJIT_XOR: x ^= v; break; default: x = v; }
    if (n == 4) put32(t, x); else put_(t, 8, x);
    if (k < 6) E.r[6] = x == 0;
    run(fm[o][n_][k][d]);
    want_("the materialised flag or its zero flag is wrong");
  }
  sym_reach("opflags");
}
static void h_cmp(long arg) {
  int t = arg % 10, w = arg / 10 % 2, i = arg / 20, W = w ? 32 : 64, n = w ? 4 : 8;
  inputs();
  int j = in_pick("j", -1, NFO);
  start();
  E.r[6] = cond(SLJIT_SUB, t, get_(form[i], n, 0), get_(form[j], n, 0), W);
  run(fc[t][w][i][j]);
  want_("a compare and jump takes the wrong way or changes something else");
  sym_reach("cmp");
}
static void h_carry(long arg) {
  int w = arg & 1, s = arg >> 1 & 1, i = arg >> 2, n = w ? 4 : 8; u64 m = msk(n);
  inputs();
  for (int j = 0; j < NFO; j++) for (int d = 0; d < 2; d++) {
    int t = d ? (i < NLV ? i : j < NLV ? j : 3) : 4;
    start();
    u64 a = P.r[5] & m, b = P.r[6] & m, lo = (s ? a - b : a + b) & m, c = s ? a < b : lo < a;
    u64 x = get_(form[i], n, 0), y = get_(form[j], n, 0), hi = (s ? x - y - c : x + y + c) & m, c2;
    if (s) c2 = (x < y) | ((x == y) & c); else c2 = ((x + y) & m) < x | (((x + y) & m) == m & c);
    E.r[4] = lo; if (w) undef[4] = ~m;
    if (w) put32(form[t], hi); else put_(form[t], 8, hi);
    E.r[6] = c2;
    run(fca[s][w][i][j][d]);
    want_("an addition or subtraction with carry is wrong");
  }
  sym_reach("carry");
}
static void h_cmpz(long arg) {
  int z = arg & 1, w = arg >> 1 & 1, o = arg >> 2, n = w ? 4 : 8;
  inputs();
  int j = in_pick("j", -1, NFO);
  start();
  struct op_ r1 = {SLJIT_R1, 0};
  u64 r = ref2(zops[o], get_(r1, n, 0), get_(form[j], n, 0), 8 * n); struct op_ t = {o == 8 ? SLJIT_R1 : SLJIT_R0, 0};
  if (w) put32(t, r); else put_(t, 8, r);
  E.r[6] = z ? r == 0 : r != 0;
  run(fz[o][w][z][j]);
  want_("an operation with a jump on its result goes the wrong way or leaves a wrong result");
  sym_reach("cmpz");
}
struct xh harnesses[] = {{"flags", h_flags, NFL * 4 * NFO}, {"opflags", h_opflags, NFL * 16}, {"cmp", h_cmp, 20 * NFO}, {"carry", h_carry, 4 * NFO}, {"cmpz", h_cmpz, 36}, {0}};
