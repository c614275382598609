/* D06: jumps, labels, label addresses, aligned labels, rewritable jumps and constants.  Functions are emitted once; their traces
   are compared with the order the jumps prescribe, for both outcomes of every condition. */
#define _GNU_SOURCE
#include "sl.h"
#include <sys/mman.h>
#define NB 12
#define NCND 4
static u64 cnd[NCND];
static u32 lcg; static u32 rnd(u32 n) { lcg = lcg * 1664525u + 1013904223u; return (lcg >> 8) % n; }
static u8 trap_[1] = {0xcc};
static void fill(C_ *c, int n) { while (n-- > 0) sljit_emit_op_custom(c, trap_, 1); }
static void step(C_ *c, int id) { sljit_emit_op2(c, SLJIT_SHL, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, 4); sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, id); }
/* condition i of a program: kind i */
static struct sljit_jump *cjump(C_ *c, int i, int rw) {
  sljit_sw a = (sljit_sw)&cnd[i]; rw = rw ? SLJIT_REWRITABLE_JUMP : 0;
  switch (i) {
    case 0: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_MEM0(), a, SLJIT_IMM, 5); return sljit_emit_jump(c, SLJIT_ZERO | rw);
    case 1: return sljit_emit_cmp(c, SLJIT_SIG_LESS | rw, SLJIT_MEM0(), a, SLJIT_IMM, 0);
    case 2: return sljit_emit_cmp(c, SLJIT_GREATER | SLJIT_32 | rw, SLJIT_MEM0(), a, SLJIT_IMM, 1000);
  }
  sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_MEM0(), a); sljit_emit_op2u(c, SLJIT_AND | SLJIT_SET_Z, SLJIT_R1, 0, SLJIT_IMM, 0x80); return sljit_emit_jump(c, SLJIT_NOT_ZERO | rw);
}
static int taken(int i) { u64 v = cnd[i]; return i == 0 ? v == 5 : i == 1 ? (s64)v < 0 : i == 2 ? (u32)v > 1000 : v >> 7 & 1; }
struct prog { int nb; int cto[NB], cnd[NB], sub[NB]; void *f; u64 *tab; int nk, kb[2]; u64 ka[2]; int nbuf; u64 ba[4]; int bs[4]; };
#define NPROG 1600
static struct prog pr[NPROG];
static u64 tabspace[NPROG][NB + 1];
/* a program: blocks run in the order 0..nb-1 with conditional skips, laid out in any order with unreachable bytes between them */
static void layout(int k) {
  struct prog *p = &pr[k]; lcg = k * 7919 + 17; for (int i = 0; i < 3; i++) rnd(2);
  int nb = p->nb = 3 + rnd(NB - 3), perm[NB + 3], style = rnd(4), cused = 0;
  for (int i = 0; i < nb + 3; i++) { int j = rnd(i + 1); perm[i] = perm[j]; perm[j] = i; }     /* nb: the end, nb+1, nb+2: subroutines */
  for (int b = 0; b < nb; b++) {
    p->cto[b] = -1; p->sub[b] = rnd(3) ? -1 : (int)rnd(2);
    if (cused < NCND && rnd(2)) { p->cnd[b] = cused++; p->cto[b] = b + 2 + (int)rnd(3); if (p->cto[b] > nb) p->cto[b] = nb; }
  }
  C_ *c = sljit_create_compiler(0);
  sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W_R), 4, 2, 32);
  struct sljit_label *L[NB + 3]; struct sljit_jump *J[80]; int T[80], nj = 0;
  struct sljit_read_only_buffer B[4]; p->nbuf = 0; p->tab = tabspace[k];
  struct sljit_const *K[2]; int cut = k % 4 == 1 ? (int)rnd(nb + 2) : -1, early = rnd(2), big = k % 16 == 5; p->nk = 0;
  if (perm[0] != 0) { J[nj] = sljit_emit_jump(c, SLJIT_JUMP); T[nj++] = 0; }
  for (int q = 0; q < nb + 3; q++) {
    int b = perm[q], next = q + 1 < nb + 3 ? perm[q + 1] : -1;
    L[b] = (style & 1) == 0 && !rnd(4) ? sljit_emit_aligned_label(c, rnd(5), 0) : sljit_emit_label(c);
    if (b == nb) { step(c, 13); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); }
    else if (b > nb) { sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0); step(c, b - nb + 13); sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0); }
    else {
      if (p->nk < 2 && !rnd(4)) {
        sljit_emit_op2(c, SLJIT_SHL, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, 4); K[p->nk] = sljit_emit_const(c, SLJIT_MOV, SLJIT_R3, 0, b + 1); p->kb[p->nk++] = b;
        sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R3, 0);
      } else step(c, b + 1);
      if (p->sub[b] >= 0) {
        int s = nb + 1 + p->sub[b];
        switch (rnd(4)) {
          case 0: case 1: J[nj] = sljit_emit_jump(c, SLJIT_FAST_CALL); T[nj++] = s; break;
          case 2: J[nj] = sljit_emit_jump(c, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP); T[nj++] = s; break;
          case 3: J[nj] = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R3, 0); T[nj++] = s; sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_R3, 0);
        }
      }
      if (p->cto[b] >= 0) { J[nj] = cjump(c, p->cnd[b], style == 3 && !rnd(3)); T[nj++] = p->cto[b]; }
      if (next != b + 1 || !rnd(4)) switch (rnd(style == 0 ? 1 : 7)) {
        default: J[nj] = sljit_emit_jump(c, SLJIT_JUMP); T[nj++] = b + 1; break;
        case 1: J[nj] = sljit_emit_jump(c, SLJIT_JUMP | (style == 3 ? SLJIT_REWRITABLE_JUMP : 0)); T[nj++] = b + 1; break;
        case 2: J[nj] = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R1, 0); T[nj++] = b + 1; sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R1, 0); break;
        case 3: J[nj] = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 16); T[nj++] = b + 1; sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(SLJIT_SP), 16); break;
        case 4: sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM0(), (sljit_sw)&p->tab[b + 1]); break;
        case 5: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_R0, 0); J[nj] = sljit_emit_jump(c, SLJIT_ZERO); T[nj++] = b + 1; break;
      } else continue;                                   /* falls through */
    }
    if (style == 2 && p->nbuf < 4 && !rnd(3)) {
      int m = 1 + rnd(4 - p->nbuf), al = rnd(5);
      for (int i = 0; i < m; i++) { B[p->nbuf + i].next = i + 1 < m ? &B[p->nbuf + i + 1] : 0; p->bs[p->nbuf + i] = B[p->nbuf + i].size = 1 + rnd(40); }
      sljit_emit_aligned_label(c, al, &B[p->nbuf]); p->bs[p->nbuf] |= al << 16; p->nbuf += m;
    }
    static const int fz[] = {0, 1, 5, 40, 80, 100, 110, 118};
    fill(c, fz[rnd(8)] + rnd(10)); if (big) fill(c, 300 + rnd(500));
    if (q == cut && !p->nbuf) {                          /* half-way through */
      if (early) for (int i = 0; i < nj; i++) for (int r = 0; r <= q; r++) if (perm[r] == T[i]) sljit_set_label(J[i], L[T[i]]);
      for (int again = 0; again < 1 + k / 4 % 2; again++) {
      sljit_uw n, *z = sljit_serialize_compiler(c, 0, &n); sljit_free_compiler(c);
      c = sljit_deserialize_compiler(z, n, 0, 0); if (!c) { printf("deserialize\n"); fflush(stdout); exit(8); }
      free(z);
      int i = 0; struct sljit_label *l; struct sljit_jump *jj; struct sljit_const *kk;
      for (l = sljit_get_first_label(c); l; l = sljit_get_next_label(l), i++) L[perm[i]] = l;
      for (i = 0, jj = sljit_get_first_jump(c); jj; jj = sljit_get_next_jump(jj)) J[i++] = jj;
      if (i != nj) { printf("jumps lost\n"); fflush(stdout); exit(8); }
      for (i = 0, kk = sljit_get_first_const(c); kk; kk = sljit_get_next_const(kk)) K[i++] = kk;
      }
      cut = -2;
    }
  }
  for (int i = 0; i < nj; i++) sljit_set_label(J[i], L[T[i]]);
  p->f = sljit_generate_code(c, 0, 0);
  if (!p->f || sljit_get_compiler_error(c) != SLJIT_ERR_COMPILED) { printf("generate\n"); fflush(stdout); exit(8); }
  for (int i = 0; i < p->nk; i++) p->ka[i] = sljit_get_const_addr(K[i]);
  for (int b = 0; b <= nb; b++) p->tab[b] = sljit_get_label_addr(L[b]);
  for (int i = 0; i < p->nbuf; i++) p->ba[i] = sljit_get_label_abs_addr(B[i].u.label);
  sljit_free_compiler(c);
}
static u64 trace(struct prog *p, u64 acc, u64 *kv) {
  int b = 0;
  while (b < p->nb) { u64 id = b + 1; for (int i = 0; i < p->nk; i++) if (p->kb[i] == b) id = kv[i]; acc = acc * 16 + id; if (p->sub[b] >= 0) acc = acc * 16 + 14 + p->sub[b]; b = p->cto[b] >= 0 && taken(p->cnd[b]) ? p->cto[b] : b + 1; }
  return acc * 16 + 13;
}
#define PER 8
static void h_layout(long arg) {
  for (int i = 0; i < NCND; i++) cnd[i] = in64("c", i);
  u64 a = in64("a", -1); u8 wv[4];
  for (int i = 0; i < 4; i++) wv[i] = in8("w", i);
  u64 knew = in64("k", 0);
  for (int j = 0; j < PER; j++) {
    struct prog *p = &pr[arg * PER + j];
    for (int i = 0; i < p->nbuf; i++) {                  /* writing a buffer must leave the code alone */
      int n = p->bs[i] & 0xffff, al = p->bs[i] >> 16;
      u8 *w = sljit_read_only_buffer_start_writing(p->ba[i], n, 0);
      for (int q = 0; q < n; q++) w[q] = wv[q % 4] ^ q;
      sljit_read_only_buffer_end_writing(p->ba[i], n, 0);
      sym_assert((p->ba[i] & ((1ul << al) - 1)) == 0, "an aligned label is not aligned");
      if (i && p->ba[i] < p->ba[i - 1] + (p->bs[i - 1] & 0xffff)) sym_assert(0, "two read-only buffers overlap");
    }
    u64 (*f)(u64) = p->f;
    u64 kv[2] = {p->nk ? p->kb[0] + 1 : 0, p->nk > 1 ? p->kb[1] + 1 : 0};
    if (p->nk && j & 1) { int i = p->nk - 1; kv[i] = knew; sljit_set_const(p->ka[i], SLJIT_MOV, kv[i], 0); }
    sym_assert(f(a) == trace(p, a, kv), "a jump does not reach its label, or a constant is wrong");
    for (int i = 0; i < p->nbuf; i++) { u64 bad = 0; for (int q = 0; q < (p->bs[i] & 0xffff); q++) bad |= ((u8 *)p->ba[i])[q] ^ (u8)(wv[q % 4] ^ q); sym_assert(bad == 0, "a read-only buffer lost its contents"); }
  }
  sym_reach("layout");
}
/* every kind of jump over every distance around the limits of a one-byte displacement, both directions */
#define NKIND 12
#define NDIST 60
#define NEAL 3
static void *ef[NKIND][2][NEAL][NDIST];
static struct sljit_jump *anyjump(C_ *c, int kind) {
  struct sljit_jump *j;
  switch (kind) {
    case 0: return sljit_emit_jump(c, SLJIT_JUMP);
    case 1: return sljit_emit_jump(c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP);
    case 2: return sljit_emit_jump(c, SLJIT_FAST_CALL);
    case 3: return sljit_emit_jump(c, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP);
    case 4: case 5: case 6: case 7: return cjump(c, kind - 4, 0);
    case 8: case 9: return cjump(c, kind - 8, 1);
    case 10: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R1, 0); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R1, 0); return j;
  }
  j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_S1, 0); sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_S1, 0); return j;
}
static int iscall(int k) { return k == 2 || k == 3 || k == 11; }
static int kcond(int k) { return k >= 4 && k <= 9 ? k & 3 : -1; }
static void edge_landing(C_ *c, int kind, struct sljit_jump *j, int al) {
  sljit_set_label(j, al ? sljit_emit_aligned_label(c, 4, 0) : sljit_emit_label(c));
  if (iscall(kind)) { sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0); step(c, 3); sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0); }
  else { step(c, 3); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); }
}
/* n bytes, with an aligned label among them, which may add up to 15 */
static void dist(C_ *c, int n, int al, int d) { if (al == 1) { n -= 12; fill(c, d % 17); sljit_emit_aligned_label(c, 4, 0); n -= d % 17; } fill(c, n); }
static void edges(void) {
  for (int kind = 0; kind < NKIND; kind++) for (int back = 0; back < 2; back++) for (int al = 0; al < NEAL; al++) for (int d = 0; d < NDIST; d++) {
    C_ *c = sljit_create_compiler(0); struct sljit_jump *j, *m; struct sljit_label *l;
    sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W_R), 4, 2, 32); step(c, 1);
    if (!back) {
      j = anyjump(c, kind); step(c, 2); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); dist(c, 70 + d, al, d);
      edge_landing(c, kind, j, al == 2);
    } else {
      m = sljit_emit_jump(c, SLJIT_JUMP); l = al == 2 ? sljit_emit_aligned_label(c, 4, 0) : sljit_emit_label(c);
      if (iscall(kind)) { sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0); step(c, 3); sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0); }
      else { step(c, 3); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); }
      dist(c, 60 + d, al, d);
      sljit_set_label(m, sljit_emit_label(c)); j = anyjump(c, kind); sljit_set_label(j, l); step(c, 2); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
    }
    ef[kind][back][al][d] = finish_(c);
  }
}
static void h_edge(long arg) {
  int kind = arg / 2 % NKIND, back = arg & 1, al = arg / 2 / NKIND;
  for (int i = 0; i < NCND; i++) cnd[i] = in64("c", i);
  u64 a = in64("a", -1), e = a * 16 + 1;
  int go = kcond(kind) < 0 || taken(kcond(kind));
  if (go) e = e * 16 + 3;
  if (!go || iscall(kind)) e = e * 16 + 2;
  for (int d = 0; d < NDIST; d++) { u64 (*f)(u64) = ef[kind][back][al][d]; sym_assert(f(a) == e, "a jump does not reach its label"); }
  sym_reach("edge");
}
/* targets anywhere in the address space: stubs that add their number and go back */
static u64 tgt[64]; static int ntgt, R1i; static u64 codebase;
static void addtgt(u64 a) {
  for (int i = 0; i < ntgt; i++) if (a < tgt[i] + 16 && tgt[i] < a + 16) return;
  u64 p = a & ~4095ul;
  for (int i = 0; i < 2; i++, p += 4096) if (mmap((void *)p, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == (void *)p) memset((void *)p, 0xcc, 4096);
  tgt[ntgt++] = a;
}
static void stubs(void) {
  C_ *c = sljit_create_compiler(0); sljit_emit_enter(c, 0, 0, 0, 0, 0); sljit_emit_return_void(c); codebase = (u64)finish_(c);
  R1i = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_R1);
  static const u64 fixed[] = {0x20000, 0x7ffffff8, 0x80000040, 0x90000008, 0xfffffff6, 0x100000010, 0x123456789000, 0x7efffffff000};
  for (int i = 0; i < 8; i++) addtgt(fixed[i]);
  addtgt(codebase + 0x7ff00000); addtgt(codebase + 0x80100000); addtgt(codebase - 0x7ff00000); addtgt(codebase - 0x80100000);
}
/* how a function goes to a target: 0 jump, 1 conditional, 2 rewritable jump, 3 immediate ijump, 4 fast call, 5 call, 6 rewritable call, 7 icall, 8 fast ijump, 9 MOV_ADDR and ijump */
#define NGO 10
static void *tf[64][NGO];
static void *target_code(u64 to, int g) {
  C_ *c = sljit_create_compiler(0); struct sljit_jump *j = 0, *back = 0; struct sljit_label *l;
  sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4, 2, 32);
  sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
  int call = g >= 4 && g <= 8;
  if (!call) back = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R1, 0);
  switch (g) {
    case 0: j = sljit_emit_jump(c, SLJIT_JUMP); break;
    case 1: j = sljit_emit_cmp(c, SLJIT_SIG_LESS, SLJIT_R0, 0, SLJIT_IMM, 100); step(c, 7); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); break;
    case 2: j = sljit_emit_jump(c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP); break;
    case 3: sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_IMM, to); break;
    case 4: j = sljit_emit_jump(c, SLJIT_FAST_CALL); break;
    case 5: j = sljit_emit_call(c, SLJIT_CALL, SLJIT_ARGS0V()); break;
    case 6: j = sljit_emit_call(c, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS0V()); break;
    case 7: sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, to); break;
    case 8: sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_IMM, to); break;
    case 9: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R2, 0); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R2, 0); break;
  }
  if (j) sljit_set_target(j, to);
  if (!call) fill(c, 3);
  l = sljit_emit_label(c); if (back) sljit_set_label(back, l);
  step(c, 2); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
  return finish_(c);
}
/* the stub at a target: rax = rax + 16*rax... a number of its own, then ret or jmp R1 */
static void put_stub_at(u8 *p, int call) {
  p[0] = 0x48; p[1] = 0xc1; p[2] = 0xe0; p[3] = 4; p[4] = 0x48; p[5] = 0x83; p[6] = 0xc0; p[7] = 3;
  if (call) p[8] = 0xc3; else { if (R1i >= 8) abort(); p[8] = 0xff; p[9] = 0xe0 | R1i; }
}
static void h_target(long arg) {
  int t = arg / NGO, g = arg % NGO;
  if (t >= ntgt) { sym_assert(1, ""); return; }
  u64 a = in64("a", -1); u64 (*f)(u64) = tf[t][g];
  put_stub_at((u8 *)tgt[t], g >= 4 && g <= 8);
  u64 r = f(a), e = (a * 16 + 3) * 16 + 2;
  if (g == 1 && (s64)a >= 100) e = a * 16 + 7;
  sym_assert(r == e, "a jump or call does not reach its target address");
  sym_reach("target");
}
/* the exact limits of a 32-bit displacement: the same function for targets one byte apart around 2^31 either way */
#define NNEAR 72
static const int nearg[] = {0, 1, 4, 5, 9};
static void *nf[5][2][NNEAR]; static u64 nt[5][2][NNEAR];
static void mapat(u64 a) {
  u64 p = a & ~4095ul;
  for (int i = 0; i < 2; i++, p += 4096) if (mmap((void *)p, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == (void *)p) memset((void *)p, 0xcc, 4096);
}
static void near_fns(void) {
  for (int q = 0; q < 5; q++) for (int dir = 0; dir < 2; dir++) for (int d = 0; d < NNEAR; d++) {
    u64 at = 0, want;
    for (int n = 0; n < 8; n++) {
      want = (at ? at : codebase) + (dir ? 0x80000000ul : -0x80000000ul) + d - 4;
      void *f = target_code(want, nearg[q]);
      nf[q][dir][d] = f;
      if ((u64)f == at) break;
      at = (u64)f; sljit_free_code(f, 0); nf[q][dir][d] = 0;
    }
    nt[q][dir][d] = want;
    if (nf[q][dir][d]) mapat(want);
  }
}
static void h_near(long arg) {
  int q = arg / 2 % 5, dir = arg & 1, g = nearg[q];
  u64 a = in64("a", -1), bad = 0;
  for (int d = arg / 10 * (NNEAR / 2); d < (arg / 10 + 1) * (NNEAR / 2); d++) {
    if (!nf[q][dir][d]) { sym_assert(0, "no code"); return; }
    put_stub_at((u8 *)nt[q][dir][d], g >= 4 && g <= 8);
    u64 (*f)(u64) = nf[q][dir][d];
    u64 r = f(a), e = (a * 16 + 3) * 16 + 2;
    if (g == 1 && (s64)a >= 100) e = a * 16 + 7;
    bad |= r ^ e;
    memset((u8 *)nt[q][dir][d], 0xcc, 16);
  }
  sym_assert(bad == 0, "a jump or call does not reach its target address");
  sym_reach("near");
}
/* address of a label or a target, stored or added */
static const struct op_ ad[] = {{SLJIT_R0, 0}, {SLJIT_R3, 0}, {SLJIT_S0, 0}, {SLJIT_S3, 0}, {SLJIT_MEM0(), 0}, {SLJIT_MEM1(SLJIT_SP), 8}, {SLJIT_MEM1(SLJIT_S1), 1l << 33}, {SLJIT_MEM2(SLJIT_S1, SLJIT_R1), 3}};
#define NAD 8
static u64 tv[40]; static int ntv; static u64 cell;
static void *af[40][NAD][3]; static u64 lab[40][NAD][3];
static void addr_fns(void) {
  static const u64 fx[] = {0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x123456789abcdef0, ~0ul, 1ul << 63};
  for (int i = 0; i < 10; i++) tv[ntv++] = fx[i];
  for (int s = -1; s <= 1; s += 2) for (int d = -2; d <= 2; d++) tv[ntv++] = codebase + s * 0x80000000l + d * 0x3000l;
  tv[ntv++] = codebase; tv[ntv++] = codebase + 0x10000; 
  int lab0 = ntv; ntv += 4;                              /* labels: before, after, far after, last */
  for (int i = 0; i < ntv; i++) for (int d = 0; d < NAD; d++) for (int op = 0; op < 3; op++) {
    C_ *c = sljit_create_compiler(0); struct sljit_label *l = 0; struct op_ o = ad[d];
    sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W_R), 7, 6, 64);
    if (i == lab0) l = sljit_emit_label(c);
    if (d == 6) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)&cell - (1l << 33));
    if (d == 7) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)&cell - 72); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 9); }
    if (d == 4) o.w = (sljit_sw)&cell;
    if (d) sljit_emit_op1(c, SLJIT_MOV, o.k, o.w, SLJIT_R0, 0);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R4, 0, SLJIT_IMM, 77);
    struct sljit_jump *j = sljit_emit_op_addr(c, op, o.k, o.w);
    if (i < lab0) sljit_set_target(j, tv[i]);
    if (i == lab0 + 1) l = sljit_emit_label(c);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, o.k, o.w);
    sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R4, 0);
    if (i == lab0 + 2) { struct sljit_jump *m = sljit_emit_jump(c, SLJIT_JUMP); fill(c, 1 + d * 40 + op); l = sljit_emit_label(c); sljit_set_label(m, l); }
    sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
    if (i == lab0 + 3) { fill(c, 9); l = sljit_emit_aligned_label(c, SLJIT_LABEL_ALIGN_16, 0); fill(c, 1); }
    if (l) sljit_set_label(j, l);
    void *f = sljit_generate_code(c, 0, 0); lab[i][d][op] = l ? sljit_get_label_abs_addr(l) : tv[i];
    sljit_free_compiler(c); af[i][d][op] = f;
  }
}
static void h_addr(long arg) {
  u64 a = in64("a", -1);
  if (arg < ntv) for (int d = 0; d < NAD; d++) for (int op = 0; op < 3; op++) {
    u64 (*f)(u64) = af[arg][d][op];
    sym_assert(f(a) == (op == 2 ? a : 0) + lab[arg][d][op] + 77, "the address of a label or target is wrong");
  }
  sym_assert(1, ""); sym_reach("addr");
}
/* constants */
static const int cop[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8};
#define NCD 9
static const struct op_ cd[NCD] = {{SLJIT_R0, 0}, {SLJIT_R2, 0}, {SLJIT_R4, 0}, {SLJIT_S0, 0}, {SLJIT_S4, 0}, {SLJIT_MEM0(), 0}, {SLJIT_MEM1(SLJIT_SP), 8}, {SLJIT_MEM1(SLJIT_S1), 1l << 33}, {SLJIT_MEM2(SLJIT_S1, SLJIT_R1), 3}};
static const long cini[] = {0, 1, -1, 0x7fffffff, -0x80000000l, 0x80000000l, 0xff, 0x100, -0x100, 0x123456789abcdef};
#define NCI 10
#define CSZ 256
static void *kf[5][NCD][NCI]; static u64 ka[5][NCD][NCI][3]; static u8 ksave[5][NCD][NCI][CSZ]; static int ksz[5][NCD][NCI]; static u64 kout[4];
static long cval(int op, long v, int reg) {              /* value left in a register or in the bytes of the cell */
  switch (op) { case 0: return v; case 1: return reg ? v & 0xffffffff : v & 0xffffffff; case 2: return (long)(int)v; }
  return reg ? (v & 0x100 ? v | -0x100l : v & 0xff) : v & 0xff;
}
static void const_fns(void) {
  for (int op = 0; op < 5; op++) for (int d = 0; d < NCD; d++) for (int i = 0; i < NCI; i++) {
    C_ *c = sljit_create_compiler(0); struct op_ o = cd[d];
    sljit_emit_enter(c, 0, SLJIT_ARGS1V(W_R), 7, 6, 64);
    if (d == 7) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)&cell - (1l << 33));
    if (d == 8) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)&cell - 72); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 9); }
    if (d == 5) o.w = (sljit_sw)&cell;
    if (d) sljit_emit_op1(c, SLJIT_MOV, o.k, o.w, SLJIT_R0, 0);
    sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R3, 0, SLJIT_R3, 0);
    struct sljit_const *k0 = sljit_emit_const(c, SLJIT_MOV, SLJIT_R5, 0, 0x1111), *k = sljit_emit_const(c, cop[op], o.k, o.w, cini[i]), *k1 = sljit_emit_const(c, SLJIT_MOV32, SLJIT_R6, 0, 0x2222);
    sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)&kout[3], SLJIT_ZERO);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)&kout[1], SLJIT_R5, 0); sljit_emit_op1(c, SLJIT_MOV_U32, SLJIT_R6, 0, SLJIT_R6, 0); sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)&kout[2], SLJIT_R6, 0);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)&kout[0], o.k, o.w);
    sljit_emit_return_void(c);
    kf[op][d][i] = sljit_generate_code(c, 0, 0); ka[op][d][i][0] = sljit_get_const_addr(k); ka[op][d][i][1] = sljit_get_const_addr(k0); ka[op][d][i][2] = sljit_get_const_addr(k1);
    if ((ksz[op][d][i] = sljit_get_generated_code_size(c)) > CSZ) abort(); memcpy(ksave[op][d][i], kf[op][d][i], ksz[op][d][i]);
    sljit_free_compiler(c);
  }
}
static void h_const(long arg) {
  int op = arg / (NCD * 4) , d = arg / 4 % NCD, w = arg % 4;     /* w: which one is rewritten, 3 none */
  u64 a = in64("a", -1), v = in64("v", -1);
  for (int i = 0; i < NCI; i++) {
    u8 *p = kf[op][d][i]; u64 e[4];
    if (w < 3) sljit_set_const(ka[op][d][i][w], w == 0 ? cop[op] : w == 1 ? SLJIT_MOV : SLJIT_MOV32, v, 0);
    ((void (*)(u64))p)(a);
    e[1] = w == 1 ? v : 0x1111; e[2] = w == 2 ? (u32)v : 0x2222; e[3] = 1;
    int reg = d < 5; u64 x = cval(op, w == 0 ? v : cini[i], reg), g = kout[0];
    if (reg) { if (op == 1 || op == 4) { x = (u32)x; g = (u32)g; } }
    else if (op == 1) x = (u32)x | a >> 32 << 32; else if (op >= 3) x = x & 0xff | a & ~0xfful;
    e[0] = x;
    sym_assert(((g ^ e[0]) | (kout[1] ^ e[1]) | (kout[2] ^ e[2]) | (kout[3] ^ e[3])) == 0, "a constant has the wrong value, or another one or the flags changed");
    int wb = w == 1 || w == 0 && op == 0 ? 8 : 4; u64 bad = 0;
    for (int q = 0; q < ksz[op][d][i]; q++) if (w == 3 || (u64)(p + q) < ka[op][d][i][w] - wb || (u64)(p + q) >= ka[op][d][i][w]) bad |= p[q] ^ ksave[op][d][i][q];
    sym_assert(bad == 0, "rewriting a constant changes other code");
  }
  sym_reach("const");
}
/* rewritable jumps redirected */
#define NRW 6
static void *rf[NRW]; static u64 rj[NRW][2], rl[NRW][6]; static u8 rsave[NRW][CSZ * 2]; static int rsz[NRW];
static void rw_fns(void) {
  for (int k = 0; k < NRW; k++) {
    C_ *c = sljit_create_compiler(0); struct sljit_jump *j[2]; struct sljit_label *l[6];
    sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W_R), 4, 2, 32);
    for (int q = 0; q < 2; q++) {
      if (k < 4) { j[q] = cjump(c, k, 1); step(c, 9); }
      else if (k == 4) { j[q] = sljit_emit_jump(c, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP); step(c, 9); }
      else j[q] = sljit_emit_jump(c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP);
      if (k != 4 && q == 0) { l[0] = sljit_emit_label(c); step(c, 1); }
    }
    if (k == 4) { l[0] = 0; }
    sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
    for (int q = k == 4 ? 0 : 1; q < 6; q++) {
      fill(c, 7); l[q] = sljit_emit_label(c);
      if (k == 4) { sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0); step(c, q + 1); sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0); }
      else { step(c, q + 1); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); }
    }
    sljit_set_label(j[0], l[k == 4 ? 1 : 0]); sljit_set_label(j[1], l[2]);
    rf[k] = sljit_generate_code(c, 0, 0); for (int q = 0; q < 6; q++) rl[k][q] = sljit_get_label_addr(l[q]);
    for (int q = 0; q < 2; q++) rj[k][q] = sljit_get_jump_addr(j[q]);
    if ((rsz[k] = sljit_get_generated_code_size(c)) > CSZ * 2) abort(); memcpy(rsave[k], rf[k], rsz[k]); sljit_free_compiler(c);
  }
}
static void h_rewrite(long arg) {
  long k = arg / 12;
  for (int i = 0; i < NCND; i++) cnd[i] = in64("c", i);
  u64 a = in64("a", -1); int to[2] = {k == 4 ? 1 : 0, 2}, w[2] = {0, 0};
  for (int s = 0; s < 3; s++) {                          /* up to three redirections, running the function after each */
    int q = s ? in_pick("q", s, 2) : arg % 2, t = s ? in_pick("t", s, 6) : arg / 2 % 6;
    if (q == 1 && t == 0 && k != 4) t = 1;               /* not backwards from the second jump */
    sljit_set_jump_addr(rj[k][q], rl[k][t], 0); to[q] = t; w[q] = 1;
    u64 e = a; int done = 0;
    for (int i = 0; i < 2 && !done; i++) {
      if (k == 4) { e = e * 16 + to[i] + 1; e = e * 16 + 9; continue; }
      int go = k == 5 || taken(k);
      if (!go) e = e * 16 + 9;
      if (i == 0 && (!go || to[0] == 0)) e = e * 16 + 1;
      else if (go) { e = e * 16 + to[i] + 1; done = 1; }
    }
    u64 (*f)(u64) = rf[k];
    sym_assert(f(a) == e, "a redirected jump does not reach its new target");
    u64 bad = 0; u8 *p = rf[k];
    for (int i = 0; i < rsz[k]; i++) { u64 z = (u64)(p + i); if (z - rj[k][0] >= 8 && z - rj[k][1] >= 8) bad |= p[i] ^ rsave[k][i]; }
    sym_assert(bad == 0, "redirecting a jump changes other code");
  }
  sym_reach("rewrite");
}
void h_setup(void) {
  stubs();
  for (int k = 0; k < NPROG; k++) layout(k);
  edges();
  for (int t = 0; t < ntgt; t++) for (int g = 0; g < NGO; g++) tf[t][g] = target_code(tgt[t], g);
  near_fns(); addr_fns(); const_fns(); rw_fns();
}
struct xh harnesses[] = {{"layout", h_layout, NPROG / PER}, {"edge", h_edge, NKIND * 2 * NEAL}, {"target", h_target, 14 * NGO}, {"near", h_near, 20}, {"addr", h_addr, 30}, {"const", h_const, 5 * NCD * 4}, {"rewrite", h_rewrite, NRW * 12}, {0}};
