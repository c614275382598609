/* D05: function frames, arguments and calls.  A caller written in assembly sets every register, a callee written in assembly
   destroys what the calling convention lets it destroy; both record what they see. */
#include "sl.h"
struct inn { u64 a[4], x[4], cs[6], can[6]; } I;                        /* what the caller passes, and what it keeps */
struct { u64 s[6], r[13], f[4], l[4], clob[9], ret, fret, g[9]; } J;    /* what the functions put into registers and locals */
struct out { u64 rax, x0, cs[6], can[6], dsp, alt, a[4], s[6], l[4], ret, fret, ca[4], cx[4], al, n, lb, pc, g[6]; } O, W;
u64 t_sp, t_fn;
extern char tramp_ret[], tramp_alt[];
#define OI(f) "i"(offsetof(struct inn, f))
#define OO(f) "i"(offsetof(struct out, f))
__attribute__((naked, noinline)) void tramp(void) {
  asm volatile("push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n sub $56, %%rsp\n lea I(%%rip), %%rax\n"
    " movq %c0(%%rax), %%rcx\n mov %%rcx, 0(%%rsp)\n movq 8+%c0(%%rax), %%rcx\n mov %%rcx, 8(%%rsp)\n movq 16+%c0(%%rax), %%rcx\n mov %%rcx, 16(%%rsp)\n"
    " movq 24+%c0(%%rax), %%rcx\n mov %%rcx, 24(%%rsp)\n movq 32+%c0(%%rax), %%rcx\n mov %%rcx, 32(%%rsp)\n movq 40+%c0(%%rax), %%rcx\n mov %%rcx, 40(%%rsp)\n"
    " mov %%rsp, t_sp(%%rip)\n"
    " mov %c1(%%rax), %%rdi\n mov 8+%c1(%%rax), %%rsi\n mov 16+%c1(%%rax), %%rdx\n mov 24+%c1(%%rax), %%rcx\n"
    " movq %c2(%%rax), %%xmm0\n movq 8+%c2(%%rax), %%xmm1\n movq 16+%c2(%%rax), %%xmm2\n movq 24+%c2(%%rax), %%xmm3\n"
    " mov %c3(%%rax), %%rbx\n mov 8+%c3(%%rax), %%rbp\n mov 16+%c3(%%rax), %%r12\n mov 24+%c3(%%rax), %%r13\n mov 32+%c3(%%rax), %%r14\n mov 40+%c3(%%rax), %%r15\n"
    " mov t_fn(%%rip), %%rax\n call *%%rax\n" :: OI(can), OI(a), OI(x), OI(cs));
  asm volatile(".globl tramp_ret\ntramp_ret:\n movq $0, O+%c0(%%rip)\n jmp 1f\n"
    ".globl tramp_alt\ntramp_alt:\n movq $1, O+%c0(%%rip)\n1:\n mov %%rax, O+%c1(%%rip)\n movq %%xmm0, O+%c2(%%rip)\n lea O+%c3(%%rip), %%rdx\n"
    " mov %%rbx, (%%rdx)\n mov %%rbp, 8(%%rdx)\n mov %%r12, 16(%%rdx)\n mov %%r13, 24(%%rdx)\n mov %%r14, 32(%%rdx)\n mov %%r15, 40(%%rdx)\n"
    " mov %%rsp, %%rax\n sub t_sp(%%rip), %%rax\n mov %%rax, O+%c4(%%rip)\n mov t_sp(%%rip), %%rsp\n lea O+%c5(%%rip), %%rdx\n"
    " mov 0(%%rsp), %%rcx\n mov %%rcx, (%%rdx)\n mov 8(%%rsp), %%rcx\n mov %%rcx, 8(%%rdx)\n mov 16(%%rsp), %%rcx\n mov %%rcx, 16(%%rdx)\n"
    " mov 24(%%rsp), %%rcx\n mov %%rcx, 24(%%rdx)\n mov 32(%%rsp), %%rcx\n mov %%rcx, 32(%%rdx)\n mov 40(%%rsp), %%rcx\n mov %%rcx, 40(%%rdx)\n"
    " add $56, %%rsp\n pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n ret\n"
    :: OO(alt), OO(rax), OO(x0), OO(cs), OO(dsp), OO(can));
}
/* the C callee */
__attribute__((naked, noinline)) void callee(void) {
  asm volatile("lea O(%%rip), %%rax\n mov %%rdi, %c0(%%rax)\n mov %%rsi, 8+%c0(%%rax)\n mov %%rdx, 16+%c0(%%rax)\n mov %%rcx, 24+%c0(%%rax)\n"
    " movq %%xmm0, %c1(%%rax)\n movq %%xmm1, 8+%c1(%%rax)\n movq %%xmm2, 16+%c1(%%rax)\n movq %%xmm3, 24+%c1(%%rax)\n"
    " mov %%rsp, %%rcx\n and $15, %%ecx\n mov %%rcx, %c2(%%rax)\n incq %c3(%%rax)\n" :: OO(ca), OO(cx), OO(al), OO(n));
  asm volatile("lea J+%c0(%%rip), %%rax\n mov (%%rax), %%rcx\n mov 8(%%rax), %%rdx\n mov 16(%%rax), %%rsi\n mov 24(%%rax), %%rdi\n mov 32(%%rax), %%r8\n mov 40(%%rax), %%r9\n mov 48(%%rax), %%r10\n mov 56(%%rax), %%r11\n"
    " movq 64(%%rax), %%xmm1\n movq %%r8, %%xmm2\n movq %%r9, %%xmm3\n movq %%r10, %%xmm4\n movq %%r11, %%xmm7\n movq %%rcx, %%xmm9\n movq %%rdx, %%xmm14\n"
    " mov %%rcx, -8(%%rsp)\n mov %%rdx, -16(%%rsp)\n mov %%rsi, -24(%%rsp)\n mov %%r8, -32(%%rsp)\n"
    " movq J+%c2(%%rip), %%xmm0\n mov J+%c1(%%rip), %%rax\n ret\n" :: "i"(offsetof(typeof(J), clob)), "i"(offsetof(typeof(J), ret)), "i"(offsetof(typeof(J), fret)));
}
#define AB(x) SLJIT_MEM0(), (sljit_sw)&(x)
struct spec { int opt, sc, sv, fs, ls, n, ty[4], rt; };
/* argument kinds: 0 W, 1 W_R, 2 32, 3 32_R, 4 F64, 5 F32, 6 P, 7 P_R */
static const int aty[] = {SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_W_R, SLJIT_ARG_TYPE_32, SLJIT_ARG_TYPE_32_R, SLJIT_ARG_TYPE_F64, SLJIT_ARG_TYPE_F32, SLJIT_ARG_TYPE_P, SLJIT_ARG_TYPE_P_R};
/* result kinds: 0 void, 1 W, 2 32, 3 P, 4 F64, 5 F32 as sljit's own */
static int args(const struct spec *s) { int t = SLJIT_ARG_RETURN(s->rt); for (int i = 0; i < s->n; i++) t |= SLJIT_ARG_VALUE(aty[s->ty[i]], i + 1); return t; }
static int isf(int t) { return t == 4 || t == 5; }
static int is32(int t) { return t == 2 || t == 3 || t == 5; }
static int isr(int t) { return t == 1 || t == 3 || t == 7; }
/* smallest register counts the argument list needs */
static void need(struct spec *s) {
  int w = 0, sv = 0, f = 0, sc = 0;
  for (int i = 0; i < s->n; i++) if (isf(s->ty[i])) f++; else { if (isr(s->ty[i])) sc = w + 1; else sv++; w++; }
  if (s->sc < sc) s->sc = sc; if (s->sv < sv) s->sv = sv; if (s->fs < f) s->fs = f;
}
static void emit_args(C_ *c, const struct spec *s) {          /* record the arguments as the function finds them */
  int w = 0, sv = 0, f = 0;
  for (int i = 0; i < s->n; i++) {
    int t = s->ty[i];
    if (isf(t)) sljit_emit_fop1(c, t == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, AB(O.a[i]), SLJIT_FR(f++), 0);
    else { sljit_emit_op1(c, is32(t) ? SLJIT_MOV32 : SLJIT_MOV, AB(O.a[i]), isr(t) ? SLJIT_R(w) : SLJIT_S(sv), 0); if (!isr(t)) sv++; w++; }
  }
}
static struct out Z;
static void want_args(const struct spec *s) {
  int w = 0, f = 0;
  for (int i = 0; i < s->n; i++) { u64 v = isf(s->ty[i]) ? I.x[f++] : I.a[w++]; W.a[i] = is32(s->ty[i]) ? v & 0xffffffff | Z.a[i] >> 32 << 32 : v; }
}
/* where the words kept in the local area lie */
static int loff(int ls, int i) { return ls < 8 ? -1 : i == 0 ? 0 : i == 1 ? (ls >= 16 ? ls - 8 : -1) : i == 2 ? (ls >= 48 ? ls / 2 & ~7 : -1) : ls >= 48 ? 8 : -1; }
static void emit_fill(C_ *c, const struct spec *s) {
  for (int i = 0; i < s->sc; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, AB(J.r[i]));
  for (int i = 0; i < s->sv; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, AB(J.s[i]));
  for (int i = 0; i < 4 && i < s->fs; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(i), 0, AB(J.f[i]));
  for (int i = 4; i < s->fs; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(i), 0, AB(J.f[i & 3]));
  for (int i = 0; i < 4; i++) if (loff(s->ls, i) >= 0) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), loff(s->ls, i), AB(J.l[i]));
  if (s->ls && s->ls < 8) for (int i = 0; i < s->ls; i++) sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_MEM1(SLJIT_SP), i, AB(((u8 *)&J.l[0])[i]));
}
static void emit_keep(C_ *c, const struct spec *s) {         /* record the saved registers and locals */
  for (int i = 0; i < s->sv; i++) sljit_emit_op1(c, SLJIT_MOV, AB(O.s[i]), SLJIT_S(i), 0);
  for (int i = 0; i < 4; i++) if (loff(s->ls, i) >= 0) sljit_emit_op1(c, SLJIT_MOV, AB(O.l[i]), SLJIT_MEM1(SLJIT_SP), loff(s->ls, i));
  if (s->ls && s->ls < 8) for (int i = 0; i < s->ls; i++) sljit_emit_op1(c, SLJIT_MOV_U8, AB(((u8 *)&O.l[0])[i]), SLJIT_MEM1(SLJIT_SP), i);
}
static void want_keep(const struct spec *s) {
  for (int i = 0; i < s->sv; i++) W.s[i] = J.s[i];
  for (int i = 0; i < 4; i++) if (loff(s->ls, i) >= 0) W.l[i] = J.l[i];
  if (s->ls && s->ls < 8) for (int i = 0; i < s->ls; i++) ((u8 *)&W.l[0])[i] = ((u8 *)&J.l[0])[i];
}
/* the value returned: q picks where it comes from */
static const struct { int op; int n, sg; } rop[] = {{SLJIT_MOV, 8, 0}, {SLJIT_MOV_U8, 1, 0}, {SLJIT_MOV_S8, 1, 1}, {SLJIT_MOV_U16, 2, 0}, {SLJIT_MOV_S16, 2, 1}, {SLJIT_MOV_U32, 4, 0}, {SLJIT_MOV_S32, 4, 1}};
static void emit_ret(C_ *c, const struct spec *s, int q) {
  if (s->rt == 0) { sljit_emit_return_void(c); return; }
  if (s->rt >= 4) {
    int op = s->rt == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32;
    if (q % 3 == 0 || !s->fs) sljit_emit_return(c, op, AB(J.f[1])); else if (q % 3 == 1) sljit_emit_return(c, op, SLJIT_FR(s->fs > 1), 0); else sljit_emit_return(c, op, SLJIT_FR(0), 0);
    return;
  }
  int op = s->rt == 2 ? SLJIT_MOV32 : s->rt == 3 ? SLJIT_MOV_P : rop[q % 7].op;
  switch (q % 5) {
    case 0: if (s->sv) { sljit_emit_return(c, op, SLJIT_S(s->sv - 1), 0); return; } break;
    case 1: if (s->sc) { sljit_emit_return(c, op, SLJIT_R(s->sc - 1), 0); return; } break;
    case 2: sljit_emit_return(c, op, SLJIT_IMM, 0x123456789abcl); return;
    case 3: if (s->ls >= 8) { sljit_emit_return(c, op, SLJIT_MEM1(SLJIT_SP), 0); return; } break;
  }
  sljit_emit_return(c, op, AB(J.ret));
}
static void want_ret(const struct spec *s, int q) {
  if (s->rt == 0) { W.rax = O.rax; W.x0 = O.x0; return; }
  if (s->rt >= 4) {
    u64 v = q % 3 == 0 || !s->fs ? J.f[1] : q % 3 == 1 ? J.f[s->fs > 1] : J.f[0];
    W.rax = O.rax; W.x0 = v; if (s->rt == 5) { W.x0 = (u32)v; O.x0 = (u32)O.x0; } return;
  }
  u64 v = J.ret;
  switch (q % 5) {
    case 0: if (s->sv) v = J.s[s->sv - 1]; break;
    case 1: if (s->sc) v = J.r[s->sc - 1]; break;
    case 2: v = 0x123456789abcl; break;
    case 3: if (s->ls >= 8) v = J.l[0]; break;
  }
  W.x0 = O.x0;
  if (s->rt == 2) { W.rax = (u32)v; O.rax = (u32)O.rax; return; }
  if (s->rt == 3) { W.rax = v; return; }
  int sh = 64 - 8 * rop[q % 7].n;
  W.rax = rop[q % 7].sg ? (u64)((s64)(v << sh) >> sh) : v << sh >> sh;
}
static void inputs5(void) {
  for (int i = 0; i < 4; i++) { I.a[i] = in64("a", i); I.x[i] = in64("x", i); J.f[i] = in64("f", i); J.l[i] = in64("l", i); }
  for (int i = 0; i < 6; i++) { I.cs[i] = in64("c", i); I.can[i] = in64("n", i); J.s[i] = in64("s", i); }
  for (int i = 0; i < 13; i++) J.r[i] = in64("r", i);
  for (int i = 0; i < 9; i++) { J.clob[i] = in64("k", i); J.g[i] = in64("g", i); }
  J.ret = in64("ret", -1); J.fret = in64("fret", -1);
  for (int i = 0; i < (int)(sizeof Z / 8); i++) ((u64 *)&Z)[i] = 0x1111111111111111ul * (i % 15 + 1);
  Z.n = 0;
}
static void go(void *f) { O = Z; t_fn = (u64)f; tramp(); W = Z; }
static void want_caller(void) {
  W.alt = 0; W.dsp = 0;
  for (int i = 0; i < 6; i++) { W.cs[i] = I.cs[i]; W.can[i] = I.can[i]; }
}
static void compare(const char *what) {
  u64 bad = 0, *a = (u64 *)&O, *e = (u64 *)&W;
  for (int i = 0; i < (int)(sizeof O / 8); i++) bad |= a[i] ^ e[i];
  sym_assert(bad == 0, what);
}
static C_ *enter(const struct spec *s) {
  C_ *c = sljit_create_compiler(0);
  if (sljit_emit_enter(c, s->opt, args(s), s->sc | SLJIT_ENTER_FLOAT(s->fs), s->sv, s->ls)) { printf("enter\n"); fflush(stdout); exit(8); }
  return c;
}
/* every argument list; the frame varies with it */
static const int lsz[] = {0, 8, 16, 1, 24, 15, 40, 100, 128, 4096};
static struct spec asp[4681]; static void *af[4681]; static int nas;
static void all_args(void) {
  for (int n = 0; n <= 4; n++) for (int k = 0; k < 1 << 3 * n; k++) {
    struct spec *s = &asp[nas];
    s->n = n; for (int i = 0; i < n; i++) s->ty[i] = k >> 3 * i & 7;
    s->rt = (nas / 5 + nas) % 6; s->ls = lsz[(nas * 7 + nas / 11) % 10];
    s->sc = (nas * 3 + nas / 13) % 7; s->sv = (nas + nas / 7) % 6; s->fs = nas % 4 * 2;
    need(s); if (s->rt >= 1 && s->rt <= 3 && !s->sc) s->sc = 1; if (s->rt >= 4 && !s->fs) s->fs = 1;
    C_ *c = enter(s); emit_args(c, s); emit_fill(c, s); emit_keep(c, s); emit_ret(c, s, nas);
    af[nas] = finish_(c); nas++;
  }
}
#define PERA 15
static void h_args(long arg) {
  inputs5();
  for (int i = 0; i < PERA; i++) {
    int k = arg * PERA + i; if (k >= nas) break;
    go(af[k]); want_args(&asp[k]); want_keep(&asp[k]); want_ret(&asp[k], k); want_caller();
    compare("a function finds a wrong argument, returns a wrong value, or loses a register or local");
  }
  sym_reach("args");
}
/* every register count and a range of local sizes, with a call of a C function, a tail call, or the return address */
static const int lsf[] = {0, 1, 7, 8, 9, 16, 24, 32, 120, 4095, 4096, 65537, 1048576};
#define NLS 13
static int frames[80][2], nfr;
static void *ff[80][NLS][4];
static struct spec fsp(int fr, int l) {
  struct spec s = {0}; s.sc = frames[fr][0]; s.sv = frames[fr][1]; s.ls = lsf[l]; s.fs = (fr + l) % 5 * 3; s.rt = s.sc ? (fr + l) % 4 : 0; 
  s.n = s.sv > 1 ? 2 : s.sv; s.ty[0] = fr % 2 ? 0 : 2; s.ty[1] = 6; return s;
}
static void all_frames(void) {
  for (int sc = 0; sc <= 13; sc++) for (int sv = 0; sv <= 6; sv++) if (sc + sv <= 13) { frames[nfr][0] = sc; frames[nfr][1] = sv; nfr++; }
  for (int fr = 0; fr < nfr; fr++) for (int l = 0; l < NLS; l++) for (int v = 0; v < 4; v++) {
    struct spec s = fsp(fr, l);
    C_ *c = enter(&s); emit_args(c, &s); emit_fill(c, &s);
    if (v == 0) {                                        /* call */
      sljit_emit_icall(c, SLJIT_CALL, s.sc ? SLJIT_ARGS0(W) : SLJIT_ARGS0V(), SLJIT_IMM, (sljit_sw)callee);
      if (s.sc) sljit_emit_op1(c, SLJIT_MOV, AB(O.ret), SLJIT_R0, 0);
      emit_keep(c, &s);
      for (int i = 0; i < s.sc; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, AB(J.r[i]));
      emit_ret(c, &s, fr + l);
    } else if (v == 1) sljit_emit_icall(c, SLJIT_CALL | SLJIT_CALL_RETURN, s.rt, SLJIT_IMM, (sljit_sw)callee);
    else if (v == 3) {                                   /* code of another function in between */
      struct sljit_jump *j = sljit_emit_jump(c, SLJIT_JUMP);
      int q = (fr * 5 + l * 3) % nfr;
      sljit_emit_enter(c, 0, 0, frames[q][0] | SLJIT_ENTER_FLOAT(q % 7), frames[q][1], lsf[(l + fr) % NLS]); sljit_emit_return_void(c);
      sljit_set_context(c, s.opt, args(&s), s.sc | SLJIT_ENTER_FLOAT(s.fs), s.sv, s.ls);
      sljit_set_label(j, sljit_emit_label(c));
      emit_keep(c, &s); emit_ret(c, &s, fr + l + 2);
    } else {                                             /* return address; leave to another one */
      sljit_emit_op_dst(c, SLJIT_GET_RETURN_ADDRESS, AB(O.ret));
      if (s.sc) { sljit_emit_op_dst(c, SLJIT_GET_RETURN_ADDRESS, SLJIT_R(s.sc - 1), 0); sljit_emit_op1(c, SLJIT_MOV, AB(O.fret), SLJIT_R(s.sc - 1), 0); }
      int q = (fr + l) % 4;
      if (q == 0) sljit_emit_return_to(c, SLJIT_IMM, (sljit_sw)tramp_alt);
      else if (q == 1 && s.sc) { int r = SLJIT_R(l % 2 ? s.sc - 1 : l / 2 % s.sc); sljit_emit_op1(c, SLJIT_MOV, r, 0, SLJIT_IMM, (sljit_sw)tramp_alt); sljit_emit_return_to(c, r, 0); }
      else if (q == 2 && s.sv) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(s.sv - 1), 0, SLJIT_IMM, (sljit_sw)tramp_alt); sljit_emit_return_to(c, SLJIT_S(s.sv - 1), 0); }
      else if (s.ls >= 8) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), s.ls - 8, SLJIT_IMM, (sljit_sw)tramp_alt); sljit_emit_return_to(c, SLJIT_MEM1(SLJIT_SP), s.ls - 8); }
      else sljit_emit_return_to(c, SLJIT_IMM, (sljit_sw)tramp_alt);
    }
    ff[fr][l][v] = finish_(c);
  }
}
static void h_frame(long arg) {
  inputs5();
  for (int l = 0; l < NLS; l++) for (int v = 0; v < 4; v++) {
    struct spec s = fsp(arg, l);
    go(ff[arg][l][v]); want_args(&s);
    if (v < 2) { W.n = 1; W.al = 8; for (int i = 0; i < 4; i++) { W.ca[i] = O.ca[i]; W.cx[i] = O.cx[i]; } }
    if (v == 0) { want_keep(&s); if (s.sc) W.ret = J.ret; want_ret(&s, arg + l); }
    else if (v == 3) { want_keep(&s); want_ret(&s, arg + l + 2); }
    else if (v == 1) { W.rax = J.ret; W.x0 = J.fret; }
    else { W.ret = (u64)tramp_ret; if (s.sc) W.fret = (u64)tramp_ret; W.rax = O.rax; W.x0 = O.x0; }
    want_caller(); if (v == 2) W.alt = 1;
    compare(v == 0 ? "a call loses a saved register or local, or the frame is not released" : v == 1 ? "a call in return position does not release the frame" : v == 2 ? "the return address is wrong" : "the frame is wrong after another function's code");
  }
  sym_reach("frame");
}
/* call argument lists: W, 32, F64, F32, P; the target in every place */
static const int cty[] = {SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_32, SLJIT_ARG_TYPE_F64, SLJIT_ARG_TYPE_F32};
static int cn[341], ck[341], ncl;
static int cargs(int i, int rt) { int t = rt; for (int j = 0; j < cn[i]; j++) t |= SLJIT_ARG_VALUE(cty[ck[i] >> 2 * j & 3], j + 1); return t; }
static int cwords(int i) { int w = 0; for (int j = 0; j < cn[i]; j++) w += (ck[i] >> 2 * j & 3) < 2; return w; }
/* targets: 0 imm, 1.. registers R0..R6, S5..S0, 14 stack, 15 abs, 16 mem2, 17 jump with target, 18 rewritable jump with target, 19 far memory */
#define NTG 20
static void *fc[341][NTG][2]; static u64 cptr = (u64)callee, *cpp = &cptr;
static struct spec csp(int i, int tg) { struct spec s = {0}; s.sc = 7; s.sv = tg > 7 && tg < 14 ? 6 : 3 + (i + tg) % 4; s.fs = 4; s.ls = 16 + (i * 3 + tg) % 4 * 8; s.rt = 1 + (i + tg) % 5; return s; }
static void all_calls(void) {
  for (int n = 0; n <= 4; n++) for (int k = 0; k < 1 << 2 * n; k++) { cn[ncl] = n; ck[ncl] = k; ncl++; }
  for (int i = 0; i < ncl; i++) for (int tg = 0; tg < NTG; tg++) for (int v = 0; v < 2; v++) {
    if ((i * 3 + tg * 3 + v * 2) % 5 && i > 21) continue;
    if (tg >= 1 && tg <= 7 && tg - 1 < cwords(i)) continue;      /* the register holds an argument */
    struct spec s = csp(i, tg);
    C_ *c = enter(&s); emit_fill(c, &s);
    int src = SLJIT_IMM; sljit_sw srcw = (sljit_sw)callee; int t = SLJIT_CALL | (v ? SLJIT_CALL_RETURN : 0), at = cargs(i, s.rt);
    if (tg >= 1 && tg <= 13) { src = SLJIT_R(tg - 1); srcw = 0; sljit_emit_op1(c, SLJIT_MOV, src, 0, SLJIT_IMM, (sljit_sw)callee); }
    else if (tg == 14) { src = SLJIT_MEM1(SLJIT_SP); srcw = s.ls - 8; sljit_emit_op1(c, SLJIT_MOV, src, srcw, SLJIT_IMM, (sljit_sw)callee); }
    else if (tg == 15) { src = SLJIT_MEM0(); srcw = (sljit_sw)&cptr; }
    else if (tg == 16) { src = SLJIT_MEM2(SLJIT_S0, SLJIT_R5); srcw = 3; sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sljit_sw)&cptr - 80); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R5, 0, SLJIT_IMM, 10); }
    else if (tg == 19) { src = SLJIT_MEM1(SLJIT_S1); srcw = 1l << 33; sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)&cptr - (1l << 33)); }
    if (tg == 17 || tg == 18) { struct sljit_jump *j = sljit_emit_call(c, t | (tg == 18 ? SLJIT_REWRITABLE_JUMP : 0), at); sljit_set_target(j, (sljit_uw)callee); }
    else sljit_emit_icall(c, t, at, src, srcw);
    if (!v) {
      if (s.rt < 4) sljit_emit_op1(c, s.rt == 2 ? SLJIT_MOV32 : SLJIT_MOV, AB(O.ret), SLJIT_R0, 0); else sljit_emit_fop1(c, s.rt == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, AB(O.fret), SLJIT_FR0, 0);
      emit_keep(c, &s);
      if (s.rt < 4) sljit_emit_return(c, s.rt == 2 ? SLJIT_MOV32 : s.rt == 3 ? SLJIT_MOV_P : SLJIT_MOV, AB(J.r[1])); else sljit_emit_return(c, s.rt == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, AB(J.f[1]));
    }
    fc[i][tg][v] = finish_(c);
  }
}
static void h_call(long arg) {
  inputs5();
  int i = arg;
  for (int tg = 0; tg < NTG; tg++) for (int v = 0; v < 2; v++) {
    if (!fc[i][tg][v]) continue;
    struct spec s = csp(i, tg);
    go(fc[i][tg][v]); want_caller();
    W.n = 1; W.al = 8;
    int w = 0, f = 0;
    for (int j = 0; j < cn[i]; j++) { int t = ck[i] >> 2 * j & 3;
      if (t < 2) { W.ca[w] = t ? (u32)J.r[w] : J.r[w]; if (t) O.ca[w] = (u32)O.ca[w]; w++; }
      else { W.cx[f] = t == 3 ? (u32)J.f[f] : J.f[f]; if (t == 3) O.cx[f] = (u32)O.cx[f]; f++; } }
    for (; w < 4; w++) W.ca[w] = O.ca[w];
    for (; f < 4; f++) W.cx[f] = O.cx[f];
    W.rax = O.rax; W.x0 = O.x0;
    if (v) { if (s.rt < 4) W.rax = J.ret; else W.x0 = J.fret; }
    else {
      want_keep(&s);
      if (tg >= 8 && tg <= 13) W.s[13 - tg] = (u64)callee;
      if (tg == 14) W.l[1] = (u64)callee;
      if (tg == 16) W.s[0] = (u64)&cptr - 80;
      if (tg == 19) W.s[1] = (u64)&cptr - (1l << 33);
      if (s.rt < 4) W.ret = J.ret; else W.fret = J.fret;
      if (s.rt == 2) { W.ret = W.ret & 0xffffffff | Z.ret >> 32 << 32; }
      if (s.rt == 5) { W.fret = W.fret & 0xffffffff | Z.fret >> 32 << 32; }
      if (s.rt < 4) W.rax = J.r[1]; else W.x0 = J.f[1];
    }
    if (s.rt == 2) { W.rax = (u32)W.rax; O.rax = (u32)O.rax; }
    if (s.rt == 5) { W.x0 = (u32)W.x0; O.x0 = (u32)O.x0; }
    compare(v ? "a call in return position passes wrong arguments or does not return to the caller" : "a call passes or returns a wrong value, or loses a saved register or local");
  }
  sym_reach("call");
}
/* register-argument functions of sljit's own convention: caller F, callee G with every number of kept registers */
static void *fr_[4][7][4]; static int rgsv[] = {0, 1, 2, 3, 4, 5, 6};
/* v: 0 call by label, 1 by register, 2 by stack slot, 3 tail call from a register-argument function between them */
static void all_regarg(void) {
  for (int keep = 0; keep < 4; keep++) for (int q = 0; q < 7; q++) for (int v = 0; v < 4; v++) {
    int sv = rgsv[q]; if (sv < keep) continue;
    struct spec s = {0, 6, 6, 4, 24, 0, {0}, SLJIT_ARG_TYPE_W};
    int at = SLJIT_ARGS4(W, W_R, W_R, F64, 32_R);
    C_ *c = enter(&s); emit_fill(c, &s);
    struct sljit_jump *j = 0, *j2 = 0, *ja = 0;
    if (v == 0 || v == 3) j = sljit_emit_call(c, SLJIT_CALL_REG_ARG, SLJIT_ARGS4(W, W, W, F64, 32));
    else if (v == 1) { ja = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R4, 0); sljit_emit_icall(c, SLJIT_CALL_REG_ARG, SLJIT_ARGS4(W, W, W, F64, 32), SLJIT_R4, 0); }
    else { ja = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 8); sljit_emit_icall(c, SLJIT_CALL_REG_ARG, SLJIT_ARGS4(W, W, W, F64, 32), SLJIT_MEM1(SLJIT_SP), 8); }
    sljit_emit_op1(c, SLJIT_MOV, AB(O.ret), SLJIT_R0, 0);
    emit_keep(c, &s); emit_ret(c, &s, 4);
    if (v == 3) {                                        /* the function between: same kept registers, another frame */
      sljit_set_label(j, sljit_emit_label(c));
      sljit_emit_enter(c, SLJIT_ENTER_REG_ARG | keep, at, 9 - sv | SLJIT_ENTER_FLOAT(2), sv, 72);
      j2 = sljit_emit_call(c, SLJIT_CALL_REG_ARG | SLJIT_CALL_RETURN, SLJIT_ARGS4(W, W, W, F64, 32)); j = 0;
    }
    struct sljit_label *l = sljit_emit_label(c);
    if (j) sljit_set_label(j, l); if (j2) sljit_set_label(j2, l); if (ja) sljit_set_label(ja, l);
    int ls = (keep * 7 + q * 3 + v) % 5 * 8;
    sljit_emit_enter(c, SLJIT_ENTER_REG_ARG | keep, at, 13 - sv | SLJIT_ENTER_FLOAT(5), sv, ls);
    sljit_emit_op1(c, SLJIT_MOV, AB(O.ca[0]), SLJIT_R0, 0); sljit_emit_op1(c, SLJIT_MOV, AB(O.ca[1]), SLJIT_R1, 0); sljit_emit_op1(c, SLJIT_MOV32, AB(O.ca[2]), SLJIT_R2, 0);
    sljit_emit_fop1(c, SLJIT_MOV_F64, AB(O.cx[0]), SLJIT_FR0, 0);
    for (int i = 0; i < keep; i++) sljit_emit_op1(c, SLJIT_MOV, AB(O.g[i]), SLJIT_S(i), 0);
    for (int i = 0; i < sv; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, AB(J.g[i]));
    for (int i = 0; i < 13 - sv; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, AB(J.clob[i % 9]));
    for (int i = 0; i < ls; i += 8) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), i, AB(J.clob[i & 7]));
    sljit_emit_op2(c, SLJIT_ADD, AB(O.n), AB(O.n), SLJIT_IMM, 1);
    sljit_emit_return(c, SLJIT_MOV, AB(J.fret));
    fr_[keep][q][v] = finish_(c);
  }
}
static void h_regarg(long arg) {
  int keep = arg & 3, q = arg >> 2;
  inputs5();
  for (int v = 0; v < 4; v++) {
    if (!fr_[keep][q][v]) continue;
    struct spec s = {0, 6, 6, 4, 24, 0, {0}, SLJIT_ARG_TYPE_W};
    go(fr_[keep][q][v]); want_caller(); want_keep(&s); want_ret(&s, 4);
    W.n = 1; W.ret = J.fret; W.ca[0] = J.r[0]; W.ca[1] = J.r[1]; W.ca[2] = (u32)J.r[2]; W.cx[0] = J.f[0]; O.ca[2] = (u32)O.ca[2];
    for (int i = 0; i < keep; i++) { W.g[i] = J.s[i]; W.s[i] = J.g[i]; }
    if (v == 2) W.l[1] = O.l[1];                         /* the slot that held the address */
    compare("a register-argument call passes or returns a wrong value, or loses a register it must keep");
  }
  sym_assert(1, ""); sym_reach("regarg");
}
/* fast calls: the return address kept in every place, called by jump, by register and by memory */
static const struct op_ fd[] = {{SLJIT_R0, 0}, {SLJIT_R3, 0}, {SLJIT_R5, 0}, {SLJIT_S0, 0}, {SLJIT_S2, 0}, {SLJIT_S5, 0}, M1(SLJIT_SP, 0), M1(SLJIT_SP, 16), M1(SLJIT_SP, 4000), M1(SLJIT_S1, 1l << 33), {SLJIT_MEM2(SLJIT_S1, SLJIT_R1), 3}, {SLJIT_MEM0(), 0}};
#define NFD 12
static void *ffa[NFD][3]; static u64 slot[16];
static void all_fast(void) {
  for (int d = 0; d < NFD; d++) for (int v = 0; v < 3; v++) {
    struct spec s = {0, 7, 6, 4, 4096, 0, {0}, SLJIT_ARG_TYPE_W};
    C_ *c = enter(&s); emit_fill(c, &s);
    struct sljit_jump *j = 0, *ja = 0;
    struct op_ o = fd[d];
    if (d == 9) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)slot - (1l << 33));
    if (d == 10) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sljit_sw)slot - 40); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 7); }
    if (d == 11) o.w = (sljit_sw)&slot[5];
    if (v == 0) j = sljit_emit_jump(c, SLJIT_FAST_CALL);
    else if (v == 1) { ja = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R6, 0); sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_R6, 0); }
    else { ja = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 2000); sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_MEM1(SLJIT_SP), 2000); }
    sljit_emit_op2(c, SLJIT_ADD, AB(O.pc), AB(O.pc), SLJIT_IMM, 1);
    emit_keep(c, &s); emit_ret(c, &s, 4);
    struct sljit_label *l = sljit_emit_label(c);
    if (j) sljit_set_label(j, l); if (ja) sljit_set_label(ja, l);
    sljit_emit_op_dst(c, SLJIT_FAST_ENTER, o.k, o.w);
    sljit_emit_op2(c, SLJIT_ADD, AB(O.n), AB(O.n), SLJIT_IMM, 1);
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 4088, AB(J.g[0]));
    sljit_emit_op1(c, SLJIT_MOV, SLJIT_S4, 0, AB(J.g[1]));
    sljit_emit_op_src(c, SLJIT_FAST_RETURN, o.k, o.w);
    ffa[d][v] = finish_(c);
  }
}
static void h_fast(long arg) {
  inputs5();
  struct spec s = {0, 7, 6, 4, 4096, 0, {0}, SLJIT_ARG_TYPE_W};
  for (int v = 0; v < 3; v++) {
    go(ffa[arg][v]); want_caller(); want_keep(&s); want_ret(&s, 4);
    W.n = 1; W.pc = Z.pc + 1; W.l[1] = J.g[0]; W.s[4] = J.g[1];
    struct op_ o = fd[arg];
    if (o.k >= SLJIT_S5 && o.k <= SLJIT_S0) W.s[SLJIT_S0 - o.k] = O.s[SLJIT_S0 - o.k];
    if (o.k == SLJIT_MEM1(SLJIT_SP) && o.w == 0) W.l[0] = O.l[0];
    if (arg == 9) W.s[1] = (u64)slot - (1l << 33);
    if (arg == 10) W.s[1] = (u64)slot - 40;
    compare("a fast call does not return to the place after it, or changes a register or local");
  }
  sym_reach("fast");
}
void h_setup(void) { all_args(); all_frames(); all_calls(); all_regarg(); all_fast(); }
struct xh harnesses[] = {{"args", h_args, (4681 + PERA - 1) / PERA}, {"frame", h_frame, 77}, {"call", h_call, 341}, {"regarg", h_regarg, 28}, {"fast", h_fast, NFD}, {0}};
