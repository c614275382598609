/* C15: value-stack helpers. */
#include "hlib.h"
#include <pwart.h>
static const char TY[5] = {0x7f, 0x7e, 0x7d, 0x7c, 0x6f};
static const int SZ[5] = {4, 8, 4, 8, 8};
#define MAXLEN 4
static int sig_of(long a, int *t) {           /* a-th type list of length 1..MAXLEN */
  int n = 1; long c = 5;
  while (a >= c) { a -= c; c *= 5; n++; }
  for (int i = 0; i < n; i++) { t[i] = a % 5; a /= 5; }
  return n;
}
#define NSIG (5 + 25 + 125 + 625)
static pwart_wasm_function rev[2][NSIG];
static void setcfg(int f) { struct pwart_global_compile_config c = {f, 2}; pwart_set_global_compile_config(&c); }
void h_setup(void) {
  for (int f = 0; f < 2; f++) for (int a = 0; a < NSIG; a++) {
    static struct mb m, s; int t[8], n = sig_of(a, t);
    setcfg(f);
    mbhdr(&m);
    s.n = 0; mbu(&s, 1); mb1(&s, 0x60); mbu(&s, n); for (int i = 0; i < n; i++) mb1(&s, TY[t[i]]);
    mbu(&s, n); for (int i = n - 1; i >= 0; i--) mb1(&s, TY[t[i]]); mbsec(&m, 1, &s);
    s.n = 0; mbu(&s, 1); mbu(&s, 0); mbsec(&m, 3, &s);
    s.n = 0; mbu(&s, 1); mbs(&s, "f"); mb1(&s, 0); mbu(&s, 0); mbsec(&m, 7, &s);
    s.n = 0; mbu(&s, 1); mbu(&s, 2 + 2 * n); mbu(&s, 0); for (int i = n - 1; i >= 0; i--) { mb1(&s, 0x20); mbu(&s, i); } mb1(&s, 0x0b); mbsec(&m, 10, &s);
    char *err = 0;
    pwart_module_state st = pwart_load_module((char *)m.b, m.n, &err);
    if (!st) { printf("compile: %s\n", err); exit(8); }
    rev[f][a] = pwart_get_export_function(st, "f");
  }
}
static void put(void **sp, int t, u64 v) {
  union { u64 u; u32 i; float f; double d; void *p; } x; x.u = v;
  switch (t) {
    case 0: pwart_rstack_put_i32(sp, x.i); break;
    case 1: pwart_rstack_put_i64(sp, x.u); break;
    case 2: pwart_rstack_put_f32(sp, x.f); break;
    case 3: pwart_rstack_put_f64(sp, x.d); break;
    default: pwart_rstack_put_ref(sp, x.p);
  }
}
static u64 get(void **sp, int t) {
  union { u64 u; u32 i; float f; double d; void *p; } x; x.u = 0;
  switch (t) {
    case 0: x.i = pwart_rstack_get_i32(sp); break;
    case 1: x.u = pwart_rstack_get_i64(sp); break;
    case 2: x.f = pwart_rstack_get_f32(sp); break;
    case 3: x.d = pwart_rstack_get_f64(sp); break;
    default: x.p = pwart_rstack_get_ref(sp);
  }
  return x.u;
}
#define MASK(t) (SZ[t] == 4 ? 0xfffffffful : ~0ul)
static u8 area[256] __attribute__((aligned(16)));
/* put ... get, and the documented layout: entries in order, each aligned to its size when AUTO_ALIGN is set */
static void layout_(int flag, int n, int *t, int start) {
  u64 v[8]; u32 o = start; void *sp = area + start;
  setcfg(flag);
  sym_bytes(area, 256, "fill");
  u8 old[256]; memcpy(old, area, 256);
  u8 used[256]; memset(used, 0, 256);
  for (int i = 0; i < n; i++) { v[i] = in64("v", i) & MASK(t[i]); put(&sp, t[i], v[i]); }
  for (int i = 0; i < n; i++) {
    if (flag & 1) o = (o + SZ[t[i]] - 1) & -SZ[t[i]];
    u64 w = 0; memcpy(&w, area + o, SZ[t[i]]); memset(used + o, 1, SZ[t[i]]);
    sym_assert(w == v[i], "an entry is not at its documented place");
    o += SZ[t[i]];
  }
  sym_assert(sp == area + o, "the stack pointer does not follow the last entry");
  int keep = 1; for (int i = 0; i < 256; i++) keep &= used[i] | (old[i] == area[i]);
  sym_assert(keep, "putting values changed other bytes");
  sp = area + start;
  for (int i = 0; i < n; i++) sym_assert(get(&sp, t[i]) == v[i], "get does not return the value put");
  sym_assert(sp == area + o, "get leaves the stack pointer elsewhere than put");
  sym_reach("layout");
}
static void h_layout(long a) {
  int t[8], n = sig_of(a / 2, t);
  layout_(a & 1, n, t, 64);
}
/* a 4-byte value before: the following entries start at offset 4 modulo 8 */
static void h_odd(long a) { int t[8], n = sig_of(a / 2, t); layout_(a & 1, n, t, 68); }
/* the callee receives what was put and returns its parameters in reverse order */
static void h_callee(long a) {
  int f = a & 1, t[8], n = sig_of(a >> 1, t); u64 v[8]; void *sp = area + 64;
  setcfg(f);
  for (int i = 0; i < n; i++) { v[i] = in64("v", i) & MASK(t[i]); put(&sp, t[i], v[i]); }
  pwart_call_wasm_function(rev[f][a >> 1], area + 64);
  sp = area + 64;
  for (int i = n - 1; i >= 0; i--) sym_assert(get(&sp, t[i]) == v[i], "a result is not the value the callee left");
  sym_reach("callee");
}
/* allocated stacks */
static void h_stack(long a) {
  u32 n = in32("size", -1), k = in32("at", -1);
  if (a == 0) sym_assume(n <= 160); else sym_assume(n == 4096u << a | n == (4096u << a) + 8 | n == (4096u << a) - 1);
  sym_assume(k < n);
  u64 live = sym_live();
  u8 *s = pwart_allocate_stack(n);
  sym_assert(s != 0 & ((u64)s & 15) == 0, "the stack is not 16-byte aligned");
  if (a == 0) for (u32 i = 0; i < n; i++) s[i] = i;
  s[0] = 1; s[n - 1] = 2; s[n / 2] = 3;
  u8 *s2 = pwart_allocate_stack(n);
  sym_assert(s2 + n <= s | s + n <= s2, "two stacks overlap");
  s2[0] = 1; s2[n - 1] = 2;
  pwart_free_stack(s);
  sym_assert(sym_live() == live + 1, "freeing a stack does not free its memory");
  s2[n - 1] = 3;
  pwart_free_stack(s2);
  sym_assert(sym_live() == live, "freeing a stack does not free its memory");
  sym_reach("stack");
}
struct xh harnesses[] = {{"layout", h_layout, 2 * NSIG}, {"odd", h_odd, 2 * NSIG}, {"callee", h_callee, 2 * NSIG}, {"stack", h_stack, 6}, {0}};
