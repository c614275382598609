/* C14: global initialisers, constant expressions, data and element segments. */
#include "hlib.h"
#include <pwart.h>
#include <sys/mman.h>
#define ABASE 0x600000000000ul
#define I32 0x7f
#define I64 0x7e
#define F32 0x7d
#define F64 0x7c
#define FUNC 0x70
#define EXT 0x6f
static u64 fr[16];
static void hf0(void *sp) { } static void hf1(void *sp) { fr[9]++; }
static void *hf[2] = {hf0, hf1};
static struct pwart_wasm_memory hm[2];
static struct pwart_wasm_table ht[2]; static void *hte[2][8];
static u64 hg[6];                       /* imported globals: i32 i64 f32 f64 funcref externref */
static const u8 TY[6] = {I32, I64, F32, F64, FUNC, EXT};
static int sz(int t) { return t == I32 || t == F32 ? 4 : 8; }
void h_setup(void) {
  for (int i = 0; i < 2; i++) {
    hf[i] = pwart_wrap_host_function_c(hf[i]);
    hm[i].initial = hm[i].pages = hm[i].maximum = 65535; hm[i].bytes = (u8 *)ABASE + ((u64)i << 34); hm[i].fixed = 1;
    mmap((void *)(ABASE + ((u64)i << 34)), 1ul << 33, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    ht[i].elem_type = i ? EXT : FUNC; ht[i].initial = ht[i].size = ht[i].maximum = 8; ht[i].entries = hte[i];
  }
}
static void ns(struct mb *m, const char *p, int n) { mbu(m, n); for (int i = 0; i < n; i++) mb1(m, p[i]); }
static void rsv(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) {
  int k = q->import_field[0] - '0';
  q->result = q->kind == 0 ? hf[k] : q->kind == 1 ? (void *)&ht[k] : q->kind == 2 ? (void *)&hm[k] : (void *)&hg[k];
}
static struct pwart_symbol_resolver resolver = {rsv};
static struct mb m, s, b;
static pwart_module_state compile(void) {
  pwart_module_compiler c = pwart_new_module_compiler();
  pwart_set_symbol_resolver(c, &resolver);
  char *err = pwart_compile(c, (char *)m.b, m.n);
  sym_assert(err == 0, "a valid module is rejected");
  pwart_module_state st = pwart_get_module_state(c);
  pwart_free_module_compiler(c);
  return st;
}
/* types: 0 []->[], 1..6 []->[t] ; imports: nf functions, nt tables, nm memories, 6 globals */
static void head(int nf, int nt, int nm, int is64) {
  mbhdr(&m); s.n = 0; mbu(&s, 7); for (int i = 0; i < 7; i++) { mb1(&s, 0x60); mbu(&s, 0); mbu(&s, !!i); if (i) mb1(&s, TY[i - 1]); } mbsec(&m, 1, &s);
  s.n = 0; mbu(&s, nf + nt + nm + 6); char f[2] = {0, 0};
  for (int i = 0; i < nf; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 0); mbu(&s, 0); }
  for (int i = 0; i < nt; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 1); mb1(&s, ht[i].elem_type); mb1(&s, 0); mbu(&s, 8); }
  for (int i = 0; i < nm; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 2); mb1(&s, is64 ? 5 : 1); mbu(&s, 1); mbu(&s, 65535); }
  for (int i = 0; i < 6; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 3); mb1(&s, TY[i]); mb1(&s, 0); }
  mbsec(&m, 2, &s);
  for (int i = 0; i < 6; i++) hg[i] = sz(TY[i]) == 4 ? in32("hg", i) : in64("hg", i);
}
/* a full-length signed LEB of v */
static void leb32(struct mb *m, u32 v) { for (int i = 0; i < 4; i++) mb1(m, (v >> 7 * i & 0x7f) | 0x80); mb1(m, ((int)v >> 28) & 0x7f); }
static void leb64(struct mb *m, u64 v) { for (int i = 0; i < 9; i++) mb1(m, (v >> 7 * i & 0x7f) | 0x80); mb1(m, ((s64)v >> 63) & 0x7f); }
static void konst(struct mb *m, int t, u64 v) {
  if (t == I32) { mb1(m, 0x41); leb32(m, v); } else if (t == I64) { mb1(m, 0x42); leb64(m, v); }
  else { mb1(m, t == F32 ? 0x43 : 0x44); for (int i = 0; i < sz(t); i++) mb1(m, v >> 8 * i); }
}
/* the globals so far: their type and value (own ones follow the six imported ones) */
static int gt[40], ng; static u64 gv[40];
static u32 rnd; static int r(int n) { rnd = rnd * 1103515245 + 12345; return (rnd >> 16) % n; }
static int cid;
/* an integer expression of depth d; returns its value */
static u64 expr(struct mb *m, int t, int d) {
  if (d && r(4)) {
    u64 x = expr(m, t, d - 1), y = expr(m, t, d - 1 - r(d)), z; int o = r(3);
    mb1(m, (t == I32 ? 0x6a : 0x7c) + o); z = o == 0 ? x + y : o == 1 ? x - y : x * y;
    return t == I32 ? (u32)z : z;
  }
  if (r(3) == 0) { int c[40], n = 0; for (int i = 0; i < ng; i++) if (gt[i] == t) c[n++] = i; if (n) { n = c[r(n)]; mb1(m, 0x23); mbu(m, n); return gv[n]; } }
  if (d || r(2)) { u64 v = cid < 3 ? (t == I32 ? in32("k", cid++) : in64("k", cid++)) : r(1000) - 500; if (t == I32) v = (u32)v; konst(m, t, v); return v; }
  u64 v = r(200) - 100; konst(m, t, v); return t == I32 ? (u32)v : v;
}
#define FN 0x100000000000000ul       /* gv of a function reference: FN + index (index space) */
static u64 init(struct mb *m, int t, int how) {
  u64 v;
  if (t == FUNC) { if (how == 0) { mb1(m, 0xd0); mb1(m, 0x70); v = 0; } else { v = r(4); mb1(m, 0xd2); mbu(m, v); v += FN; } mb1(m, 0x0b); return v; }
  if (t == EXT && how != 2) { mb1(m, 0xd0); mb1(m, 0x6f); mb1(m, 0x0b); return 0; }
  if (how == 2 || t == EXT) { int c[40], n = 0; for (int i = 0; i < ng; i++) if (gt[i] == t) c[n++] = i; n = c[r(n)]; mb1(m, 0x23); mbu(m, n); mb1(m, 0x0b); return gv[n]; }
  if (how == 1 && (t == I32 || t == I64)) v = expr(m, t, 3);
  else { v = sz(t) == 4 ? in32("c", ng) : in64("c", ng); konst(m, t, v); }
  mb1(m, 0x0b); return v;
}
static void gsec(int n, const int *t, const int *how) {
  ng = 0; cid = 0;
  for (int i = 0; i < 6; i++) { gt[ng] = TY[i]; gv[ng++] = hg[i]; }
  s.n = 0; mbu(&s, n);
  for (int i = 0; i < n; i++) { mb1(&s, t[i]); mb1(&s, i & 1); u64 v = init(&s, t[i], how[i]); gt[ng] = t[i]; gv[ng++] = v; }
  mbsec(&m, 6, &s);
}
/* a: types and forms of four globals; exported and read back by code */
static void h_global(long a) {
  int n = 4, t[4], how[4]; rnd = a * 7919 + 13; r(2);
  for (int i = 0; i < n; i++) { t[i] = TY[(a >> (i ? 0 : 0)) % 6]; a /= 6; how[i] = r(3); if (a == 0 && i == 2) a = r(6); }
  head(2, 0, 0, 0);
  s.n = 0; mbu(&s, n + 2); for (int i = 0; i < n; i++) { int k = 0; while (TY[k] != t[i]) k++; mbu(&s, k + 1); } mbu(&s, 0); mbu(&s, 0); mbsec(&m, 3, &s);
  gsec(n, t, how);
  char f[2]; s.n = 0; mbu(&s, 2 * n + 4);
  for (int i = 0; i < n; i++) { f[0] = 'f'; f[1] = '0' + i; ns(&s, f, 2); mb1(&s, 0); mbu(&s, 2 + i); f[0] = 'g'; ns(&s, f, 2); mb1(&s, 3); mbu(&s, 6 + i); }
  for (int i = 0; i < 4; i++) { f[0] = 'F'; f[1] = '0' + i; ns(&s, f, 2); mb1(&s, 0); mbu(&s, i < 2 ? i : i); }
  mbsec(&m, 7, &s);
  s.n = 0; mbu(&s, n + 2);
  for (int i = 0; i < n; i++) { mbu(&s, 4); mbu(&s, 0); mb1(&s, 0x23); mbu(&s, 6 + i); mb1(&s, 0x0b); }
  for (int i = 0; i < 2; i++) { mbu(&s, 2); mbu(&s, 0); mb1(&s, 0x0b); }
  mbsec(&m, 10, &s);
  pwart_module_state st = compile();
  for (int i = 0; i < n; i++) {
    char nm[3] = {'g', '0' + i, 0}; u64 want = gv[6 + i], got = 0;
    if (t[i] == FUNC && want) { char fn[3] = {'F', '0' + (want - FN), 0}; want = (u64)pwart_get_export_function(st, fn); sym_assert(want != 0, "an exported function is missing"); }
    void *g = pwart_get_export_global(st, nm); sym_assert(g != 0, "an exported global is missing");
    memcpy(&got, g, sz(t[i]));
    sym_assert(got == want, "a global's initial value is not what its initialiser defines");
    nm[0] = 'f'; fr[0] = 0; pwart_call_wasm_function(pwart_get_export_function(st, nm), fr); got = 0; memcpy(&got, fr, sz(t[i]));
    sym_assert(got == want, "global.get reads another value than the initialiser defines");
  }
  sym_reach("globals");
}
/* one expression tree per a, all three operators */
static void h_expr(long a) {
  int t[3] = {a & 1 ? I64 : I32, a & 1 ? I64 : I32, a & 1 ? I64 : I32}, how[3] = {1, 1, 1}; rnd = a * 104729 + 7; r(2);
  head(0, 0, 0, 0); gsec(3, t, how);
  s.n = 0; mbu(&s, 3); for (int i = 0; i < 3; i++) { char f[2] = {'g', '0' + i}; ns(&s, f, 2); mb1(&s, 3); mbu(&s, 6 + i); } mbsec(&m, 7, &s);
  pwart_module_state st = compile();
  for (int i = 0; i < 3; i++) { char nm[3] = {'g', '0' + i, 0}; u64 got = 0; memcpy(&got, pwart_get_export_global(st, nm), sz(t[0])); sym_assert(got == gv[6 + i], "a constant expression has another value than specified"); }
  sym_reach("expression");
}
/* n pending operands; more than the documented limit must be refused, not overflow */
static void h_deep(long a) {
  int n = a / 2 + 1, t = a & 1 ? I64 : I32; u64 v = 0, x = t == I32 ? in32("x", -1) : in64("x", -1);
  mbhdr(&m); s.n = 0; mbu(&s, 2); mb1(&s, t); mb1(&s, 0);
  for (int i = 0; i < n; i++) { if (i == n / 2) { konst(&s, t, x); v += x; } else { mb1(&s, t == I32 ? 0x41 : 0x42); mb1(&s, i & 63); v += i & 63; } }
  for (int i = 1; i < n; i++) mb1(&s, t == I32 ? 0x6a : 0x7c);
  mb1(&s, 0x0b); mb1(&s, I32); mb1(&s, 0); mb1(&s, 0x41); mb1(&s, 7); mb1(&s, 0x0b); mbsec(&m, 6, &s);
  s.n = 0; mbu(&s, 2); mbs(&s, "g"); mb1(&s, 3); mbu(&s, 0); mbs(&s, "h"); mb1(&s, 3); mbu(&s, 1); mbsec(&m, 7, &s);
  pwart_module_compiler c = pwart_new_module_compiler();
  char *err = pwart_compile(c, (char *)m.b, m.n);

  if (err == 0) {
    pwart_module_state st = pwart_get_module_state(c); u64 got = 0; memcpy(&got, pwart_get_export_global(st, "g"), sz(t));
    sym_assert(got == (t == I32 ? (u32)v : v), "a constant expression has another value than specified");
    sym_assert(*(u32 *)pwart_get_export_global(st, "h") == 7, "a constant expression has another value than specified");
    sym_reach("deep");
  } else { sym_assert(n > 32, "a valid module is rejected"); sym_reach("too deep: refused"); }
  pwart_free_module_compiler(c);
}
/* offset expressions: const, imported global, earlier own global, extended */
static u64 offexpr(struct mb *m, int t, int how, u64 off) {
  if (how == 0) konst(m, t, off);
  else if (how == 1) { int g = t == I32 ? 0 : 1; mb1(m, 0x23); mbu(m, g); off = hg[g]; }
  else if (how == 2) { mb1(m, 0x23); mbu(m, t == I32 ? 6 : 7); off = gv[t == I32 ? 6 : 7]; }
  else { int g = t == I32 ? 0 : 1; mb1(m, 0x23); mbu(m, g); konst(m, t, off); mb1(m, 0x6b + (t == I32 ? 0 : 0x12)); konst(m, t, 3); mb1(m, t == I32 ? 0x6a : 0x7c); off = hg[g] - off + 3; if (t == I32) off = (u32)off; }
  mb1(m, 0x0b); return off;
}
/* data segments into imported memories (SMT arrays): a = offset form x flag form x memory width x sizes */
static void h_data(long a) {
  int how = a % 4, form = a / 4 % 3, is64 = a / 12 % 2, shape = a / 24;
  static const u8 S[7][3] = {{4, 0, 0}, {1, 0, 0}, {3, 2, 0}, {2, 3, 4}, {0, 0, 0}, {9, 0, 0}, {5, 5, 5}};
  head(0, 0, 2, is64); int gtys[2] = {I32, I64}, gh[2] = {0, 0}; gsec(2, gtys, gh);
  u64 off[3]; int mi[3], n = 0; u8 by[3][16]; int t = is64 ? I64 : I32;
  static struct mb d; d.n = 0;
  int nseg = shape == 4 ? 2 : S[shape][2] ? 3 : S[shape][1] ? 2 : 1;
  mbu(&d, nseg);
  for (int k = 0; k < nseg; k++) {
    int f = form == 0 ? 0 : form == 1 ? 2 : 2 * (k & 1); mi[k] = 0;
    mbu(&d, f);
    if (f == 2) { u8 i = in_pick("mi", k, 2); mi[k] = i; if (shape & 1) { mb1(&d, i | 0x80); mb1(&d, 0x80); mb1(&d, 0); } else mb1(&d, i); }
    off[k] = offexpr(&d, t, k ? 0 : how, is64 ? in64("off", k) : in32("off", k));
    sym_assume(off[k] <= 65535ul * 65536 - 16);
    int l = S[shape][k]; mbu(&d, l); for (int i = 0; i < l; i++) { by[k][i] = in8("by", 16 * k + i); mb1(&d, by[k][i]); }
  }
  mbsec(&m, 11, &d);
  s.n = 0; mbu(&s, 0);
  u64 p = in64("p", -1); u8 w = in_pick("w", -1, 2); sym_assume(p < 65535ul * 65536);
  u8 *at = (u8 *)ABASE + ((u64)w << 34) + p, want = *at;
  compile();
  for (int k = 0; k < nseg; k++) for (int i = 0; i < S[shape][k]; i++) if (mi[k] == w) want ^= (want ^ by[k][i]) & -(u8)(p - off[k] == i);
  sym_assert(*at == want, "an active data segment wrote another byte than declared");
  sym_reach("data");
}
/* data segments into an own, zeroed memory: a = place */
static void h_owndata(long a) {
  static const u32 B[8] = {0, 4090, 65500, 65530, 65536, 131000, 131050, 131057}; int big = a / 8, n = big ? 300 : 8;
  u32 base = B[a % 8]; if (big && base > 130765) base = 130765;
  mbhdr(&m); s.n = 0; mbu(&s, 2); for (int i = 0; i < 2; i++) { mb1(&s, i); mbu(&s, 2); if (i) mbu(&s, 3); } mbsec(&m, 5, &s);
  s.n = 0; mbu(&s, 2); mbs(&s, "m"); mb1(&s, 2); mbu(&s, 0); mbs(&s, "n"); mb1(&s, 2); mbu(&s, 1); mbsec(&m, 7, &s);
  u32 o = in32("o", -1); sym_assume(o < 8); u8 mi = in_pick("mi", -1, 2);
  static struct mb d; d.n = 0; mbu(&d, 1); mbu(&d, 2); mb1(&d, mi); konst(&d, I32, base + o); mb1(&d, 0x0b); mbu(&d, n);
  for (int i = 0; i < n; i++) mb1(&d, i < 8 ? in8("by", i) : i * 7 + 1); mbsec(&m, 11, &d);
  pwart_module_state st = compile();
  struct pwart_wasm_memory *mm[2] = {pwart_get_export_memory(st, "m"), pwart_get_export_memory(st, "n")};
  sym_assert(mm[0]->pages == 2 && mm[1]->pages == 2 && mm[0]->bytes != mm[1]->bytes, "an own memory has another size than declared");
  u32 lo = base > 64 ? base - 64 : 0, hi = base + n + 64; if (hi > 131072) hi = 131072;
  for (u32 p = lo; p < hi; p++) for (int w = 0; w < 2; w++) {
    u32 i = p - base - o; u8 want = w == mi && i < n ? d.b[d.n - n + i] : 0;
    sym_assert(mm[w]->bytes[p] == want, "an own memory holds another byte than declared");
  }
  sym_assert(!mm[0]->bytes[131071] || hi == 131072, "an own memory holds another byte than declared");
  sym_reach("own data");
}
/* element segments: a = flags x table kind x offset form x number of entries */
static void h_elem(long a) {
  int flags = a % 8, own = a / 8 % 2, how = a / 16 % 4, n = a / 64 % 4, ext = a / 256;
  if (ext && !(flags & 4)) flags |= 4;
  if (ext && flags == 4) flags = 6;
  int nt = own ? 0 : 2; head(2, nt, 0, 0);
  s.n = 0; mbu(&s, 2); mbu(&s, 0); mbu(&s, 0); mbsec(&m, 3, &s);
  if (own) { s.n = 0; mbu(&s, 2); mb1(&s, FUNC); mb1(&s, 1); mbu(&s, 8); mbu(&s, 9); mb1(&s, EXT); mb1(&s, 0); mbu(&s, 8); mbsec(&m, 4, &s); }
  int gtys[2] = {I32, I64}, gh[2] = {0, 0}; gsec(2, gtys, gh);
  s.n = 0; mbu(&s, own ? 6 : 4); for (int i = 0; i < 4; i++) { char f[2] = {'F', '0' + i}; ns(&s, f, 2); mb1(&s, 0); mbu(&s, i); }
  if (own) { mbs(&s, "t"); mb1(&s, 1); mbu(&s, 0); mbs(&s, "u"); mb1(&s, 1); mbu(&s, 1); } mbsec(&m, 7, &s);
  u64 old[2][8]; for (int w = 0; w < 2; w++) for (int i = 0; i < 8; i++) { old[w][i] = own ? 0 : 0x7700000000ul + 16 * i + w; hte[w][i] = (void *)old[w][i]; }
  u64 off = 0; u8 ix[4], nul[4] = {0, 0, 0, 0}; static struct mb d; d.n = 0; mbu(&d, 2);
  for (int seg = 0; seg < 2; seg++) {            /* the second one: a plain active segment at 7 */
    if (seg) { if (ext) { mbu(&d, 6); mbu(&d, 1); konst(&d, I32, 7); mb1(&d, 0x0b); mb1(&d, EXT); mbu(&d, 1); mb1(&d, 0xd0); mb1(&d, 0x6f); mb1(&d, 0x0b); } else { mbu(&d, 0); konst(&d, I32, 7); mb1(&d, 0x0b); mbu(&d, 1); mbu(&d, 3); } break; }
    mbu(&d, flags);
    if (!(flags & 1)) {
      if (flags & 2) { if (how == 3) { mb1(&d, 0x80 | ext); mb1(&d, 0); } else mbu(&d, ext); }
      off = offexpr(&d, I32, how, in32("off", 0)); sym_assume(off <= 7 - n);
    }
    if (flags & 3) mb1(&d, flags & 4 ? (ext ? EXT : FUNC) : 0);
    mbu(&d, n);
    for (int i = 0; i < n; i++) {
      ix[i] = in8("ix", i); sym_assume(ix[i] < 4);
      if (!(flags & 4)) mb1(&d, ix[i]);
      else if (ext) { nul[i] = i == 1; if (nul[i]) { mb1(&d, 0xd0); mb1(&d, EXT); } else { mb1(&d, 0x23); mbu(&d, 5); } mb1(&d, 0x0b); }
      else { nul[i] = i == 1; if (nul[i]) { mb1(&d, 0xd0); mb1(&d, FUNC); } else { mb1(&d, 0xd2); mb1(&d, ix[i]); } mb1(&d, 0x0b); }
    }
  }
  mbsec(&m, 9, &d);
  s.n = 0; mbu(&s, 2); for (int i = 0; i < 2; i++) { mbu(&s, 2); mbu(&s, 0); mb1(&s, 0x0b); } mbsec(&m, 10, &s);
  pwart_module_state st = compile();
  void *F[4]; for (int i = 0; i < 4; i++) { char f[3] = {'F', '0' + i, 0}; F[i] = pwart_get_export_function(st, f); sym_assert(F[i] != 0, "an exported function is missing"); }
  sym_assert(F[0] == hf[0] && F[1] == hf[1] && F[2] != F[3], "an exported function is another");
  for (int w = 0; w < 2; w++) {
    void **e = own ? pwart_get_export_table(st, w ? "u" : "t")->entries : hte[w];
    for (int p = 0; p < 8; p++) {
      u64 want = old[w][p];
      if (!(flags & 1) && w == ext) for (int i = 0; i < n; i++) if (p == off + i) want = nul[i] ? 0 : ext ? hg[5] : (u64)F[ix[i]];
      if (w == ext && p == 7) want = ext ? 0 : (u64)F[3];
      sym_assert((u64)e[p] == want, "a table holds another reference than the segments declare");
    }
  }
  sym_reach(flags & 1 ? "passive or declarative element segment" : "active element segment");
}
struct xh harnesses[] = {{"global", h_global, 216}, {"expr", h_expr, 120}, {"deep", h_deep, 80}, {"data", h_data, 168}, {"owndata", h_owndata, 16}, {"elem", h_elem, 512}, {0}};
