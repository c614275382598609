/* C12: LEB128 immediates and float constants decode to the encoded value. */
#include "hlib.h"
#include <pwart.h>
#include <sys/mman.h>
#define ABASE 0x600000000000ul        /* bytes of the imported memories: an SMT array of 2^33 bytes */
static struct pwart_wasm_memory amem[2];
static u32 gl[4];
static void *tab_e[4][4]; static struct pwart_wasm_table tab[4];
void h_setup(void) {
  for (int i = 0; i < 2; i++) {
    amem[i].initial = amem[i].pages = amem[i].maximum = 65535; amem[i].bytes = (u8 *)ABASE + ((u64)i << 33); amem[i].fixed = 1;
    mmap((void *)(ABASE + ((u64)i << 33)), 1ul << 33, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  }
  for (int i = 0; i < 4; i++) { tab[i].elem_type = 0x6f; tab[i].initial = tab[i].maximum = tab[i].size = 4; tab[i].entries = tab_e[i]; }
}
#define MANY 70
static struct pwart_wasm_memory xm[MANY]; static u8 xmb[MANY][64]; static int many;
static struct pwart_wasm_table xt[MANY]; static void *xte[MANY][4];
static void rsv(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) {
  int k = q->import_field[0] - '0';
  if (many) { q->result = q->kind == 2 ? (void *)&xm[k] : q->kind == 1 ? (void *)&xt[k] : 0; return; }
  switch (q->kind) { case 2: q->result = &amem[k]; break; case 3: q->result = &gl[k]; break; case 1: q->result = &tab[k]; break; default: q->result = 0; }
}
static struct pwart_symbol_resolver resolver = {rsv};
/* an encoded number of `len` bytes appended to m: any valid encoding of that length */
static int len_of(const char *nm, long k, int bits) { return 1 + in_pick(x_nm(nm, k), 0, (bits + 6) / 7); }
static u64 leb(struct mb *m, const char *nm, int len, int bits, int sign) {
  u8 *b = m->b + m->n; u64 v = 0;
  char n2[32]; strcpy(n2, nm);
  if (len == 1) sym_bytes(b, 1, n2); else for (int i = 0; i < len; i++) b[i] = in8(n2, i);
  for (int i = 0; i < len; i++) { sym_assume((b[i] >> 7) == (i < len - 1)); v |= (u64)(b[i] & 0x7f) << 7 * i; }
  if (len == (bits + 6) / 7) {
    int used = bits - 7 * (len - 1); u8 top = b[len - 1] >> used;      /* bits 7 down to `used` */
    u8 all = 0x7f >> used;
    if (sign) sym_assume((top == 0 & (b[len - 1] >> (used - 1) & 1) == 0) | (top == all & (b[len - 1] >> (used - 1) & 1) == 1));
    else sym_assume(top == 0);
  }
  if (sign && 7 * len < 64 && 1) v = (u64)((s64)(v << (64 - 7 * len)) >> (64 - 7 * len));
  if (bits == 32) v = (u32)v;
  m->n += len;
  return v;
}
static struct mb m, s, body;
static pwart_module_state compile(void) {
  pwart_module_compiler c = pwart_new_module_compiler();
  pwart_set_symbol_resolver(c, &resolver);
  char *err = pwart_compile(c, (char *)m.b, m.n);
  sym_assert(err == 0, "a valid module is rejected");
  pwart_module_state st = pwart_get_module_state(c);
  pwart_free_module_compiler(c);
  return st;
}
static void ty(int np, const char *p, int nr, const char *r) { mb1(&s, 0x60); mbu(&s, np); for (int i = 0; i < np; i++) mb1(&s, p[i]); mbu(&s, nr); for (int i = 0; i < nr; i++) mb1(&s, r[i]); }
static void sec0(int id) { s.n = 0; }
/* header, imports (memories 0,1; globals 0..3; tables 0..3), one function type */
static void head(int np, const char *p, int nr, const char *r, int nmem, int is64, int nglob, int ntab) {
  mbhdr(&m);
  s.n = 0; mbu(&s, 2); ty(np, p, nr, r); ty(0, 0, 1, "\x7f"); mbsec(&m, 1, &s);
  s.n = 0; mbu(&s, nmem + nglob + ntab);
  char f[2] = {0, 0};
  for (int i = 0; i < nmem; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 2); mb1(&s, is64 ? 5 : 1); mbu(&s, 1); mbu(&s, 65535); }
  for (int i = 0; i < nglob; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 3); mb1(&s, 0x7f); mb1(&s, 1); }
  for (int i = 0; i < ntab; i++) { f[0] = '0' + i; mbs(&s, "e"); mbs(&s, f); mb1(&s, 1); mb1(&s, 0x6f); mb1(&s, 1); mbu(&s, 4); mbu(&s, 4); }
  mbsec(&m, 2, &s);
}
/* function 0 with `body`, exported as "f"; further functions return 100+k */
static void finish(int extra) {
  s.n = 0; mbu(&s, 1 + extra); mbu(&s, 0); for (int i = 0; i < extra; i++) mbu(&s, 1); mbsec(&m, 3, &s);
  if (extra) { s.n = 0; mbu(&s, 2); mb1(&s, 0x70); mb1(&s, 1); mbu(&s, 8); mbu(&s, 8); mb1(&s, 0x70); mb1(&s, 1); mbu(&s, 8); mbu(&s, 8); mbsec(&m, 4, &s); }
  s.n = 0; mbu(&s, 1); mbs(&s, "f"); mb1(&s, 0); mbu(&s, 0); mbsec(&m, 7, &s);
  if (extra) {
    s.n = 0; mbu(&s, 2); mbu(&s, 0); mb1(&s, 0x41); mbu(&s, 0); mb1(&s, 0x0b); mbu(&s, extra); for (int i = 0; i < extra; i++) mbu(&s, 1 + i);
    mbu(&s, 2); mbu(&s, 1); mb1(&s, 0x41); mbu(&s, 0); mb1(&s, 0x0b); mb1(&s, 0); mbu(&s, extra); for (int i = 0; i < extra; i++) mbu(&s, extra - i);
    mbsec(&m, 9, &s);
  }
  s.n = 0; mbu(&s, 1 + extra); mbu(&s, body.n + 2); mbu(&s, 0); mbcat(&s, &body); mb1(&s, 0x0b);
  for (int i = 0; i < extra; i++) { mbu(&s, 5); mbu(&s, 0); mb1(&s, 0x41); mb1(&s, 0x80 | (100 + i)); mb1(&s, 0); mb1(&s, 0x0b); }
  mbsec(&m, 10, &s);
}
static u64 fr[32];
static void *run(void) {
  pwart_module_state st = compile();
  pwart_wasm_function f = pwart_get_export_function(st, "f");
  sym_assert(f != 0, "the exported function is missing");
  pwart_call_wasm_function(f, fr);
  return st;
}
/* --- constants in global initialisers */
static void glob(long a, int bits) {
  mbhdr(&m); s.n = 0;
  mbu(&s, 2); mb1(&s, bits == 32 ? 0x7f : 0x7e); mb1(&s, 0); mb1(&s, bits == 32 ? 0x41 : 0x42);
  u64 v = leb(&s, "b", a + 1, bits, 1); mb1(&s, 0x0b);
  mb1(&s, 0x7f); mb1(&s, 0); mb1(&s, 0x41); mb1(&s, 55); mb1(&s, 0x0b); mbsec(&m, 6, &s);
  s.n = 0; mbu(&s, 2); mbs(&s, "a"); mb1(&s, 3); mbu(&s, 0); mbs(&s, "b"); mb1(&s, 3); mbu(&s, 1); mbsec(&m, 7, &s);
  pwart_module_state st = compile();
  u64 g = 0; memcpy(&g, pwart_get_export_global(st, "a"), bits / 8);
  sym_assert(g == v, "a constant of a global initialiser is not the encoded number");
  sym_assert(*(u32 *)pwart_get_export_global(st, "b") == 55, "what follows a constant is read from the wrong place");
  sym_reach("global const");
}
static void h_glob32(long a) { glob(a, 32); }
static void h_glob64(long a) { glob(a, 64); }
static void h_globf(long a) {
  mbhdr(&m); s.n = 0; u64 v = 0; int n = a ? 8 : 4;
  mbu(&s, 2); mb1(&s, a ? 0x7c : 0x7d); mb1(&s, 0); mb1(&s, a ? 0x44 : 0x43);
  sym_bytes(&v, n, "v"); memcpy(s.b + s.n, &v, n); s.n += n; mb1(&s, 0x0b);
  mb1(&s, 0x7f); mb1(&s, 0); mb1(&s, 0x41); mb1(&s, 55); mb1(&s, 0x0b); mbsec(&m, 6, &s);
  s.n = 0; mbu(&s, 2); mbs(&s, "a"); mb1(&s, 3); mbu(&s, 0); mbs(&s, "b"); mb1(&s, 3); mbu(&s, 1); mbsec(&m, 7, &s);
  pwart_module_state st = compile();
  u64 g = 0; memcpy(&g, pwart_get_export_global(st, "a"), n);
  sym_assert(g == v, "a float constant of a global initialiser is not the encoded bits");
  sym_assert(*(u32 *)pwart_get_export_global(st, "b") == 55, "what follows a constant is read from the wrong place");
  sym_reach("global float");
}
/* --- constants in code: returned, and as an operand */
static void code(long a, int bits) {
  head(1, bits == 32 ? "\x7f" : "\x7e", 2, bits == 32 ? "\x7f\x7f" : "\x7e\x7e", 0, 0, 0, 0);
  body.n = 0; mb1(&body, bits == 32 ? 0x41 : 0x42);
  u64 v = leb(&body, "b", a + 1, bits, 1);
  mb1(&body, 0x20); mb1(&body, 0); mb1(&body, bits == 32 ? 0x41 : 0x42); int at = body.n; body.n = at;
  for (int i = 0; i <= a; i++) body.b[body.n + i] = body.b[1 + i];
  body.n += a + 1; mb1(&body, bits == 32 ? 0x73 : 0x85);
  finish(0);
  u64 x = in64("x", -1); if (bits == 32) x = (u32)x;
  memcpy(fr, &x, bits / 8);
  run();
  u64 g = 0, h = 0; memcpy(&g, fr, bits / 8); memcpy(&h, (u8 *)fr + bits / 8, bits / 8);
  sym_assert(g == v, "a constant in code is not the encoded number");
  sym_assert(h == (v ^ x), "a constant operand in code is not the encoded number");
  sym_reach("code const");
}
static void h_code32(long a) { code(a, 32); }
static void h_code64(long a) { code(a, 64); }
static void h_codef(long a) {
  int n = a ? 8 : 4; u64 v = 0;
  head(0, 0, 1, a ? "\x7c" : "\x7d", 0, 0, 0, 0);
  body.n = 0; mb1(&body, a ? 0x44 : 0x43); sym_bytes(&v, n, "v"); memcpy(body.b + body.n, &v, n); body.n += n;
  finish(0); run();
  u64 g = 0; memcpy(&g, fr, n);
  sym_assert(g == v, "a float constant in code is not the encoded bits");
  sym_reach("code float");
}
/* --- indices */
#define I5 "\x7f\x7f\x7f\x7f\x7f"
static u64 idx(const char *nm, int len, u64 lim) { u64 v = leb(&body, nm, len, 32, 0); sym_assume(v < lim); return v; }
static void h_local(long a) {               /* local.get / set / tee */
  u64 p[5]; int len = a % 5 + 1, k = a / 5;
  head(5, I5, 5, I5, 0, 0, 0, 0);
  for (int i = 0; i < 5; i++) { p[i] = in32("p", i); ((u32 *)fr)[i] = p[i]; }
  body.n = 0; u64 v;
  if (k == 0) { mb1(&body, 0x20); v = idx("i", len, 5); mb1(&body, 0x21); mb1(&body, 0); p[0] = p[v]; }
  else { mb1(&body, 0x41); mb1(&body, 33); mb1(&body, k == 1 ? 0x21 : 0x22); v = idx("i", len, 5); if (k == 2) mb1(&body, 0x1a); }
  for (int i = 0; i < 5; i++) { mb1(&body, 0x20); mb1(&body, i); }
  finish(0); run();
  for (int i = 0; i < 5; i++) sym_assert(((u32 *)fr)[i] == (k && i == v ? 33 : p[i]), "a local index is not the encoded number");
  sym_reach("local index");
}
static void h_global(long a) {
  int len = a % 5 + 1, k = a / 5; u64 p[4];
  head(0, 0, 1, "\x7f", 0, 0, 4, 0);
  for (int i = 0; i < 4; i++) p[i] = gl[i] = in32("g", i);
  body.n = 0; u64 v;
  if (k) { mb1(&body, 0x41); mb1(&body, 33); mb1(&body, 0x24); v = idx("i", len, 4); p[v] = 33; mb1(&body, 0x23); mb1(&body, 2); }
  else { mb1(&body, 0x23); v = idx("i", len, 4); }
  finish(0); run();
  for (int i = 0; i < 4; i++) sym_assert(gl[i] == p[i], "a global index is not the encoded number");
  sym_assert(*(u32 *)fr == p[k ? 2 : v], "a global index is not the encoded number");
  sym_reach("global index");
}
static void h_br(long a) {                  /* br, br_if, br_table: depth */
  int len = a % 5 + 1, k = a / 5; u64 v, v2 = 0;
  head(1, "\x7f", 1, "\x7f", 0, 0, 0, 0);
  body.n = 0;
  for (int i = 0; i < 3; i++) { mb1(&body, 0x02); mb1(&body, 0x40); }
  if (k == 0) { mb1(&body, 0x0c); v = idx("i", len, 3); }
  else if (k == 1) { mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0x0d); v = idx("i", len, 3); }
  else { mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x0e); v2 = idx("n", len, 3); sym_assume(v2 == 1); v2 = idx("i", len, 3); v = idx("j", len, 3); }
  for (int i = 0; i < 3; i++) { mb1(&body, 0x0b); if (i < 2) { mb1(&body, 0x41); mb1(&body, 40 + i); mb1(&body, 0x0f); } }
  mb1(&body, 0x41); mb1(&body, 42);
  finish(0);
  u32 p = in32("p", -1); *(u32 *)fr = p;
  run();
  u64 d = k == 2 && p == 0 ? v2 : v;
  sym_assert(*(u32 *)fr == 40 + d, "a branch depth is not the encoded number");
  sym_reach("branch depth");
}
static void h_call(long a) {                /* call, call_indirect type and table, ref.func */
  int len = a % 5 + 1, k = a / 5; u64 v, want;
  head(0, 0, 1, "\x7f", 0, 0, 0, 0);
  body.n = 0;
  if (k == 0) { mb1(&body, 0x10); v = idx("i", len, 5); sym_assume(v > 0); want = 99 + v; }
  else if (k == 1) { mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0x11); u64 t = idx("t", len, 2); v = idx("i", len, 2); want = v ? 102 : 101; }
  else if (k == 2) { mb1(&body, 0x41); mb1(&body, 0); mb1(&body, 0xd2); v = idx("i", len, 5); sym_assume(v > 0); mb1(&body, 0x26); mbu(&body, 0); mb1(&body, 0x41); mb1(&body, 0); mb1(&body, 0x11); mbu(&body, 1); mbu(&body, 0); want = 99 + v; }
  else { mb1(&body, 0x12); v = idx("i", len, 5); sym_assume(v > 0); want = 99 + v; }
  finish(4); run();
  sym_assert(*(u32 *)fr == want, "a function, type or table index is not the encoded number");
  sym_reach("function index");
}
/* --- memarg: alignment, offset, memory index */
static void h_memarg(long a) {
  int is64 = a >= 40, len = (a % 40) % 10 + 1, k = (a % 40) / 10; u64 off, x = is64 ? in64("x", -1) : in32("x", -1);
  if (!is64 && len > 5) return;
  head(1, is64 ? "\x7e" : "\x7f", 1, "\x7f", 2, is64, 0, 0);
  body.n = 0; int mi = 0;
  mb1(&body, 0x20); mb1(&body, 0);
  if (k & 1) { mb1(&body, 0x41); mb1(&body, 33); mb1(&body, 0x3a); } else mb1(&body, 0x2d);
  if (k & 2) { mb1(&body, 0x40); mi = in_pick("mi", -1, 2); int l2 = 1 + in_pick("ml", -1, 5); for (int i = 0; i < l2; i++) mb1(&body, (i ? 0 : mi) | (i < l2 - 1 ? 0x80 : 0)); }
  else { int l2 = 1 + in_pick("al", -1, 5); for (int i = 0; i < l2; i++) mb1(&body, i < l2 - 1 ? 0x80 : 0); }
  off = leb(&body, "o", len, is64 ? 64 : 32, 0);
  sym_assume(off < (1ul << 32) & x < (1ul << 32));
  sym_assume(x < 0x80000000u);
  if (k & 1) { mb1(&body, 0x41); mb1(&body, 0); }
  finish(0);
  memcpy(fr, &x, is64 ? 8 : 4);
  u8 *at = (u8 *)ABASE + ((u64)mi << 33) + off + x; u8 was = *at;
  run();
  if (k & 1) sym_assert(*at == 33, "a store offset is not the encoded number");
  else sym_assert(*(u32 *)fr == was, "a load offset is not the encoded number");
  sym_reach("memarg");
}
static void h_memidx(long a) {              /* memory.size, fill, copy with padded memory index and padded sub-opcode */
  int len = a % 5 + 1, k = a / 5; u64 v, w = 0;
  if (k == 4 && len > 5) return;
  head(0, 0, 1, "\x7f", 2, 0, 0, 0);
  for (int i = 0; i < 2; i++) { amem[i].bytes[5] = 1 + i; amem[i].bytes[9] = 11 + i; amem[i].pages = 65530 + i; }
  body.n = 0;
  if (k == 0) { mb1(&body, 0x3f); v = idx("i", len, 2); }
  else if (k == 1) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x41); mb1(&body, 33); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 11); v = idx("i", len, 2); mb1(&body, 0x41); mb1(&body, 0); }
  else if (k == 2) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x41); mb1(&body, 9); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 10); v = idx("i", len, 2); w = idx("j", len, 2); mb1(&body, 0x41); mb1(&body, 0); }
  else if (k == 3) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x41); mb1(&body, 33); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); v = idx("c", len, 12); sym_assume(v == 11); v = 0; mb1(&body, 0); mb1(&body, 0x41); mb1(&body, 0); }
  else { mb1(&body, 0x43); u32 one = 0x42280000; memcpy(body.b + body.n, &one, 4); body.n += 4; mb1(&body, 0xfc); v = idx("c", len, 8); sym_assume(v < 2); }
  finish(0); run();
  if (k == 0) sym_assert(*(u32 *)fr == 65530 + v, "a memory index is not the encoded number");
  if (k == 4) sym_assert(*(u32 *)fr == 42, "a sub-opcode is not the encoded number");
  for (int i = 0; i < 2; i++) {
    u8 e = 1 + i; if ((k == 1 || k == 3) && i == v) e = 33; if (k == 2 && i == v) e = 11 + w;
    sym_assert(amem[i].bytes[5] == e, "a memory index or sub-opcode is not the encoded number");
  }
  sym_reach("memory index");
}
static void h_table(long a) {               /* table.get, set, size, fill, copy; ref.null type */
  int len = a % 5 + 1, k = a / 5; u64 v, w = 0;
  head(1, "\x6f", 1, "\x6f", 0, 0, 0, 4);
  for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) tab_e[i][j] = (void *)(0x1000ul + 16 * i + j); }
  u64 x = in64("x", -1); fr[0] = x;
  body.n = 0;
  if (k == 0) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x25); v = idx("i", len, 4); }
  else if (k == 1) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x26); v = idx("i", len, 4); mb1(&body, 0x20); mb1(&body, 0); }
  else if (k == 2) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 0x11); v = idx("i", len, 4); mb1(&body, 0x20); mb1(&body, 0); }
  else { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 0x0e); v = idx("i", len, 4); w = idx("j", len, 4); mb1(&body, 0x20); mb1(&body, 0); }
  finish(0); run();
  sym_assert(fr[0] == (k ? x : 0x1002 + 16 * v), "a table index is not the encoded number");
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    u64 e = 0x1000ul + 16 * i + j;
    if (i == v && j == 2) { if (k == 1 || k == 2) e = x; if (k == 3) e = 0x1001 + 16 * w; }
    sym_assert((u64)tab_e[i][j] == e, "a table index is not the encoded number");
  }
  sym_reach("table index");
}
/* --- the same immediates in code that is never reached: it is skipped exactly */
static const char *DEAD[] = {"\x41s", "\x42S", "\x43" "4", "\x44" "8", "\x0c" "2", "\x0d" "2", "\x0e" "b", "\x10" "5", "\x11tt", "\x12" "5", "\x20" "1", "\x21" "1", "\x22" "1",
  "\x23L", "\x24L", "\x25t", "\x26t", "\x28m", "\x37m", "\x3am", "\x3f" "2", "\x40" "2", "\xd0r", "\xd2" "5", "\xfc\x0a" "22", "\xfc\x0b" "2", "\xfc\x0etT", "\xfc\x10t", "\xfc\x11t", "\xfcZ", "\x02v",
  "\x03v", "\x04v", "\x02Z\x0b", "\x1cV", "\x04\x40\x41s\x1a\x05\x42S\x1a\x0b"};
#define NDEAD (sizeof DEAD / sizeof *DEAD)
static int has(const char *s, char c) { for (; *s; s++) if (*s == c) return 1; return 0; }
static u64 immed(const char *nm, char k, int len) {
  switch (k) {
  case 's': return leb(&body, nm, len > 5 ? 5 : len, 32, 1);
  case 'S': return leb(&body, nm, len, 64, 1);
  case '4': case '8': sym_bytes(body.b + body.n, k - '0', (char *)nm); body.n += k - '0'; return 0;
  case 't': case '2': case 'T': return idx(nm, len > 5 ? 5 : len, 2);
  case '5': return idx(nm, len > 5 ? 5 : len, 5);
  case 'L': return idx(nm, len > 5 ? 5 : len, 4);
  case '1': return idx(nm, len > 5 ? 5 : len, 1);
  default: mb1(&body, k); return k;
  }
}
static void h_dead(long a) {
  const char *d = DEAD[a / 10]; int len = a % 10 + 1, i = 0;
  head(1, "\x7f", 1, "\x7f", 2, 0, 4, 2);
  u32 x = in32("x", -1); *(u32 *)fr = x;
  body.n = 0; mb1(&body, 0x02); mb1(&body, 0x40); mb1(&body, 0x0c); mb1(&body, 0);
  mb1(&body, d[0] & 255); i = 1;
  if ((d[0] & 255) == 0xfc && d[1] < 0x20) { mb1(&body, d[1]); i = 2; }
  int n = 0, open = 0;
  for (; d[i]; i++) {
    char nm[4] = {'q', '0' + n++, 0, 0};
    if (d[i] == 'b') { int c = 2; mb1(&body, 0x82); for (int j = 1; j < (len > 5 ? 5 : len) - 1; j++) mb1(&body, 0x80); mb1(&body, 0); if (len == 1) { body.n -= 2; mb1(&body, 2); }
      immed("u0", '2', len); immed("u1", '2', len); immed("u2", '2', len); }
    else if (d[i] == 'm') { u64 al = leb(&body, "al", len > 5 ? 5 : len, 32, 0); sym_assume((al & ~0x40ul) < 4); if (sym_pick(al & 0x40)) immed("mi", '2', len); leb(&body, "of", len > 5 ? 5 : len, 32, 0); }
    else if (d[i] == 'r') mb1(&body, 0x6f);
    else if (d[i] == 'v') { mb1(&body, 0x7f); mb1(&body, 0x41); immed("v", 's', len); if ((d[0] & 255) == 4) { mb1(&body, 0x05); mb1(&body, 0x41); immed("w", 's', len); } mb1(&body, 0x0b); }
    else if (d[i] == 'Z') { if ((d[0] & 255) == 0xfc) { u64 c = leb(&body, "z", len > 5 ? 5 : len, 32, 0); sym_assume(c < 8); } else mb1(&body, 0x40); }
    else if (d[i] == 'V') { mb1(&body, 0x81); for (int j = 1; j < (len > 5 ? 5 : len) - 1; j++) mb1(&body, 0x80); mb1(&body, 0); if (len == 1) { body.n -= 2; mb1(&body, 1); } mb1(&body, 0x7f); }
    else if (has("sS4825t1TL", d[i])) immed(nm, d[i], len);
    else mb1(&body, d[i]);
  }
  mb1(&body, 0x0b); mb1(&body, 0x20); mb1(&body, 0);
  finish(4); run();
  sym_assert(*(u32 *)fr == x, "unreachable code changes the result");
  sym_reach("unreachable code");
}
/* --- more than 64 memories or tables: indices whose one-byte encoding has bit 6 set */
static void h_many(long a) {
  int k = a % 8, len = a / 8 + 1, mem = k < 4; u64 v, w = 0;
  many = 1;
  for (int i = 0; i < MANY; i++) {
    xm[i].initial = xm[i].maximum = 1; xm[i].pages = 1 + i; xm[i].bytes = xmb[i]; xm[i].fixed = 1; xmb[i][5] = i; xmb[i][9] = 100 + i;
    xt[i].elem_type = 0x6f; xt[i].initial = xt[i].maximum = xt[i].size = 4; xt[i].entries = xte[i]; xte[i][2] = (void *)(0x1002ul + 16 * i); xte[i][1] = (void *)(0x1001ul + 16 * i);
  }
  head(1, "\x6f", 1, mem ? "\x7f" : "\x6f", mem ? MANY : 0, 0, 0, mem ? 0 : MANY);
  void *x = (void *)in64("x", -1); fr[0] = (u64)x;
  body.n = 0;
#define IDX(n) (idx(n, len, MANY))
  if (k == 0) { mb1(&body, 0x3f); v = IDX("i"); }
  else if (k == 1) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x41); mb1(&body, 33); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 11); v = IDX("i"); mb1(&body, 0x41); mb1(&body, 0); }
  else if (k == 2) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x41); mb1(&body, 9); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 10); v = IDX("i"); w = IDX("j"); mb1(&body, 0x41); mb1(&body, 0); }
  else if (k == 3) { mb1(&body, 0x41); mb1(&body, 5); mb1(&body, 0x2d); mb1(&body, 0x40); v = IDX("i"); mb1(&body, 0); }
  else if (k == 4) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x25); v = IDX("i"); }
  else if (k == 5) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x26); v = IDX("i"); mb1(&body, 0x20); mb1(&body, 0); }
  else if (k == 6) { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 0x11); v = IDX("i"); mb1(&body, 0x20); mb1(&body, 0); }
  else { mb1(&body, 0x41); mb1(&body, 2); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0x41); mb1(&body, 1); mb1(&body, 0xfc); mb1(&body, 0x0e); v = IDX("i"); w = IDX("j"); mb1(&body, 0x20); mb1(&body, 0); }
  sym_assume((v == 0) | (v == 63) | (v == 64) | (v == 69)); sym_assume((w == 0) | (w == 64));
  finish(0); run();
  if (k == 0) sym_assert(*(u32 *)fr == 1 + v, "a memory index is not the encoded number");
  if (k == 3) sym_assert(*(u32 *)fr == v, "a memory index is not the encoded number");
  if (!mem) sym_assert((void *)fr[0] == (k == 4 ? (void *)(0x1002ul + 16 * v) : x), "a table index is not the encoded number");
  for (int i = 0; i < MANY; i++) {
    u8 e = i; if (i == v) { if (k == 1) e = 33; if (k == 2) e = 100 + w; }
    sym_assert(xmb[i][5] == e, "a memory index is not the encoded number");
    void *t = (void *)(0x1002ul + 16 * i); if (i == v) { if (k == 5 || k == 6) t = x; if (k == 7) t = (void *)(0x1001ul + 16 * w); }
    sym_assert(xte[i][2] == t, "a table index is not the encoded number");
  }
  sym_reach("many indices");
}
/* --- structure: every count, size and index of the sections, padded */
static int pn, pat, plen;
static void pu(struct mb *b, u64 v) {       /* the pat-th number of the module has plen bytes */
  if (pn++ == pat) {
    u64 got = leb(b, "n", plen, 32, 0); sym_assume(got == v); sym_reach("padded number");
  } else mbu(b, v);
}
static void psec(int id, int at) { mb1(&m, id); if (at < 0) mbu(&m, s.n); else pu(&m, s.n); mbcat(&m, &s); }
#define NNUM 52
static void h_structure(long a) {
  pat = a % NNUM; plen = a / NNUM + 2; pn = 0;
  mbhdr(&m);
  s.n = 0; pu(&s, 1); mb1(&s, 'c'); mb1(&s, 1); mb1(&s, 2); psec(0, 0);
  s.n = 0; pu(&s, 2); mb1(&s, 0x60); pu(&s, 1); mb1(&s, 0x7f); pu(&s, 1); mb1(&s, 0x7f); mb1(&s, 0x60); pu(&s, 0); pu(&s, 1); mb1(&s, 0x7e); psec(1, 0);
  s.n = 0; pu(&s, 2); pu(&s, 1); mb1(&s, 'e'); pu(&s, 1); mb1(&s, '2'); mb1(&s, 3); mb1(&s, 0x7f); mb1(&s, 1);
  mbs(&s, "e"); mbs(&s, "3"); mb1(&s, 1); mb1(&s, 0x6f); pu(&s, 1); pu(&s, 2); pu(&s, 4); psec(2, 0);
  s.n = 0; pu(&s, 2); pu(&s, 0); pu(&s, 1); psec(3, 0);
  s.n = 0; pu(&s, 1); mb1(&s, 0x70); mb1(&s, 0); pu(&s, 3); psec(4, 0);
  s.n = 0; pu(&s, 1); pu(&s, 1); pu(&s, 1); pu(&s, 2); psec(5, 0);
  s.n = 0; pu(&s, 1); mb1(&s, 0x7f); mb1(&s, 0); mb1(&s, 0x23); pu(&s, 0); mb1(&s, 0x0b); psec(6, 0);
  s.n = 0; pu(&s, 3); mbs(&s, "f"); mb1(&s, 0); pu(&s, 0); pu(&s, 1); mb1(&s, 'g'); mb1(&s, 3); pu(&s, 1); mbs(&s, "h"); mb1(&s, 0); mbu(&s, 1); psec(7, 0);
  s.n = 0; pu(&s, 1); psec(8, 0);
  s.n = 0; pu(&s, 1); pu(&s, 2); pu(&s, 1); mb1(&s, 0x41); mb1(&s, 1); mb1(&s, 0x0b); mb1(&s, 0); pu(&s, 1); pu(&s, 1); psec(9, 0);
  s.n = 0; pu(&s, 2);
  body.n = 0; pu(&body, 1); pu(&body, 2); mb1(&body, 0x7f); mb1(&body, 0x20); mb1(&body, 0); mb1(&body, 0x21); mb1(&body, 2); mb1(&body, 0x20); mb1(&body, 2); mb1(&body, 0x0b); pu(&s, body.n); mbcat(&s, &body);
  body.n = 0; mbu(&body, 0); mb1(&body, 0x42); mb1(&body, 44); mb1(&body, 0x0b); mbu(&s, body.n); mbcat(&s, &body);
  psec(10, 0);
  s.n = 0; pu(&s, 1); pu(&s, 0); mb1(&s, 0x41); mb1(&s, 7); mb1(&s, 0x0b); pu(&s, 3); mb1(&s, 'x'); mb1(&s, 'y'); mb1(&s, 'z'); psec(11, 0);
  sym_assert(pn == NNUM, "harness: number of numbers");
  u32 x = in32("x", -1), y = in32("y", -1); gl[2] = x;
  pwart_module_state st = compile();
  pwart_wasm_function f = pwart_get_export_function(st, "f"), h = pwart_get_export_function(st, "h");
  sym_assert(f && h && f != h, "an exported function is missing");
  *(u32 *)fr = y; pwart_call_wasm_function(f, fr); sym_assert(*(u32 *)fr == y, "function f is wrong");
  pwart_call_wasm_function(h, fr); sym_assert(fr[0] == 44, "function h is wrong");
  u32 *g = pwart_get_export_global(st, "g"); sym_assert(g && *g == x, "global g is wrong");
  sym_assert(pwart_get_start_function(st) == h, "the start function is not the declared one");
  struct pwart_inspect_result1 r; memset(&r, 0, sizeof r); pwart_inspect_module_state(st, &r);
  sym_assert(r.memory_size == 65536 && !memcmp((u8 *)r.memory + 6, "\0xyz", 5), "memory or data segment is wrong");
  sym_assert(r.table_entries_count == 4, "imported table is wrong");
  sym_reach("structure");
}
struct xh harnesses[] = {{"glob32", h_glob32, 5}, {"glob64", h_glob64, 10}, {"globf", h_globf, 2}, {"code32", h_code32, 5}, {"code64", h_code64, 10},
  {"codef", h_codef, 2}, {"local", h_local, 15}, {"global", h_global, 10}, {"br", h_br, 15}, {"call", h_call, 20}, {"memarg", h_memarg, 80},
  {"memidx", h_memidx, 25}, {"table", h_table, 20}, {"many", h_many, 16}, {"dead", h_dead, 360}, {"structure", h_structure, 4 * NNUM}, {0}};
