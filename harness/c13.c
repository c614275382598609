/* C13: imports, own definitions and exports of every kind, custom sections, start function. */
#include "hlib.h"
#include <pwart.h>
static u32 last;                       /* what the last function called did */
static void hf0(void *sp) { last = 70; } static void hf1(void *sp) { last = 71; } static void hf2(void *sp) { last = 72; }
static void *hf[3] = {hf0, hf1, hf2};
static struct pwart_wasm_memory hmem[3]; static u8 hmb[3][64];
static struct pwart_wasm_table htab[3]; static void *hte[3][8];
static u32 hgl[3];
void h_setup(void) {
  for (int i = 0; i < 3; i++) {
    hf[i] = pwart_wrap_host_function_c(hf[i]);
    hmem[i].initial = hmem[i].pages = 3 + i; hmem[i].maximum = 9; hmem[i].bytes = hmb[i]; hmem[i].fixed = 1;
    htab[i].elem_type = 0x6f; htab[i].initial = htab[i].size = 3 + i; htab[i].maximum = 8; htab[i].entries = hte[i];
    hgl[i] = 30 + i;
  }
}
static void ns(struct mb *m, const char *p, int n) { mbu(m, n); for (int i = 0; i < n; i++) mb1(m, p[i]); }
static int eq(const char *a, const char *b) { int i = 0; for (; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
/* the resolver: request number j must carry exactly the declared names and kind */
static struct { const char *mod, *field; int kind; void *res; } want[512]; static int nwant, nreq;
static void rsv(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) {
  sym_assert(nreq < nwant, "the resolver is asked for something that is not imported");
  sym_assert(eq(q->import_module, want[nreq].mod), "an import asks the resolver for another module name");
  sym_assert(eq(q->import_field, want[nreq].field), "an import asks the resolver for another field name");
  sym_assert(q->kind == want[nreq].kind, "an import asks the resolver for another kind");
  q->result = want[nreq++].res;
}
static struct pwart_symbol_resolver resolver = {rsv};
static void imp(struct mb *s, const char *mod, int ml, const char *f, int fl, int kind, int type, void *res) {
  ns(s, mod, ml); ns(s, f, fl); mb1(s, kind);
  if (kind == 0) mbu(s, type);
  else if (kind == 1) { mb1(s, 0x6f); mb1(s, 0); mbu(s, 2); }
  else if (kind == 2) { mb1(s, 0); mbu(s, 2); }
  else { mb1(s, 0x7f); mb1(s, 1); }
  want[nwant].mod = mod; want[nwant].field = f; want[nwant].kind = kind; want[nwant].res = res; nwant++;
}
static struct mb m, s, b;
static pwart_module_state compile(void) {
  nreq = 0;
  pwart_module_compiler c = pwart_new_module_compiler();
  pwart_set_symbol_resolver(c, &resolver);
  char *err = pwart_compile(c, (char *)m.b, m.n);
  sym_assert(err == 0, "a valid module is rejected");
  sym_assert(nreq == nwant, "an import is not asked for");
  pwart_module_state st = pwart_get_module_state(c);
  pwart_free_module_compiler(c);
  return st;
}
static u64 fr[8];
static u32 doing(void *f) { last = 0; pwart_call_wasm_function(f, fr); return last; }
static char in[3][2][4], en[4][4], q[4];
static void name2(char *p, const char *nm, int k, int n) { for (int i = 0; i < n; i++) { p[i] = in8(nm, 4 * k + i); } p[n] = 0; }
static void nonzero(char *p, int n) { for (int i = 0; i < n; i++) sym_assume(p[i] != 0); }
static void type0(int nt) { s.n = 0; mbu(&s, nt); for (int i = 0; i < nt; i++) { mb1(&s, 0x60); mbu(&s, 0); mbu(&s, 0); } mbsec(&m, 1, &s); }
/* own function k: global[g] = 100 + k */
static void codesec(int n, int g, int base) {
  s.n = 0; mbu(&s, n);
  for (int i = 0; i < n; i++) { b.n = 0; mbu(&b, 0); mb1(&b, 0x41); int v = base + i; mb1(&b, 0x80 | (v & 127)); mb1(&b, v >> 7); mb1(&b, 0x24); mbu(&b, g); mb1(&b, 0x0b); mbu(&s, b.n); mbcat(&s, &b); }
  mbsec(&m, 10, &s);
}
/* is `v` the entity of index i in the index space of this kind?  (imports first, then own ones) */
static int nimp[4]; static int impno[4][3]; static u32 *g0;
static void is_entity(void *v, int kind, u32 i) {
  sym_assert(v != 0, "an exported entity is not found");
  if (i < nimp[kind]) {
    int j = impno[kind][i];
    sym_assert(v == want[j].res, "an export gives another entity than its index names (import)");
    return;
  }
  i -= nimp[kind];
  if (kind == 0) { *g0 = 0; doing(v); sym_assert(*g0 == 100 + i, "an export gives another function than its index names"); }
  if (kind == 1) sym_assert(((struct pwart_wasm_table *)v)->size == 5 + i, "an export gives another table than its index names");
  if (kind == 2) sym_assert(((struct pwart_wasm_memory *)v)->pages == 1 - i, "an export gives another memory than its index names");
  if (kind == 3) sym_assert(*(u32 *)v == 1000 + i, "an export gives another global than its index names");
}
static void *lookup(pwart_module_state st, int kind, char *nm) {
  return kind == 0 ? pwart_get_export_function(st, nm) : kind == 1 ? (void *)pwart_get_export_table(st, nm)
       : kind == 2 ? (void *)pwart_get_export_memory(st, nm) : pwart_get_export_global(st, nm);
}
static void mkimports(long a) {
  nwant = 0; for (int i = 0; i < 4; i++) nimp[i] = 0;
  s.n = 0; mbu(&s, 3);
  for (int j = 0; j < 3; j++, a /= 4) {
    int k = a % 4;
    void *r = k == 0 ? (void *)hf[j] : k == 1 ? (void *)&htab[j] : k == 2 ? (void *)&hmem[j] : (void *)&hgl[j];
    impno[k][nimp[k]++] = j;
    imp(&s, in[j][0], 2, in[j][1], 2, k, j & 1, r);
  }
  mbsec(&m, 2, &s);
}
static void mkown(int nf) {
  s.n = 0; mbu(&s, nf); for (int i = 0; i < nf; i++) mbu(&s, i & 1); mbsec(&m, 3, &s);
  s.n = 0; mbu(&s, 2); for (int i = 0; i < 2; i++) { mb1(&s, 0x70 - i); mb1(&s, i); mbu(&s, 5 + i); if (i) mbu(&s, 9); } mbsec(&m, 4, &s);
  s.n = 0; mbu(&s, 2); for (int i = 0; i < 2; i++) { mb1(&s, i); mbu(&s, 1 - i); if (i) mbu(&s, 2); } mbsec(&m, 5, &s);
  s.n = 0; mbu(&s, 2); for (int i = 0; i < 2; i++) { mb1(&s, 0x7f); mb1(&s, 1); mb1(&s, 0x41); mb1(&s, (0xe8 + i) | 0x80); mb1(&s, 7); mb1(&s, 0x0b); } mbsec(&m, 6, &s);
}
/* a: kinds of the three imports (4^3); k: which export kind gets a symbolic index */
static void h_link(long a) {
  int k = a / 64; mbhdr(&m); type0(2);
  for (int j = 0; j < 3; j++) for (int f = 0; f < 2; f++) { in[j][f][0] = 'a' + j; in[j][f][1] = 'p' + f; in[j][f][2] = 0; }
  mkimports(a % 64); mkown(2);
  u32 i = in32("index", -1); sym_assume(i < nimp[k] + 2); u8 ib = i;
  s.n = 0; mbu(&s, 3);
  ns(&s, "g0", 2); mb1(&s, 3); mbu(&s, nimp[3]);
  ns(&s, "e", 1); mb1(&s, k); mb1(&s, ib);
  ns(&s, "e2", 2); mb1(&s, k); mb1(&s, nimp[k] + 1); mbsec(&m, 7, &s);
  codesec(2, nimp[3], 100);
  pwart_module_state st = compile();
  g0 = pwart_get_export_global(st, "g0");
  if (k == 3) is_entity(lookup(st, k, "e2"), k, nimp[k] + 1); 
  is_entity(lookup(st, k, "e"), k, i);
  if (k != 3) is_entity(lookup(st, k, "e2"), k, nimp[k] + 1);
  sym_assert(lookup(st, k, "f") == 0, "a name that is not exported is found");
  sym_reach(i < nimp[k] ? "import exported" : "own entity exported");
}
/* symbolic import names */
static void h_names(long a) {
  mbhdr(&m); type0(2);
  for (int j = 0; j < 3; j++) for (int f = 0; f < 2; f++) { name2(in[j][f], f ? "f" : "m", j, 2); nonzero(in[j][f], 2); }
  mkimports(a % 64); mkown(1);
  codesec(1, nimp[3], 100);
  compile(); sym_reach("imports resolved");
}
/* four exports of all kinds with symbolic names, looked up with any name and kind */
static void h_lookup(long a) {
  static const u8 kd[4] = {0, 1, 2, 3}; int k = a % 4, rot = a / 4;
  mbhdr(&m); type0(2); nwant = 0; for (int i = 0; i < 4; i++) nimp[i] = 0; mkown(2);
  s.n = 0; mbu(&s, 4);
  for (int e = 0; e < 4; e++) {
    int l = e == 3 ? 1 : 2; name2(en[e], "e", e, l); nonzero(en[e], l);
    for (int x = 0; x < e; x++) sym_assume((en[x][0] != en[e][0]) | (en[x][1] != en[e][1]));
    ns(&s, en[e], l); mb1(&s, (e + rot) & 3); mb1(&s, 1);
  }
  mbsec(&m, 7, &s);
  codesec(2, 0, 100);
  pwart_module_state st = compile();
  name2(q, "q", 0, 3);
  int e; for (e = 0; e < 4; e++) if (((e + rot) & 3) == k && eq(en[e], q)) break;
  void *v = lookup(st, k, q);
  if (e == 4) { sym_assert(v == 0, "a name that is not exported with that kind is found"); sym_reach("not exported"); return; }
  sym_assert(v != 0, "an exported entity is not found");
  if (k == 1) sym_assert(((struct pwart_wasm_table *)v)->size == 6, "a lookup finds another table");
  if (k == 2) sym_assert(((struct pwart_wasm_memory *)v)->pages == 0, "a lookup finds another memory");
  if (k == 3) sym_assert(*(u32 *)v == 1001, "a lookup finds another global");
  sym_reach("exported");
}
/* the start function: any index, imported or own; and none */
static void h_start(long a) {
  mbhdr(&m); type0(2);
  for (int j = 0; j < 3; j++) for (int f = 0; f < 2; f++) { in[j][f][0] = 'a' + j; in[j][f][1] = 'p' + f; in[j][f][2] = 0; }
  int pos = a / 16; a %= 16;
  static const u8 kk[16] = {0x3f, 0x0f, 0x33, 0x3c, 0x30, 0x0c, 0x03, 0, 0x15, 0x2a, 0x14, 0x11, 0x05, 0x20, 0x02, 0x08};
  mkimports(kk[a]); mkown(3);
  u32 i = in32("start", -1); sym_assume(i < nimp[0] + 3); u8 ib = i;
  s.n = 0; mbu(&s, 1); ns(&s, "g0", 2); mb1(&s, 3); mbu(&s, nimp[3]); mbsec(&m, 7, &s);
  if (pos) { s.n = 0; mb1(&s, ib); mbsec(&m, 8, &s); }
  codesec(3, nimp[3], 100);
  pwart_module_state st = compile();
  g0 = pwart_get_export_global(st, "g0");
  void *f = pwart_get_start_function(st);
  if (!pos) { sym_assert(f == 0, "a start function is reported though none is declared"); sym_reach("no start"); return; }
  sym_assert(*g0 == 1000, "the start function has run before the caller asked for it");
  is_entity(f, 0, i); sym_reach("start");
}
/* custom sections: position x shape */
static char big[700];
static void custom(int shape, int id) {
  s.n = 0;
  switch (shape) {
  case 0: mbu(&s, 3); for (int i = 0; i < 3; i++) mb1(&s, in8("cn", 8 * id + i)); for (int i = 0; i < 4; i++) mb1(&s, in8("cp", 8 * id + i)); break;
  case 1: mbs(&s, "dylink"); for (int i = 0; i < 5; i++) mb1(&s, in8("cp", 8 * id + i)); break;
  case 2: mbu(&s, 511); for (int i = 0; i < 511; i++) mb1(&s, 'x'); mb1(&s, 1); break;
  case 3: mbu(&s, 600); for (int i = 0; i < 600; i++) mb1(&s, 'x'); break;
  case 4: mbu(&s, 0); break;
  case 5: mbs(&s, "name"); for (int i = 0; i < 200; i++) mb1(&s, 0xff); break;
  case 6: mbu(&s, 512); for (int i = 0; i < 512; i++) mb1(&s, 0xc3); break;
  case 7: mbs(&s, "dylink.0"); break;
  }
  mbsec(&m, 0, &s);
}
static void h_custom(long a) {
  int pos = a % 14, shape = a / 14, at = 0;
  for (int j = 0; j < 3; j++) for (int f = 0; f < 2; f++) { in[j][f][0] = 'a' + j; in[j][f][1] = 'p' + f; in[j][f][2] = 0; }
#define C(x) if (pos == (x) || pos == 13) custom(shape, x);
  mbhdr(&m); C(0) type0(2); C(1) mkimports(0x39); C(2)
  s.n = 0; mbu(&s, 2); mbu(&s, 0); mbu(&s, 1); mbsec(&m, 3, &s); C(3)
  s.n = 0; mbu(&s, 1); mb1(&s, 0x70); mb1(&s, 0); mbu(&s, 6); mbsec(&m, 4, &s); C(4)
  s.n = 0; mbu(&s, 1); mb1(&s, 0); mbu(&s, 1); mbsec(&m, 5, &s); C(5)
  s.n = 0; mbu(&s, 1); mb1(&s, 0x7f); mb1(&s, 1); mb1(&s, 0x41); mb1(&s, 0xe8); mb1(&s, 7); mb1(&s, 0x0b); mbsec(&m, 6, &s); C(6)
  s.n = 0; mbu(&s, 3); ns(&s, "g0", 2); mb1(&s, 3); mbu(&s, nimp[3]); ns(&s, "f", 1); mb1(&s, 0); mbu(&s, nimp[0] + 1);
  ns(&s, "m", 1); mb1(&s, 2); mbu(&s, nimp[2]); mbsec(&m, 7, &s); C(7)
  s.n = 0; mbu(&s, nimp[0]); mbsec(&m, 8, &s); C(8)
  s.n = 0; mbu(&s, 0); mbsec(&m, 9, &s); C(9)
  s.n = 0; mbu(&s, 1); mbsec(&m, 12, &s); C(10)
  codesec(2, nimp[3], 100); C(11)
  s.n = 0; mbu(&s, 1); mbu(&s, 2); mbu(&s, nimp[2]); mb1(&s, 0x41); mb1(&s, 3); mb1(&s, 0x0b); mbs(&s, "hello"); mbsec(&m, 11, &s); C(12)
  pwart_module_state st = compile();
  g0 = pwart_get_export_global(st, "g0");
  sym_assert(g0 && *g0 == 1000, "a custom section disturbs the module");
  void *f = pwart_get_export_function(st, "f"); sym_assert(f != 0, "a custom section disturbs the module"); doing(f);
  sym_assert(*g0 == 101, "a custom section disturbs the module");
  doing(pwart_get_start_function(st)); sym_assert(*g0 == 100, "a custom section disturbs the module");
  struct pwart_wasm_memory *mm = pwart_get_export_memory(st, "m");
  sym_assert(mm && mm->pages == 1 && mm->bytes[3] == 'h' && mm->bytes[7] == 'o' && !mm->bytes[2] && !mm->bytes[8], "a custom section disturbs the module");
  sym_reach("custom");
}
/* any subset of the optional sections (a: 8 bits) */
static void h_subset(long a) {
  mbhdr(&m); nwant = 0; for (int i = 0; i < 4; i++) nimp[i] = 0;
  int F = a & 1, T = a & 2, M = a & 4, G = a & 8, E = a & 16, D = a & 32, I = a & 64, S = a & 128;
  if (F || (I && 1)) type0(1);
  if (I) { nwant = 0; s.n = 0; mbu(&s, 2); imp(&s, "a", 1, "b", 1, 0, 0, hf[1]); imp(&s, "c", 1, "d", 1, 3, 0, &hgl[2]); mbsec(&m, 2, &s); }
  int f0 = I ? 1 : 0, gl = I ? 1 : 0;
  if (F) { s.n = 0; mbu(&s, 1); mbu(&s, 0); mbsec(&m, 3, &s); }
  if (T) { s.n = 0; mbu(&s, 1); mb1(&s, 0x70); mb1(&s, 1); mbu(&s, 4); mbu(&s, 6); mbsec(&m, 4, &s); }
  if (M) { s.n = 0; mbu(&s, 1); mb1(&s, 0); mbu(&s, 1); mbsec(&m, 5, &s); }
  if (G) { s.n = 0; mbu(&s, 1); mb1(&s, 0x7f); mb1(&s, 1); mb1(&s, 0x41); mb1(&s, 0xe8); mb1(&s, 7); mb1(&s, 0x0b); mbsec(&m, 6, &s); }
  int nx = !!(F || I) + !!T + !!M + !!(G || I);
  s.n = 0; mbu(&s, nx);
  if (F || I) { ns(&s, "f", 1); mb1(&s, 0); mbu(&s, F ? f0 : 0); }
  if (T) { ns(&s, "t", 1); mb1(&s, 1); mbu(&s, 0); }
  if (M) { ns(&s, "m", 1); mb1(&s, 2); mbu(&s, 0); }
  if (G || I) { ns(&s, "g", 1); mb1(&s, 3); mbu(&s, G ? gl : 0); }
  if (nx) mbsec(&m, 7, &s);
  if (S && (F || I)) { s.n = 0; mbu(&s, F ? f0 : 0); mbsec(&m, 8, &s); }
  if (E && T && (F || I)) { s.n = 0; mbu(&s, 1); mbu(&s, 0); mb1(&s, 0x41); mb1(&s, 2); mb1(&s, 0x0b); mbu(&s, 1); mbu(&s, F ? f0 : 0); mbsec(&m, 9, &s); }
  if (D && M) { s.n = 0; mbu(&s, 1); mbsec(&m, 12, &s); }
  int hasg = G || I;
  if (F) { s.n = 0; mbu(&s, 1); b.n = 0; mbu(&b, 0); if (hasg) { mb1(&b, 0x41); mb1(&b, 9); mb1(&b, 0x24); mbu(&b, G ? gl : 0); } mb1(&b, 0x0b); mbu(&s, b.n); mbcat(&s, &b); mbsec(&m, 10, &s); }
  if (D && M) { s.n = 0; mbu(&s, 1); mbu(&s, 0); mb1(&s, 0x41); mb1(&s, 3); mb1(&s, 0x0b); mbs(&s, "hi"); mbsec(&m, 11, &s); }
  pwart_module_state st = compile();
  void *f = pwart_get_export_function(st, "f"); struct pwart_wasm_table *t = pwart_get_export_table(st, "t");
  struct pwart_wasm_memory *mm = pwart_get_export_memory(st, "m"); u32 *g = pwart_get_export_global(st, "g");
  sym_assert(!!f == !!(F || I), "an export is missing or made up"); sym_assert(!!t == !!T, "an export is missing or made up");
  sym_assert(!!mm == !!M, "an export is missing or made up"); sym_assert(!!g == !!hasg, "an export is missing or made up");
  if (F) { doing(f); if (hasg) sym_assert(*g == 9, "the exported function is another"); } else if (I) sym_assert(f == hf[1], "the exported import is another");
  if (I && !G) sym_assert(g == &hgl[2], "the exported import is another");
  void *sf = pwart_get_start_function(st);
  sym_assert(sf == (S && (F || I) ? f : 0), "the start function is another than declared");
  if (T) for (int i = 0; i < 4; i++) sym_assert(t->entries[i] == (E && (F || I) && i == 2 ? f : 0), "a table has other contents than declared");
  if (M) sym_assert(mm->bytes[3] == (D ? 'h' : 0) && mm->bytes[4] == (D ? 'i' : 0) && mm->bytes[5] == 0 && mm->bytes[2] == 0, "a memory has other contents than declared");
  pwart_free_module_state(st);
  sym_reach("subset");
}
/* long export and import names: a = length class x role */
static char ln[3][600], lq[600];
static void h_long(long a) {
  static const u16 L[] = {0, 1, 2, 63, 127, 128, 200, 254, 255}; int n = L[a % 9], role = a / 9;
  u8 c0 = in8("c0", -1), c1 = in8("c1", -1); sym_assume(c0 != 0 & c1 != 0);
  for (int i = 0; i < n; i++) { ln[0][i] = 'a' + i % 23; ln[1][i] = 'b' + i % 23; lq[i] = ln[0][i]; }
  if (n) { ln[0][n - 1] = c0; ln[1][n - 1] = c1; lq[n - 1] = c0; } ln[0][n] = ln[1][n] = lq[n] = 0;
  mbhdr(&m); type0(1); nwant = 0;
  if (role) {
    int x = role == 1 ? n : role == 2 ? 1 : 240, y = role == 1 ? 1 : role == 2 ? n : n > 250 ? 240 : n;
    if (role == 3) { for (int i = 0; i < x; i++) ln[1][i] = 'b' + i % 23; ln[1][x - 1] = c1; ln[1][x] = 0; for (int i = 0; i < y; i++) ln[0][i] = 'a' + i % 23; if (y) ln[0][y - 1] = c0; ln[0][y] = 0; }
    else { ln[2][0] = c1; ln[2][1] = 0; if (role == 2) { for (int i = 0; i < 3; i++) ln[1][i] = ln[2][i]; } else { for (int i = 0; i <= n; i++) ln[1][i] = ln[0][i]; for (int i = 0; i < 3; i++) ln[0][i] = ln[2][i]; } }
    s.n = 0; mbu(&s, 2); imp(&s, ln[1], x, ln[0], y, 0, 0, hf[0]); imp(&s, "z", 1, "y", 1, 0, 0, hf[1]); mbsec(&m, 2, &s);
    s.n = 0; mbu(&s, 2); ns(&s, "f", 1); mb1(&s, 0); mbu(&s, 0); ns(&s, "g", 1); mb1(&s, 0); mbu(&s, 1); mbsec(&m, 7, &s);
    pwart_module_state st = compile();
    sym_assert(pwart_get_export_function(st, "f") == hf[0] && pwart_get_export_function(st, "g") == hf[1], "an import is linked to something else");
    sym_reach("long import"); return;
  }
  if (n) sym_assume(c0 != c1);
  s.n = 0; mbu(&s, 1); imp(&s, "z", 1, "y", 1, 0, 0, hf[1]); mbsec(&m, 2, &s);
  s.n = 0; mbu(&s, 1); mbu(&s, 0); mbsec(&m, 3, &s);
  s.n = 0; mbu(&s, 1); mb1(&s, 0x7f); mb1(&s, 1); mb1(&s, 0x41); mb1(&s, 0); mb1(&s, 0x0b); mbsec(&m, 6, &s);
  s.n = 0; mbu(&s, n ? 3 : 2); ns(&s, ln[0], n); mb1(&s, 0); mbu(&s, 1); if (n) { ns(&s, ln[1], n); mb1(&s, 0); mbu(&s, 0); } ns(&s, "\1g\2", 3); mb1(&s, 3); mbu(&s, 0); mbsec(&m, 7, &s);
  codesec(1, 0, 100);
  pwart_module_state st = compile();
  g0 = pwart_get_export_global(st, "\1g\2");
  sym_assert(g0 != 0, "an exported entity is not found");
  nimp[0] = 1; impno[0][0] = 0;
  is_entity(pwart_get_export_function(st, lq), 0, 1);
  if (n) {
    lq[n - 1] = c1; int alone = 1;
    lq[0] = n > 1 ? 'b' : lq[0]; for (int i = 0; i < n - 1; i++) lq[i] = ln[1][i];
    is_entity(pwart_get_export_function(st, lq), 0, 0);
    u8 c2 = in8("c2", -1); sym_assume(c2 != c1); if (n == 1) sym_assume(c2 != c0);
    lq[n - 1] = c2; sym_assert(pwart_get_export_function(st, lq) == 0, "a name that is not exported is found");
    lq[n - 1] = c1;
  }
  lq[n] = in8("c3", -1); lq[n + 1] = 0; sym_assume(lq[n] != 0); if (n == 0) ; 
  if (n + 1 < 256 || 1) sym_assert(pwart_get_export_function(st, lq) == 0, "a name that is not exported is found");
  sym_reach("long export");
}
/* many imports, functions and exports */
static char mn[300][4];
static void h_many(long a) {
  static const u16 nI[] = {0, 1, 15, 16, 17, 40, 150, 280}, nF[] = {0, 1, 30, 250}, nX[] = {1, 7, 60, 250};
  int ni = nI[a % 8], nf = nF[a / 8 % 4], nx = nX[a / 32 % 4]; if (ni + nf == 0) ni = 2;
  mbhdr(&m); type0(1 + a % 5); nwant = 0;
  static struct mb bigm; 
  s.n = 0; mbu(&s, ni + 1);
  for (int i = 0; i < 300; i++) { mn[i][0] = 'a' + i % 26; mn[i][1] = 'a' + i / 26; mn[i][2] = 0; }
  for (int i = 0; i < ni; i++) imp(&s, "e", 1, mn[i], 2, 0, 0, hf[i % 3]);
  imp(&s, "e", 1, "G", 1, 3, 0, &hgl[0]);
  mbsec(&m, 2, &s);
  if (nf) { s.n = 0; mbu(&s, nf); for (int i = 0; i < nf; i++) mbu(&s, 0); mbsec(&m, 3, &s); }
  u32 i = in32("index", -1), lim = nf > 200 ? 3 : 12; sym_assume(i < (ni + nf > lim ? lim : ni + nf));
  u32 t = nf > 200 ? (ni + (int)i > 0 ? ni - 1 + i : ni + nf - 1) : i < 6 ? i : ni + nf > 12 ? ni + nf - 12 + i : i;
  if (t >= ni - 2 && t < ni + 4) sym_reach("many: near the import boundary");
  s.n = 0; mbu(&s, nx); for (int e = 0; e < nx; e++) { ns(&s, mn[e], 2); mb1(&s, 0); u32 x = e == nx / 2 ? t : (e * 7) % (ni + nf); mb1(&s, x & 127 | 128); mb1(&s, x >> 7); } mbsec(&m, 7, &s);
  if (nf) {
    s.n = 0; mbu(&s, nf);
    for (int k = 0; k < nf; k++) { mbu(&s, 7); mbu(&s, 0); mb1(&s, 0x41); int v = 100 + k; mb1(&s, 0x80 | (v & 127)); mb1(&s, v >> 7); mb1(&s, 0x24); mbu(&s, 0); mb1(&s, 0x0b); }
    mbsec(&m, 10, &s);
  }
  pwart_module_state st = compile();
  for (int e = 0; e < nx; e += e == nx / 2 - 1 || nx < 10 ? 1 : nx / 2 - 1) {
    u32 x = e == nx / 2 ? t : (e * 7) % (ni + nf);
    void *f = pwart_get_export_function(st, mn[e]);
    sym_assert(f != 0, "an exported entity is not found");
    if (x < ni) sym_assert(f == want[x].res, "an export gives another entity than its index names (import)");
    else { hgl[0] = 0; doing(f); sym_assert(hgl[0] == 100 + x - ni, "an export gives another function than its index names"); }
  }
  sym_assert(pwart_get_export_function(st, "zz") == 0, "a name that is not exported is found");
  sym_reach("many");
}
/* pwart_load_module, inspection, user data, resolver of the state */
static void h_state(long a) {
  mbhdr(&m); nwant = 0; for (int i = 0; i < 4; i++) nimp[i] = 0; type0(2); mkown(2);
  s.n = 0; mbu(&s, 3); ns(&s, "m", 1); mb1(&s, 2); mbu(&s, 0); ns(&s, "t", 1); mb1(&s, 1); mbu(&s, 0); ns(&s, "g", 1); mb1(&s, 3); mbu(&s, 0); mbsec(&m, 7, &s);
  codesec(2, 0, 100);
  char *err = 0; pwart_module_state st;
  if (a & 1) { st = pwart_load_module((char *)m.b, m.n, &err); sym_assert(st && !err, "a valid module is rejected"); } else st = compile();
  void *ud = (void *)in64("ud", -1); pwart_module_state_set_user_data(st, ud);
  sym_assert(pwart_module_state_get_user_data(st) == ud, "user data is not the value set");
  struct pwart_inspect_result1 r; pwart_inspect_module_state(st, &r);
  struct pwart_wasm_memory *mm = pwart_get_export_memory(st, "m"); struct pwart_wasm_table *t = pwart_get_export_table(st, "t");
  sym_assert(r.memory == mm->bytes && r.memory_size == 65536, "inspection reports another memory");
  sym_assert(r.table_entries == t->entries && r.table_entries_count == 5, "inspection reports another table");
  sym_assert(r.globals_buffer == pwart_get_export_global(st, "g") && r.globals_buffer_size == 8, "inspection reports another globals area");
  sym_assert(r.symbol_resolver == (a & 1 ? 0 : &resolver), "inspection reports another resolver");
  pwart_set_state_symbol_resolver(st, ud); pwart_inspect_module_state(st, &r); sym_assert((void *)r.symbol_resolver == ud, "the resolver of the state is not the one set");
  sym_reach("state");
}
/* an import nobody resolves is an error, not a module */
static void h_unresolved(long a) {
  mbhdr(&m); type0(1); nwant = 0; s.n = 0; mbu(&s, 2);
  imp(&s, "a", 1, "b", 1, 0, 0, a & 1 ? 0 : hf[0]); imp(&s, a & 2 ? "pwart_builtin" : "c", a & 2 ? 13 : 1, "dd", 2, (a >> 2) & 3, 0, 0); mbsec(&m, 2, &s);
  pwart_module_compiler c = pwart_new_module_compiler(); pwart_set_symbol_resolver(c, &resolver); nreq = 0;
  char *err = pwart_compile(c, (char *)m.b, m.n);
  sym_assert(err != 0, "a module with an unresolved import is accepted");
  pwart_free_module_compiler(c); sym_reach("unresolved");
}
struct xh harnesses[] = {{"link", h_link, 256}, {"names", h_names, 64}, {"lookup", h_lookup, 16}, {"start", h_start, 32}, {"custom", h_custom, 112},
  {"subset", h_subset, 256}, {"long", h_long, 36}, {"many", h_many, 128}, {"state", h_state, 2}, {"unresolved", h_unresolved, 16}, {0}};
