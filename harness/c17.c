/* C17: namespaces. */
#include "hlib.h"
#include <pwart.h>
#define NH 5
struct hm { struct pwart_host_module base; int attached, detached; };
static struct hm hm[NH];
static int order_ok = 1;
static pwart_namespace theNs;
static void res(struct pwart_host_module *t, struct pwart_symbol_resolve_request *q) { q->result = (u8 *)t + 1 + q->kind + q->import_field[0]; }
static void att(struct pwart_host_module *t) { ((struct hm *)t)->attached++; order_ok &= t->namespace2 == theNs; }
static void det(struct pwart_host_module *t) { ((struct hm *)t)->detached++; }
static struct mb wm[3];
static int wv[3] = {1111, 2222, 3333};
static void mkbad(void);
void h_setup(void) {
  mkbad();
  for (int k = 0; k < 3; k++) {           /* a module exporting global "g" = wv[k], and under kind memory "m" */
    struct mb *m = &wm[k], s; mbhdr(m);
    s.n = 0; mbu(&s, 1); mb1(&s, 0); mbu(&s, k + 1); mbsec(m, 5, &s);
    s.n = 0; mbu(&s, 1); mb1(&s, 0x7f); mb1(&s, 1); mb1(&s, 0x41); mb1(&s, (wv[k] & 127) | 128); mb1(&s, wv[k] >> 7); mb1(&s, 0x0b); mbsec(m, 6, &s);
    s.n = 0; mbu(&s, 2); mbs(&s, "g"); mb1(&s, 3); mbu(&s, 0); mbs(&s, "m"); mb1(&s, 2); mbu(&s, 0); mbsec(m, 7, &s);
  }
}
static int eq(const char *a, const char *b) { return a[0] == b[0] && (a[0] == 0 || (a[1] == b[1] && (a[1] == 0 || a[2] == b[2]))); }
#define K 6
struct ent { char name[4]; int kind; void *mod; };   /* kind 0: absent */
/* a history of `nops` operations on names of up to two arbitrary bytes */
static struct mb bad[2];
static void mkbad(void) {                   /* invalid modules: an import nothing provides; an unknown opcode in the second function */
  struct mb *m = &bad[0], s; mbhdr(m);
  s.n = 0; mbu(&s, 1); mb1(&s, 0x60); mbu(&s, 0); mbu(&s, 0); mbsec(m, 1, &s);
  s.n = 0; mbu(&s, 1); mbs(&s, "\x01no"); mbs(&s, "no"); mb1(&s, 0); mbu(&s, 0); mbsec(m, 2, &s);
  m = &bad[1]; mbhdr(m);
  s.n = 0; mbu(&s, 1); mb1(&s, 0x60); mbu(&s, 0); mbu(&s, 0); mbsec(m, 1, &s);
  s.n = 0; mbu(&s, 3); mbu(&s, 0); mbu(&s, 0); mbu(&s, 0); mbsec(m, 3, &s);
  s.n = 0; mbu(&s, 3); mbu(&s, 2); mbu(&s, 0); mb1(&s, 0x0b); mbu(&s, 3); mbu(&s, 0); mb1(&s, 0xf7); mb1(&s, 0x0b); mbu(&s, 2); mbu(&s, 0); mb1(&s, 0x0b); mbsec(m, 10, &s);
}
static char *lend(const char *nm) {         /* the caller's name buffer, reused for every call */
  static char buf[8]; memset(buf, 0x55, 8); memcpy(buf, nm, 4); return buf;
}
static void hist(int nops, int base, long code) {
  static char nm[K + 1][4];
  struct ent e[K]; int ne = 0;
  long live0 = sym_live(); int failed = 0;
  pwart_namespace ns = theNs = pwart_namespace_new();
  int wantA[NH] = {0}, wantD[NH] = {0};
  for (int k = 0; k < NH; k++) { memset(&hm[k], 0, sizeof hm[k]); hm[k].base.resolve = res; hm[k].base.on_attached = att; hm[k].base.on_detached = det; }
  for (int i = 0; i <= nops; i++) { memset(nm[i], 0, 4); for (int j = 0; j < (nops < 3 || base == 2 && nops < 4 ? 2 : 1); j++) nm[i][j] = in8("name", i * 2 + j); }
  for (int i = 0; i < nops; i++) {
    int op = code % base, j; code /= base;
    for (j = 0; j < ne && !eq(e[j].name, nm[i]); j++) ;
    if (op == 1) {                                     /* remove */
      char *err = pwart_namespace_remove_module(ns, lend(nm[i]));
      sym_assert(err == 0, "removing a module failed");
      if (j < ne) { if (e[j].kind == 1) wantD[(struct hm *)e[j].mod - hm]++; e[j].kind = 0; }
      sym_reach("remove");
      continue;
    }
    if (op == 3) {
      char *err = 0; int w = i & 1; failed = 1;
      void *st = pwart_namespace_define_wasm_module(ns, lend(nm[i]), (char *)bad[w].b, bad[w].n, &err);
      sym_assert(st == 0 && err != 0, "defining an invalid module succeeds");
      sym_reach("define invalid");
      continue;
    }
    if (j < ne && e[j].kind == 1) wantD[(struct hm *)e[j].mod - hm]++;
    if (j == ne) memcpy(e[ne++].name, nm[i], 4);
    if (op == 0) {
      int h = i;                                         /* the modules are alike */
      pwart_namespace_define_host_module(ns, lend(nm[i]), &hm[h].base);
      wantA[h]++; e[j].kind = 1; e[j].mod = &hm[h];
      sym_reach("define host");
    } else {
      char *err = 0; int w = i % 3;
      void *st = pwart_namespace_define_wasm_module(ns, lend(nm[i]), (char *)wm[w].b, wm[w].n, &err);
      sym_assert(st != 0, "defining a valid module failed");
      e[j].kind = 2; e[j].mod = st;
      sym_assert(*(int *)pwart_get_export_global(st, "g") == wv[w], "a defined module is not the one given");
      sym_reach("define wasm");
    }
  }
  /* lookup of a further arbitrary name */
  int j; char *q = nm[nops];
  for (j = 0; j < ne && !eq(e[j].name, q); j++) ;
  struct pwart_named_module *f = pwart_namespace_find_module(ns, q);
  int there = f != 0 && f->type != 0;
  int want = j < ne && e[j].kind != 0;
  sym_assert(there == want, "a lookup finds a module that was removed or never defined, or misses one");
  struct pwart_symbol_resolve_request r; r.import_module = q; r.import_field = "g"; r.kind = PWART_KIND_GLOBAL; r.result = 0;
  struct pwart_symbol_resolver *rs = pwart_namespace_resolver(ns);
  if (want) {
    sym_assert(eq(f->name, q), "the module found has another name");
    if (e[j].kind == 1) {
      sym_assert(f->type == PWART_MODULE_TYPE_HOST_MODULE && f->val.host == e[j].mod, "a lookup finds another module than the last one defined");
      rs->resolve(rs, &r);
      sym_assert(r.result == (u8 *)e[j].mod + 1 + 3 + 'g', "an import is not resolved by the host module of that name");
      sym_reach("found host");
    } else {
      sym_assert(f->type == PWART_MODULE_TYPE_WASM_MODULE && f->val.wasm == e[j].mod, "a lookup finds another module than the last one defined");
      rs->resolve(rs, &r);
      sym_assert(r.result == pwart_get_export_global(e[j].mod, "g"), "an import does not resolve to the export of the named module");
      r.kind = PWART_KIND_MEMORY; rs->resolve(rs, &r);
      sym_assert(r.result == 0, "an export is found under another kind");
      r.import_field = "m"; rs->resolve(rs, &r);
      sym_assert(r.result && r.result == pwart_get_export_memory(e[j].mod, "m"), "an import does not resolve to the export of the named module");
      sym_reach("found wasm");
    }
  } else {
    rs->resolve(rs, &r);
    sym_assert(r.result == 0, "an import from a module that is not there resolves to something");
    sym_reach("not found");
  }
  for (int k = 0; k < NH; k++) sym_assert(hm[k].attached == wantA[k] && hm[k].detached == wantD[k], "a host module is not attached and detached exactly once");
  sym_assert(order_ok, "a host module is attached before it knows its namespace");
  /* deleting the namespace detaches what is still there, once */
  for (int k = 0; k < ne; k++) if (e[k].kind == 1) wantD[(struct hm *)e[k].mod - hm]++;
  sym_assert(pwart_namespace_delete(ns) == 0, "deleting the namespace failed");
  for (int k = 0; k < NH; k++) sym_assert(hm[k].detached == wantD[k], "deleting the namespace does not detach each remaining host module exactly once");
  if (!failed) sym_assert(sym_live() == live0, "deleting the namespace leaves memory of it allocated");
}
static void h_host3(long c) { hist(3, 2, c); }
static void h_host4(long c) { hist(4, 2, c); }
static void h_mixed2(long c) { hist(2, 4, c); }
static void h_mixed3(long c) { hist(3, 4, c); }
static void h_mixed4(long c) { hist(4, 4, c); }
static void h_mixed5(long c) { hist(5, 4, c); }
struct xh harnesses[] = {{"host3", h_host3, 8}, {"host4", h_host4, 16}, {"mixed2", h_mixed2, 16}, {"mixed3", h_mixed3, 64}, {"mixed4", h_mixed4, 256}, {"mixed5", h_mixed5, 1024}, {0}};
