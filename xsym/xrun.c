/* Compiles batches of wasm modules with the code under test and (1) dumps the process for symbolic execution, or
   (2) replays concrete inputs natively. */
#define _GNU_SOURCE
#include "xcore.h"
#include <pwart.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

typedef unsigned long u64;
typedef unsigned int u32;
typedef unsigned char u8;

/* fictional memories: their bytes exist only as symbolic arrays (symbolic mode) or lazily mapped pages (replay) */
#define MEM_BASE(k) (0x600000000000ul + (u64)(k) * 0x1000000000ul)
#define NAT_BASE 0x500000000000ul
#define FRAME_BASE 0x7d0000000000ul
#define FRAME_SZ (1ul << 20)
struct pwart_wasm_memory xmem[8];       /* 0,1: growable  2,3: fixed  4: growable  5: fixed */
static struct pwart_wasm_memory natmem = {0x7fffffff, 0x7fffffff, 0x7fffffff, 0, 1};
u64 gbuf[64];                           /* imported globals */
void *tent[4][16];
struct pwart_wasm_table xtab[4];

/* ---- generic host functions: slot k has signature hsig[k] = "params:results" */
#define NSLOT 64
char hsig[NSLOT][40];
static int nslot;
u64 host_log[256];
u64 host_logn;
NI void host_generic(int k, void *fp) {
  const char *s = hsig[k];
  u64 acc = 0x9e3779b97f4a7c15ul + k, v;
  void *sp = fp;
  host_log[host_logn++ & 255] = k;
  for (; *s && *s != ':'; s++) {
    if (*s == 'i') v = (u32)pwart_rstack_get_i32(&sp);
    else if (*s == 'I') v = pwart_rstack_get_i64(&sp);
    else if (*s == 'f') { union { float f; u32 u; } x; x.f = pwart_rstack_get_f32(&sp); v = x.u; }
    else if (*s == 'F') { union { double f; u64 u; } x; x.f = pwart_rstack_get_f64(&sp); v = x.u; }
    else v = (u64)pwart_rstack_get_ref(&sp);
    host_log[host_logn++ & 255] = v;
    acc = (acc << 7 | acc >> 57) ^ v;
  }
  /* everything at and above the frame belongs to the callee */
  for (int i = 0; i < 24; i++) ((volatile u64 *)fp)[i] = 0xdeadbeefcafe0000ul + i;
  sp = fp;
  if (*s == ':') s++;
  for (int r = 0; *s; s++, r++) {
    acc = (acc << 11 | acc >> 53) + 0x1234567 + r;
    if (*s == 'i') pwart_rstack_put_i32(&sp, (int)acc);
    else if (*s == 'I') pwart_rstack_put_i64(&sp, acc);
    else if (*s == 'f') { union { float f; u32 u; } x; x.u = acc; pwart_rstack_put_f32(&sp, x.f); }
    else if (*s == 'F') { union { double f; u64 u; } x; x.u = acc; pwart_rstack_put_f64(&sp, x.f); }
    else pwart_rstack_put_ref(&sp, (void *)acc);
  }
  sym_clobber();
}
#define S(k) static void hs##k(void *fp) { host_generic(k, fp); }
#define S8(k) S(k##0) S(k##1) S(k##2) S(k##3) S(k##4) S(k##5) S(k##6) S(k##7)
S8(1) S8(2) S8(3) S8(4) S8(5) S8(6)
#define R8(k) hs##k##0, hs##k##1, hs##k##2, hs##k##3, hs##k##4, hs##k##5, hs##k##6, hs##k##7
static pwart_host_function_c slots[] = {R8(1), R8(2), R8(3), R8(4), R8(5), R8(6)};
static const int slotno[] = {10,11,12,13,14,15,16,17,20,21,22,23,24,25,26,27,30,31,32,33,34,35,36,37,
                             40,41,42,43,44,45,46,47,50,51,52,53,54,55,56,57,60,61,62,63};

#define MAXMOD 4096
static pwart_module_state mods[MAXMOD];
static char *modname[MAXMOD];
static int nmods;

static void resolve(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) {
  const char *f = q->import_field;
  q->result = NULL;
  if (!strcmp(q->import_module, "pwart_builtin")) {
    int n; struct pwart_named_symbol *s = pwart_get_builtin_symbols(&n);
    for (int i = 0; i < n; i++) if (!strcmp(s[i].name, f) && s[i].kind == q->kind) q->result = (void *)s[i].val.fn;
    return;
  }
  if (!strcmp(q->import_module, "env")) {
    if (q->kind == PWART_KIND_FUNCTION && f[0] == 'h') {
      const char *sig = strchr(f, ':') + 1;
      for (int i = 0; i < nslot; i++) if (!strcmp(hsig[slotno[i]], sig)) { q->result = pwart_wrap_host_function_c(slots[i]); return; }
      if (nslot >= 44) return;
      strncpy(hsig[slotno[nslot]], sig, 39);
      q->result = pwart_wrap_host_function_c(slots[nslot++]);
    } else if (q->kind == PWART_KIND_MEMORY) {
      if (!strcmp(f, "native")) q->result = &natmem; else q->result = &xmem[f[1] - '0'];
    } else if (q->kind == PWART_KIND_GLOBAL) q->result = &gbuf[atoi(f + 1)];
    else if (q->kind == PWART_KIND_TABLE) q->result = &xtab[f[1] - '0'];
    return;
  }
  for (int i = 0; i < nmods; i++) if (modname[i] && mods[i] && !strcmp(modname[i], q->import_module)) {
    switch (q->kind) {
      case PWART_KIND_FUNCTION: q->result = (void *)pwart_get_export_function(mods[i], f); break;
      case PWART_KIND_MEMORY: q->result = pwart_get_export_memory(mods[i], f); break;
      case PWART_KIND_TABLE: q->result = pwart_get_export_table(mods[i], f); break;
      case PWART_KIND_GLOBAL: q->result = pwart_get_export_global(mods[i], f); break;
    }
  }
}
static struct pwart_symbol_resolver resolver = {resolve};

static u8 *bp, *be;
static u32 rd32(void) { u32 v; memcpy(&v, bp, 4); bp += 4; return v; }

/* batch: u32 n; n x { u8 stack_flags, u8 misc_flags, u32 namelen,name, u32 len,bytes, u32 nq, nq x {u8 kind,u32 len,name} } */
static int load_batch(const char *path, int quiet) {
  FILE *f = fopen(path, "rb");
  fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
  u8 *b = malloc(sz + 16); if (fread(b, 1, sz, f) != (size_t)sz) return 1; fclose(f);
  bp = b; be = b + sz;
  u32 n = rd32();
  for (u32 i = 0; i < n; i++) {
    struct pwart_global_compile_config cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.stack_flags = *bp++; cfg.misc_flags = *bp++;
    u32 nl = rd32(); char *nm = malloc(nl + 1); memcpy(nm, bp, nl); nm[nl] = 0; bp += nl;
    u32 len = rd32(); char *code = malloc(len + 64); memcpy(code, bp, len); memset(code + len, 0, 64); bp += len;
    pwart_set_global_compile_config(&cfg);
    nslot = 0;
    pwart_module_compiler m = pwart_new_module_compiler();
    pwart_set_symbol_resolver(m, &resolver);
    modname[i] = nm; mods[i] = 0; nmods = i + 1;
    if (!quiet) { printf("mod %u\n", i); fflush(stdout); }
    char *err = pwart_compile(m, code, len);
    if (err) { if (!quiet) printf("err %s\n", err); }
    else {
      mods[i] = pwart_get_module_state(m);
      for (int k = 0; k < nslot; k++) if (!quiet) printf("slot %d %s\n", slotno[k], hsig[slotno[k]]);
    }
    pwart_free_module_compiler(m);
    u32 nq = rd32();
    for (u32 k = 0; k < nq; k++) {
      u8 kind = *bp++; u32 l = rd32(); char nmq[64]; memcpy(nmq, bp, l); nmq[l] = 0; bp += l;
      if (err) continue;
      void *r = 0;
      switch (kind) {
        case 0: r = (void *)pwart_get_export_function(mods[i], nmq); break;
        case 1: r = pwart_get_export_table(mods[i], nmq); break;
        case 2: r = pwart_get_export_memory(mods[i], nmq); break;
        case 3: r = pwart_get_export_global(mods[i], nmq); break;
        case 9: r = (void *)pwart_get_start_function(mods[i]); break;
      }
      if (!quiet) printf("sym %u %s %lx\n", kind, nmq, (u64)r);
    }
    if (!err && !quiet) {
      struct pwart_inspect_result1 ir; memset(&ir, 0, sizeof ir);
      pwart_inspect_module_state(mods[i], &ir);
      printf("gbuf %lx %d\n", (u64)ir.globals_buffer, ir.globals_buffer_size);
      printf("ctx %lx\n", (u64)mods[i]);
    }
  }
  return 0;
}

extern u64 x_call(pwart_wasm_function fn, void *fp, u64 *saved);
__asm__(".text\n.globl x_call\nx_call:\n"
  "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
  "mov $0x1111, %rbx\nmov $0x2222, %rbp\nmov $0x3333, %r12\nmov $0x4444, %r13\nmov $0x5555, %r14\nmov $0x6666, %r15\n"
  "lea -0x4000(%rsp), %rax\nmov $0xa5a5a5a5a5a5a5a5, %rcx\n1: mov %rcx,(%rax)\nadd $8,%rax\ncmp %rsp,%rax\njb 1b\n"
  "mov %rcx,%r8\nmov %rcx,%r9\nmov %rcx,%r10\nmov %rcx,%r11\n"
  "call pwart_call_wasm_function\n"
  "pop %rdx\nmov %rbx,(%rdx)\nmov %rbp,8(%rdx)\nmov %r12,16(%rdx)\nmov %r13,24(%rdx)\nmov %r14,32(%rdx)\nmov %r15,40(%rdx)\n"
  "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");

static u64 mbase(int mod, const char *s) {
  if (s[0] == 'm') return s[1] < '6' ? MEM_BASE(s[1] - '0') : (u64)xmem[s[1] - '0'].bytes;
  if (s[0] == 'n') return NAT_BASE;
  if (s[0] == 'f') return FRAME_BASE + FRAME_SZ / 2;
  if (s[0] == 'g') return (u64)&gbuf[atoi(s + 1)];
  if (s[0] == 't') return (u64)&tent[s[1] - '0'][0];
  if (s[0] == 'h') return (u64)host_log;
  if (s[0] == 'M') { struct pwart_wasm_memory *m = pwart_get_export_memory(mods[mod], s + 1); return m ? (u64)m->bytes : 0; }
  if (s[0] == 'G') return (u64)pwart_get_export_global(mods[mod], s + 1);
  if (s[0] == 'T') return (u64)pwart_get_export_table(mods[mod], s + 1)->entries;
  if (s[0] == 'P') return (u64)&((s[1] == 'x' ? &xmem[s[2] - '0'] : pwart_get_export_memory(mods[mod], s + 1))->initial);
  return 0;
}
static u64 growfail, ngrow;
extern void *__real_realloc(void *, size_t);
extern void *(*x_realloc)(void *, size_t);
#include <malloc.h>
static void *replay_realloc(void *p, size_t n) {
  u64 old = 0; int own = 1;
  for (int k = 0; k < 8; k++) if (p == (void *)MEM_BASE(k)) { old = (u64)xmem[k].initial * 65536; own = 0; }
  if (own) {
    old = malloc_usable_size(p);
    if (old < 65536) return __real_realloc(p, n);
  }
  if (growfail >> ngrow++ & 1) return NULL;
  u8 *q = malloc(n + 64);
  memset(q, 0xa5, n + 64);
  if (old > n) old = n;
  memcpy(q, p, old);
  memset(p, 0xdd, old);
  return q;
}
static int do_replay(const char *path) {
  FILE *f = fopen(path, "r");
  static char line[1 << 20], a[64], hex[1 << 20];
  u64 off, n; int mod = 0;
  u64 saved[6] = {0};
  for (int k = 0; k < 8; k++) mmap((void *)MEM_BASE(k), 0x800000000ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  mmap((void *)NAT_BASE, 0x200000000ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  mmap((void *)FRAME_BASE, FRAME_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  memset((void *)(FRAME_BASE + FRAME_SZ / 2 - 4096), 0xa5, 65536);
  host_logn = 0;
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "module %d", &mod) == 1) continue;
    struct pwart_global_compile_config cfg; int sf, mf;
    if (sscanf(line, "config %d %d", &sf, &mf) == 2) { cfg.stack_flags = sf; cfg.misc_flags = mf; pwart_set_global_compile_config(&cfg); continue; }
    if (sscanf(line, "growfail %d", &sf) == 1) { growfail |= 1ul << sf; continue; }
    if (sscanf(line, "slot %d %63s", &sf, a) == 2) { strncpy(hsig[sf], a, 39); continue; }
    if (sscanf(line, "set %63s %lu %s", a, &off, hex) == 3) {
      u8 *p = (u8 *)mbase(mod, a) + off;
      for (u64 i = 0; hex[2 * i] && hex[2 * i + 1]; i++) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); p[i] = v; }
      continue;
    }
    if (sscanf(line, "call %63s %lu", a, &off) == 2) {
      pwart_wasm_function fn = pwart_get_export_function(mods[mod], a);
      x_realloc = replay_realloc;
      x_call(fn, (void *)(FRAME_BASE + FRAME_SZ / 2 + off), saved);
      printf("called %d\n", saved[0] == 0x1111 && saved[1] == 0x2222 && saved[2] == 0x3333 && saved[3] == 0x4444 && saved[4] == 0x5555 && saved[5] == 0x6666);
      fflush(stdout);
      continue;
    }
    if (line[0] == 'g') x_realloc = 0;
    if (sscanf(line, "get %63s %ld %lu", a, (long *)&off, &n) == 3) {
      u8 *p = (u8 *)mbase(mod, a) + off;
      printf("val %s %ld ", a, (long)off);
      for (u64 i = 0; i < n; i++) printf("%02x", p[i]);
      printf("\n"); fflush(stdout);
    }
  }
  return 0;
}

int main(int argc, char **argv) {
  for (int k = 0; k < 8; k++) {
    xmem[k].initial = xmem[k].pages = 65536; xmem[k].maximum = 65536;
    xmem[k].bytes = (u8 *)MEM_BASE(k); xmem[k].fixed = k == 2 || k == 3 || k == 5;
  }
  xmem[6].initial = xmem[6].pages = 2; xmem[6].maximum = 5;
  xmem[7].initial = xmem[7].pages = 1; xmem[7].maximum = 4; xmem[7].fixed = 1;
  for (int k = 0; k < 4; k++) { xtab[k].elem_type = 0x70; xtab[k].initial = xtab[k].maximum = xtab[k].size = (int[]){16, 4, 3, 6}[k]; xtab[k].entries = tent[k]; }
  if (argc == 4 && !strcmp(argv[1], "compile")) {
    if (load_batch(argv[2], 0)) return 9;
    printf("done\n"); fflush(stdout);
    x_snapshot(argv[3]);
    return 0;
  }
  if (argc == 4 && !strcmp(argv[1], "replay")) {
    if (load_batch(argv[2], 1)) return 9;
    printf("loaded\n"); fflush(stdout);
    return do_replay(argv[3]);
  }
  return 9;
}
