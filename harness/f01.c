/* F01: the bindings of libuv and libffi.  The libraries are replaced by stand-ins that record what they were given and return arbitrary values. */
#include "hlib.h"
#define PWART_SYSLIB_LIBFFI_ENABLED 1
#include "../pwart_syslib/libffi.c"
#include "../pwart_syslib/libuv.c"
static ffi_closure theclo; static u64 rec[8], ret, out; static int nrec; static const char *who;
static void R(const char *w, int n, u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) { sym_assert(!who, "the library is called more than once"); who = w; nrec = n; rec[0] = a; rec[1] = b; rec[2] = c; rec[3] = d; rec[4] = e; rec[5] = f; }
ffi_type ffi_type_void = {1, 1, FFI_TYPE_VOID}, ffi_type_uint32 = {4, 4, FFI_TYPE_UINT32}, ffi_type_sint32 = {4, 4, FFI_TYPE_SINT32}, ffi_type_uint64 = {8, 8, FFI_TYPE_UINT64},
  ffi_type_sint64 = {8, 8, FFI_TYPE_SINT64}, ffi_type_float = {4, 4, FFI_TYPE_FLOAT}, ffi_type_double = {8, 8, FFI_TYPE_DOUBLE}, ffi_type_pointer = {8, 8, FFI_TYPE_POINTER};
static ffi_cif *ccif; static void (*cfun)(ffi_cif *, void *, void **, void *); static void *cuser; static void *cclo, *ccode;
#define P(x) ((u64)(x))
ffi_status ffi_prep_cif(ffi_cif *c, ffi_abi abi, unsigned n, ffi_type *r, ffi_type **a) { R("ffi_prep_cif", 5, P(c), abi, n, P(r), P(a), 0); return ret; }
ffi_status ffi_prep_cif_var(ffi_cif *c, ffi_abi abi, unsigned f, unsigned n, ffi_type *r, ffi_type **a) { R("ffi_prep_cif_var", 6, P(c), abi, f, n, P(r), P(a)); return ret; }
static u64 avals[8];
void ffi_call(ffi_cif *c, void (*fn)(void), void *rv, void **av) { R("ffi_call", 4, P(c), P(fn), P(rv), P(av), 0, 0); if (ccif && c == (void *)ccif) for (int i = 0; i < c->nargs; i++) avals[i] = P(av[i]); }
void *ffi_closure_alloc(size_t s, void **code) { R("ffi_closure_alloc", 0, s, 0, 0, 0, 0, 0); sym_assert(s >= sizeof(ffi_closure), "the closure is too small"); *code = (void *)out; return (void *)ret; }
void ffi_closure_free(void *p) { R("ffi_closure_free", 1, P(p), 0, 0, 0, 0, 0); }
ffi_status ffi_prep_closure_loc(ffi_closure *clo, ffi_cif *cif, void (*fun)(ffi_cif *, void *, void **, void *), void *user, void *code) { cclo = clo; ccif = cif; cfun = fun; cuser = user; ccode = code; clo->cif = cif; clo->fun = fun; clo->user_data = user; return 0; }
unsigned uv_version(void) { R("uv_version", 0, 0, 0, 0, 0, 0, 0); return ret; }
int uv_dlopen(const char *f, uv_lib_t *l) { R("uv_dlopen", 1, P(f), P(l), 0, 0, 0, 0); l->errmsg = 0; l->handle = 0; return ret; }
int uv_dlsym(uv_lib_t *l, const char *n, void **p) { R("uv_dlsym", 2, P(l), P(n), 0, 0, 0, 0); *p = (void *)out; return ret; }
void uv_dlclose(uv_lib_t *l) { R("uv_dlclose", 1, P(l), 0, 0, 0, 0, 0); }
static void (*tent)(void *); static void *targ;
int uv_thread_create(uv_thread_t *t, void (*e)(void *), void *a) { R("uv_thread_create", 0, 0, 0, 0, 0, 0, 0); *(u64 *)t = ret; tent = e; targ = a; return 0; }
#define U1(n, T) void n(T *m) { R(#n, 1, P(m), 0, 0, 0, 0, 0); }
int uv_mutex_init(uv_mutex_t *m) { R("uv_mutex_init", 0, P(m), 0, 0, 0, 0, 0); memset(m, 0, sizeof *m); return 0; }
int uv_cond_init(uv_cond_t *m) { R("uv_cond_init", 0, P(m), 0, 0, 0, 0, 0); memset(m, 0, sizeof *m); return 0; }
U1(uv_mutex_destroy, uv_mutex_t) U1(uv_mutex_lock, uv_mutex_t) U1(uv_mutex_unlock, uv_mutex_t) U1(uv_cond_destroy, uv_cond_t) U1(uv_cond_signal, uv_cond_t)
int uv_mutex_trylock(uv_mutex_t *m) { R("uv_mutex_trylock", 1, P(m), 0, 0, 0, 0, 0); return ret; }
void uv_cond_wait(uv_cond_t *c, uv_mutex_t *m) { R("uv_cond_wait", 2, P(c), P(m), 0, 0, 0, 0); }
int uv_cond_timedwait(uv_cond_t *c, uv_mutex_t *m, uint64_t t) { R("uv_cond_timedwait", 3, P(c), P(m), t, 0, 0, 0); return ret; }
/* arguments and results: r reference, i i32, l i64; results: R what the library returned (reference), I the same (i32), o what it stored, h fresh memory, which the library was given, H fresh memory */
static struct { const char *name, *arg, *res; int freed; } T[] = {
  {"uv_version", "", "I"}, {"uv_dlopen", "r", "hI"}, {"uv_dlsym", "rr", "oI"}, {"uv_dlclose", "f", ""}, {"uv_mutex_init", "", "h"}, {"uv_mutex_destroy", "f", ""}, {"uv_mutex_lock", "r", ""},
  {"uv_mutex_unlock", "r", ""}, {"uv_mutex_trylock", "r", "I"}, {"uv_cond_init", "", "h"}, {"uv_cond_destroy", "f", ""}, {"uv_cond_signal", "r", ""}, {"uv_cond_wait", "rr", ""},
  {"ffi_prep_cif", "riirr", "I"}, {"ffi_prep_cif_var", "riiirr", "I"}, {"ffi_call", "rrrr", ""}, {"ffi_closure_alloc", "", "Ro"}, {"ffi_closure_free", "c", ""}};
#define NT (sizeof T / sizeof *T)
static pwart_host_function_c find(const char *n) {
  for (int i = 0; i < 14; i++) { if (!strcmp(libuv_funcname_list[i], n)) return libuv_funcsymbols_list[i]; if (!strcmp(libffi_funcname_list[i], n)) return libffi_funcsyms_list[i]; }
  return 0;
}
static u8 stk[160], was[160];
static u8 *base = stk + 32;
static void *top;                                        /* end of what a call may touch */
static int nb; static void begin(void) { who = 0; sym_bytes(stk, sizeof stk, x_nm("stack", nb++)); memcpy(was, stk, sizeof stk); top = base; }
static void touch(void *sp) { if (sp > top) top = sp; }
static void finish(void) { int bad = 0; for (u8 *p = stk; p < stk + sizeof stk; p++) if (p < base || p >= (u8 *)top) bad |= *p != was[p - stk]; sym_assert(!bad, "stack slots outside the arguments and results change"); }
static void h_each(long k) {
  pwart_host_function_c f = find(T[k].name); sym_assert(f != 0, "a function is missing"); begin();
  u64 a[8]; void *sp = base; int n = strlen(T[k].arg); long live0;
  for (int i = 0; i < n; i++) {
    if (T[k].arg[i] == 'i') { a[i] = in32("a", i); pwart_rstack_put_i32(&sp, a[i]); }
    else { a[i] = T[k].arg[i] == 'f' ? P(malloc(64)) : T[k].arg[i] == 'c' ? P(&theclo) : in64("a", i); pwart_rstack_put_ref(&sp, (void *)a[i]); } }
  touch(sp); ret = in64("ret", 0); out = in64("out", 0); if (n && T[k].arg[0] == 'c') theclo.user_data = malloc(16); else theclo.user_data = (void *)in64("old", 0); if (T[k].res[0] == 'R') ret = P(&theclo); live0 = sym_live();
  f(base);
  sym_assert(who && !strcmp(who, T[k].name), "another function of the library is called");
  for (int i = 0; i < n; i++) sym_assert(rec[i] == a[i], "an argument arrives changed");
  sp = base; int fresh = 0;
  for (const char *r = T[k].res; *r; r++) {
    if (*r == 'I') sym_assert(pwart_rstack_get_i32(&sp) == (u32)ret, "a result is not what the library returned");
    else if (*r == 'R') sym_assert(P(pwart_rstack_get_ref(&sp)) == ret, "a result is not what the library returned");
    else if (*r == 'o') sym_assert(P(pwart_rstack_get_ref(&sp)) == out, "a result is not what the library stored");
    else { fresh++; u64 v = P(pwart_rstack_get_ref(&sp)); sym_assert(v == rec[n], "the result is not the object the library initialised"); }
  }
  touch(sp); finish();
  sym_assert(sym_live() == live0 + fresh - (n && (T[k].arg[0] == 'f' || T[k].arg[0] == 'c')), "memory is lost or released");
}
/* "types>result" */
static void h_cif(long k) {
  begin(); static char s[8]; memset(s, 0, 8); const char L[] = "ilfdpvq"; ffi_type *const ty[] = {&ffi_type_uint32, &ffi_type_uint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer, &ffi_type_void, &ffi_type_pointer};
  int n = k / 3, form = k % 3, want[4], w = 5, i; for (i = 0; i < n; i++) { want[i] = n == 3 ? (int)in_pick("t", i, 3) * 2 % 7 + (i == 1) : (int)in_pick("t", i, 7); s[i] = L[want[i]]; }
  if (form) s[i++] = '>'; if (form == 2) { w = n == 3 ? (int)in_pick("r", 0, 3) + 3 : (int)in_pick("r", 0, 7); s[i] = L[w]; } else if (form == 1) { s[i] = 'i'; w = 0; }
  void *sp = base; pwart_rstack_put_ref(&sp, s); touch(sp); ret = in32("ret", 0); long l0 = sym_live();
  find("ffix_new_cif")(base);
  sp = base; u64 c = P(pwart_rstack_get_ref(&sp)); sym_assert(pwart_rstack_get_i32(&sp) == (u32)ret, "the status is not that of the library"); touch(sp); finish();
  sym_assert(who && !strcmp(who, "ffi_prep_cif") && rec[0] == c && rec[1] == FFI_DEFAULT_ABI && rec[2] == n && rec[3] == P(ty[w]), "the interface is described in another way");
  for (i = 0; i < n; i++) sym_assert(((ffi_type **)rec[4])[i] == ty[want[i]], "an argument has another type");
  begin(); sp = base; pwart_rstack_put_ref(&sp, (void *)c); touch(sp); find("ffix_del_cif")(base); finish(); sym_assert(sym_live() == l0, "memory is lost");
}
/* ffix_call: the arguments are successive 64 bit slots */
static ffi_cif tc; static ffi_type *tt[6];
static void cif(long k, int n) { ffi_type *const q[] = {&ffi_type_uint32, &ffi_type_uint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer}; for (int i = 0; i < n; i++) { tt[i] = q[k % 5]; k /= 5; } memset(&tc, 0, sizeof tc); tc.nargs = n; tc.arg_types = tt; tc.rtype = &ffi_type_uint64; ccif = &tc; }
static void h_ffix_call(long k) {
  cif(k, k); begin(); u64 fn = in64("fn", 0), rv = in64("rv", 0), av = in64("av", 0); void *sp = base; long l0 = sym_live();
  pwart_rstack_put_ref(&sp, &tc); pwart_rstack_put_ref(&sp, (void *)fn); pwart_rstack_put_ref(&sp, (void *)rv); pwart_rstack_put_ref(&sp, (void *)av); touch(sp);
  find("ffix_call")(base); finish();
  sym_assert(who && !strcmp(who, "ffi_call") && rec[0] == P(&tc) && rec[1] == fn && rec[2] == rv, "the call is passed on changed");
  for (int i = 0; i < k; i++) sym_assert(avals[i] == av + 8 * i, "an argument is taken from another place");
  sym_assert(sym_live() == l0, "memory is lost");
}
/* callbacks: the function that runs as the callback */
static u64 want_user, want_ret; static u64 argv[6]; static void *argp[6]; static int called, adapter;
static void target(void *fp) {
  void *sp = fp; called++;
  sym_assert(pwart_rstack_get_ref(&sp) == &tc, "the callback receives another interface");
  sym_assert(P(pwart_rstack_get_ref(&sp)) == want_ret, "the callback receives another place for its result");
  u8 *a = pwart_rstack_get_ref(&sp);
  if (!adapter) sym_assert(a == (u8 *)argp, "the callback receives other arguments");
  else for (int i = 0; i < tc.nargs; i++) sym_assert(!memcmp(a + 8 * i, &argv[i], tt[i]->size), "an argument of the callback is changed");
  sym_assert(P(pwart_rstack_get_ref(&sp)) == want_user, "the callback receives other user data");
}
static pwart_wasm_function wtarget, wthread;
static void h_callback(long k) {                         /* a % 2: adapter; then number of calls and types */
  adapter = k % 2; int calls = 1 + k / 2 % 3, n = k / 6 % 4; cif(k / 24 * 7 + k, n); begin();
  void *sp = base; long l1 = sym_live(); theclo.user_data = 0; ret = P(&theclo); out = in64("code", 0); want_user = in64("user", 0); u64 clo = ret, code = out;
  if (adapter) {
    pwart_rstack_put_ref(&sp, &tc); pwart_rstack_put_ref(&sp, wtarget); pwart_rstack_put_ref(&sp, (void *)want_user); touch(sp); find("ffix_new_c_callback")(base);
    sp = base; sym_assert(P(pwart_rstack_get_ref(&sp)) == clo && P(pwart_rstack_get_ref(&sp)) == code && pwart_rstack_get_i32(&sp) == 0, "the results of ffix_new_c_callback are others"); 
  } else {
    pwart_rstack_put_ref(&sp, (void *)clo); pwart_rstack_put_ref(&sp, &tc); pwart_rstack_put_ref(&sp, wtarget); pwart_rstack_put_ref(&sp, (void *)want_user); pwart_rstack_put_ref(&sp, (void *)code); touch(sp);
    find("ffi_prep_closure_loc")(base); sp = base; sym_assert(pwart_rstack_get_i32(&sp) == 0, "the status is not that of the library");
  }
  touch(sp); finish();
  sym_assert(cclo == (void *)clo && ccode == (void *)code && ccif == &tc, "the closure is prepared with other values");
  long l0 = sym_live(); called = 0;
  for (int c = 0; c < calls; c++) {
    want_ret = in64("rv", c); for (int i = 0; i < n; i++) { argv[i] = in64("v", 8 * c + i); argp[i] = &argv[i]; }
    cfun(&tc, (void *)want_ret, argp, cuser);
    sym_assert(called == c + 1, "the callback does not run"); if (c) sym_assert(sym_live() == l0, "each call of a callback takes memory"); l0 = sym_live();
  }
  begin(); sp = base; pwart_rstack_put_ref(&sp, (void *)clo); touch(sp); find(adapter ? "ffix_del_c_callback" : "ffi_closure_free")(base); finish();
  sym_assert(who && !strcmp(who, "ffi_closure_free") && rec[0] == clo, "the closure is not released"); sym_assert(sym_live() == l1, "a closure leaves memory behind");
}
/* threads */
static u64 want_arg; static void *tfp;
static void thread(void *fp) { void *sp = fp; called++; tfp = fp; sym_assert(pwart_rstack_get_i64(&sp) == want_arg, "the thread receives another argument"); memset(sp, 0x5a, 64 * 64); }
static void h_thread(long k) {
  begin(); want_arg = in64("arg", 0); ret = in64("tid", 0); void *sp = base; long l0 = sym_live();
  pwart_rstack_put_ref(&sp, wthread); pwart_rstack_put_i64(&sp, want_arg); touch(sp); find("uv_thread_create")(base);
  sp = base; u64 h = P(pwart_rstack_get_ref(&sp)); touch(sp); finish(); sym_assert(h == P(targ), "the handle is another one");
  called = 0; tent(targ); sym_assert(called == 1, "the function of the thread does not run"); sym_assert(sym_live() == l0, "a thread leaves memory behind");
}
static void h_fixed(long k) {
  begin(); void *sp;
  if (k == 0) { find("ffi_is_enabled")(base); sp = base; sym_assert(pwart_rstack_get_i32(&sp) == 1, "libffi is reported as missing"); }
  else if (k == 1) { find("ffi_default_abi")(base); sp = base; sym_assert(pwart_rstack_get_i32(&sp) == FFI_DEFAULT_ABI, "the default ABI is another one"); }
  else { ffi_type *const w[] = {&ffi_type_void, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer};
    find("ffi_built_in_types")(base); sp = base; for (int i = 0; i < 8; i++) sym_assert(pwart_rstack_get_ref(&sp) == w[i], "a built-in type is another one"); }
  touch(sp); finish(); sym_assert(!who, "the library is called");
}
void h_setup(void) { wtarget = pwart_wrap_host_function_c(target); wthread = pwart_wrap_host_function_c(thread); }
struct xh harnesses[] = {{"each", h_each, NT}, {"cif", h_cif, 12}, {"ffix_call", h_ffix_call, 5}, {"callback", h_callback, 48}, {"thread", h_thread, 1}, {"fixed", h_fixed, 3}, {0}};
