/* helpers of the demonstrations: built with /repo's sources (cwd), reads files beside the demo */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include "pwart.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static char *slurp(const char *f, int *n) {
  const char *dir = getenv("DEMO_DIR"); char p[4096]; snprintf(p, sizeof p, "%s/%s", dir ? dir : ".", f);
  FILE *h = fopen(p, "rb"); if (!h) { perror(p); exit(3); }
  static char buf[1 << 20]; *n = fread(buf, 1, sizeof buf, h); fclose(h);
  char *r = malloc(*n + 1); memcpy(r, buf, *n); return r;
}
static void cfg(int stack, int misc) {
  struct pwart_global_compile_config c; pwart_get_global_compile_config(&c);
  c.stack_flags = stack; c.misc_flags = misc; pwart_set_global_compile_config(&c);
}
static pwart_module_state load(const char *f) {
  int n; char *e = NULL, *d = slurp(f, &n); pwart_module_state m = pwart_load_module(d, n, &e);
  if (!m) { fprintf(stderr, "load: %s\n", e ? e : "?"); exit(3); } return m;
}
static pwart_wasm_function fn(pwart_module_state m, const char *name) {
  pwart_wasm_function f = pwart_get_export_function(m, name); if (!f) { fprintf(stderr, "no %s\n", name); exit(3); } return f;
}
