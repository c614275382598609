/* Shared helpers of the harnesses: module builder in C, symbolic scalars. */
#ifndef HLIB_H
#define HLIB_H
#include "xcore.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef long s64;
static char *x_nm(const char *n, long k) { static char b[64]; int i = 0; while (n[i]) { b[i] = n[i]; i++; }
  if (k >= 0) { b[i++] = '_'; if (k >= 100) b[i++] = '0' + k / 100; if (k >= 10) b[i++] = '0' + k / 10 % 10; b[i++] = '0' + k % 10; } b[i] = 0; return b; }
static u64 in64(const char *n, long k) { u64 v; sym_bytes(&v, 8, x_nm(n, k)); return v; }
static u32 in32(const char *n, long k) { u32 v; sym_bytes(&v, 4, x_nm(n, k)); return v; }
static u8 in8(const char *n, long k) { u8 v; sym_bytes(&v, 1, x_nm(n, k)); return v; }
/* one of 0..n-1, one path each */
static u64 in_pick(const char *n, long k, u64 lim) { u8 v = in8(n, k); sym_assume(v < lim); return sym_pick(v); }
struct mb { u8 b[8192]; int n; };
static void mb1(struct mb *m, int v) { m->b[m->n++] = v; }
static void mbu(struct mb *m, u64 v) { do { mb1(m, (v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); }
static void mbs(struct mb *m, const char *s) { int n = strlen(s); mbu(m, n); for (int i = 0; i < n; i++) mb1(m, s[i]); }
static void mbcat(struct mb *m, const struct mb *x) { for (int i = 0; i < x->n; i++) mb1(m, x->b[i]); }
static void mbhdr(struct mb *m) { m->n = 0; const u8 h[8] = {0, 'a', 's', 'm', 1, 0, 0, 0}; for (int i = 0; i < 8; i++) mb1(m, h[i]); }
static void mbsec(struct mb *m, int id, const struct mb *x) { mb1(m, id); mbu(m, x->n); mbcat(m, x); }
#endif
