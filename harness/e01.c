/* E01: the regular-expression JIT.  Patterns are generated from syntax trees, so that their language is known without parsing; the compiled
   matcher runs over a string of unconstrained bytes, in one or several pieces, and its answer is compared with that of a set simulation of the tree. */
#include "hlib.h"
#include <regexJIT.h>
enum { CHR, ANY, SET, EMP, CAT, ALT, STAR, PLUS, OPT, REP };
struct nd { u8 t, inv; short a, b; int lo, hi; u8 set[8], setn; char rng[4][2]; u8 nr; };
struct pat { struct nd n[48]; int nn, root, flags, len, alts, alt[3], id[3]; char s[160]; };
#define NP 1500
#define NL 1200       /* from here on ^ . $ mean lines */
#define NG 1400       /* from here on not greedy */
static struct pat *P[NP]; static u64 rs;
static u32 rnd(u32 m) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 33) % m; }
static void pc(struct pat *p, char c) { p->s[p->len++] = c; }
static void pn(struct pat *p, int v) { if (v >= 10) pc(p, '0' + v / 10); pc(p, '0' + v % 10); }
static int nw(struct pat *p, int t, int a, int b) { struct nd *n = &p->n[p->nn]; n->t = t; n->a = a; n->b = b; return p->nn++; }
static const char al[] = "aabbc\xe9z*";
static char ch(void) { return al[rnd(8)]; }
static int gen(struct pat *p, int d, int lvl);          /* lvl 0 alternation, 1 sequence, 2 repeated, 3 atom */
static int atom(struct pat *p, int d) {
  int r = rnd(d > 0 ? 14 : 9);
  if (p->nn > 36 || p->len > 100) r = 0;
  if (r <= 4) { char c = ch(); int k = nw(p, CHR, 0, 0); p->n[k].set[0] = c; if (c == '*') pc(p, '\\'); pc(p, c); return k; }
  if (r == 5) { pc(p, '.'); return nw(p, ANY, 0, 0); }
  if (r <= 8) {
    int k = nw(p, SET, 0, 0); struct nd *n = &p->n[k]; pc(p, '['); if (rnd(2)) { pc(p, '^'); n->inv = 1; }
    if (rnd(4) == 0) { pc(p, ']'); n->set[n->setn++] = ']'; }
    int m = 1 + rnd(2); for (int i = 0; i < m; i++) {
      if (rnd(2)) { char lo = "a0A"[rnd(3)], hi = lo + rnd(9); if (rnd(4) == 0) { pc(p, hi); pc(p, '-'); pc(p, lo); } else { pc(p, lo); pc(p, '-'); pc(p, hi); } n->rng[n->nr][0] = lo; n->rng[n->nr++][1] = hi; }
      else { char c = ch(); if (rnd(4) == 0) pc(p, '\\'); pc(p, c); n->set[n->setn++] = c; } }
    pc(p, ']'); return k;
  }
  if (r == 9) { pc(p, '('); pc(p, ')'); return nw(p, EMP, 0, 0); }
  pc(p, '('); int k = gen(p, d - 1, 0); pc(p, ')'); return k;
}
static int gen(struct pat *p, int d, int lvl) {
  if (lvl == 0) { int k = gen(p, d, 1); while (rnd(3) == 0 && p->nn < 30) { pc(p, '|'); int q = rnd(9) ? gen(p, d, 1) : nw(p, EMP, 0, 0); k = nw(p, ALT, k, q); } return k; }
  if (lvl == 1) { int k = gen(p, d, 2); while (rnd(5) < 3 && p->nn < 30) k = nw(p, CAT, k, gen(p, d, 2)); return k; }
  int k = atom(p, d), r = rnd(9);
  if (r == 0) { pc(p, '*'); k = nw(p, STAR, k, 0); }
  else if (r == 1) { pc(p, '+'); k = nw(p, PLUS, k, 0); }
  else if (r == 2) { pc(p, '?'); k = nw(p, OPT, k, 0); }
  else if (r == 3) {
    k = nw(p, REP, k, 0); int lo = rnd(3), hi = lo + rnd(3); if (hi == 0) hi = 1; int f = rnd(4);
    pc(p, '{'); if (f == 0) { hi = lo; if (!lo) lo = hi = 2; pn(p, lo); } else if (f == 1) { pn(p, lo); pc(p, ','); hi = -1; } else if (f == 2) { pc(p, ','); pn(p, hi); lo = 0; } else { pn(p, lo); pc(p, ','); pn(p, hi); } pc(p, '}');
    p->n[k].lo = lo; p->n[k].hi = hi;
  }
  return k;
}
static struct regex_machine *M[NP];
static void build(int k) {
  struct pat *p = P[k] = calloc(1, sizeof *p); rs = (k + 1) * 0x9e3779b97f4a7c15ul; for (int i = 0; i < 9; i++) rnd(3);
  if (k % 6 == 5) {                                     /* alternatives with numbers */
    p->alts = 2 + rnd(2); int prev = -1;
    for (int i = 0; i < p->alts; i++) { if (i) pc(p, '|'); p->alt[i] = gen(p, 1, 1); p->id[i] = 1 + (i * 7 + k) % 5; pc(p, '{'); pn(p, p->id[i]); pc(p, '!'); pc(p, '}'); prev = i ? nw(p, ALT, prev, p->alt[i]) : p->alt[0]; }
    p->root = prev;
  } else { int f = rnd(6); if (f == 0) { pc(p, '^'); p->flags |= REGEX_MATCH_BEGIN; } p->root = gen(p, 2, f == 0 || f == 1 ? 1 : 0); if (f <= 1 && rnd(2)) { pc(p, '$'); p->flags |= REGEX_MATCH_END; }
    if (f > 1 && rnd(4) == 0) p->flags |= rnd(2) ? REGEX_MATCH_BEGIN : REGEX_MATCH_END; }
  if (k >= NL) p->flags |= k >= NG ? REGEX_MATCH_NON_GREEDY : REGEX_NEWLINE;
}
static int comp(int k) { int err = -1; M[k] = regex_compile(P[k]->s, P[k]->len, P[k]->flags, &err); return err; }
#define N 5
static u8 S[N + 3]; static int n; static u32 mk[48]; static u8 have[48];
static u32 leaf(const struct pat *p, int k) {           /* which positions hold a byte the leaf accepts */
  if (have[k]) return mk[k];
  const struct nd *d = &p->n[k]; u32 m = 0;
  for (int i = 0; i < n; i++) {
    u32 in = 0; u8 c = S[i];
    if (d->t == CHR) in = c == d->set[0];
    else if (d->t == ANY) in = !(p->flags & REGEX_NEWLINE) | ((c != 10) & (c != 13));
    else { for (int j = 0; j < d->setn; j++) in |= c == d->set[j]; for (int j = 0; j < d->nr; j++) in |= (c >= (u8)d->rng[j][0]) & (c <= (u8)d->rng[j][1]); in ^= d->inv; }
    m |= in << i;
  }
  mk[k] = sym_pick(m); have[k] = 1; return mk[k];
}
static u32 step(const struct pat *p, int k, u32 m) {
  const struct nd *d = &p->n[k]; u32 o, r;
  if (!m) return 0;
  switch (d->t) {
  case CHR: case ANY: case SET: return (m & leaf(p, k)) << 1;
  case EMP: return m;
  case CAT: return step(p, d->b, step(p, d->a, m));
  case ALT: return step(p, d->a, m) | step(p, d->b, m);
  case OPT: return m | step(p, d->a, m);
  case STAR: case PLUS: r = d->t == STAR ? m : 0; o = m; for (int i = 0; i <= n + 1; i++) { o = step(p, d->a, o); r |= o; } return r;
  default: o = m; for (int i = 0; i < d->lo; i++) o = step(p, d->a, o); r = o;
    for (int i = d->lo; d->hi < 0 ? i <= d->lo + n + 1 : i < d->hi; i++) { o = step(p, d->a, o); r |= o; } return r;
  }
}
static u32 lines(void) { u32 m = 0; for (int i = 0; i < n; i++) m |= (u32)((S[i] == 10) | (S[i] == 13)) << i; return sym_pick(m); }
static void expect(const struct pat *p, int *b, int *e, int *id) {
  u32 from = ~0u, to = ~0u, nl = p->flags & REGEX_NEWLINE ? lines() : 0;
  if (p->flags & REGEX_MATCH_BEGIN) from = 1 | nl << 1;
  if (p->flags & REGEX_MATCH_END) to = 1u << n | nl;
  *b = *e = -1; *id = 0;
  for (int i = 0; i <= n; i++) {
    if (!(from >> i & 1)) continue;
    u32 r = step(p, p->root, 1u << i) & to;
    if (!r) continue;
    *b = i; for (int j = i; j <= n; j++) if (r >> j & 1) { *e = j; if (p->flags & REGEX_MATCH_NON_GREEDY) break; }
    int c = 0; for (int a = 0; a < p->alts; a++) if (step(p, p->alt[a], 1u << i) >> *e & 1) { c++; *id = p->id[a]; }
    if (c > 1) *id = -1;                                 /* which of them is not defined */
    return;
  }
}
static void check(struct regex_match *m, const struct pat *p, const char *what) {
  int e = -7, id = -7, b = sym_pick(regex_get_result(m, &e, &id)), xb, xe, xid; e = sym_pick(e); id = sym_pick(id);
  expect(p, &xb, &xe, &xid);
  sym_assert(b == xb, b == -1 ? "a match is not found" : xb == -1 ? "a match is found where there is none" : "the match begins somewhere else");
  if (b >= 0) { sym_assert(e == xe, "the match ends somewhere else"); if (p->alts && xid >= 0) sym_assert(id == xid, "the match has another identifier"); }
  sym_reach(b >= 0 ? "match" : "no match");
}
static void fresh(const char *nm, int len) { n = len; memset(have, 0, sizeof have); sym_bytes(S, len, (char *)nm); }
static void run(long k, int len, int cut) {
  const struct pat *p = P[k];
  sym_assert(M[k] != 0, "a pattern is not compiled");
  struct regex_match *m = regex_begin_match(M[k]);
  fresh("s", len);
  int fb = 0, fe = 0, fi = 0, fin = 0;
  if (cut > 0) { regex_continue_match(m, (char *)S, cut); fin = sym_pick(regex_is_match_finished(m)); if (fin) fb = regex_get_result(m, &fe, &fi); }
  regex_continue_match(m, (char *)S + cut, len - cut);
  if (fin) { int e, i, b = regex_get_result(m, &e, &i); sym_assert((b == fb) & ((b < 0) | (e == fe)), "a match that was reported as final changes"); }
  check(m, p, "");
  regex_free_match(m);
}
/* the strings of the larger patterns are one byte shorter */
static int big(long k) { const struct pat *p = P[k]; int c = 0; for (int i = 0; i < p->nn; i++) c += p->n[i].t <= SET ? 2 : p->n[i].t == REP ? 3 : p->n[i].t == STAR || p->n[i].t == PLUS; return c > 13; }
static void h_match(long k) { run(k, 4 - big(k), 0); }
static void h_longer(long k) { run(k, N - big(k), 0); }
static void h_split(long k) { int l = 4 - big(k); run(k, l, 1 + k % (l - 1)); }
static void h_short(long k) { run(k, 1 + k % 2, 0); }
/* a second string after a reset */
static void h_reset(long k) {
  const struct pat *p = P[k]; struct regex_match *m = regex_begin_match(M[k]);
  int l = 2 - big(k); fresh("r", l); regex_continue_match(m, (char *)S, l);
  regex_reset_match(m);
  fresh("s", 2); regex_continue_match(m, (char *)S, 2);
  check(m, p, ""); regex_free_match(m);
}
void h_setup(void) { for (int k = 0; k < NP; k++) { build(k); int e = comp(k); if (e) { printf("pattern %s: %d\n", P[k]->s, e); fflush(stdout); exit(8); } }
#ifdef COUNT
  for (int k = 0; k < NP; k++) printf("%d: %s %d\n", k, P[k]->s, P[k]->flags);
#endif
}
struct xh harnesses[] = {{"match", h_match, NP}, {"longer", h_longer, NP}, {"split", h_split, NP}, {"short", h_short, NP}, {"reset", h_reset, NP}, {0}};
