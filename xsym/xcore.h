#ifndef XCORE_H
#define XCORE_H
void x_snapshot(const char *path);
void x_replay_open(const char *path);
void sym_bytes(void *p, unsigned long n, const char *name);
void sym_assume(int c);
void sym_assert(int c, const char *what);
void sym_reach(const char *what);
void sym_note(const char *what, unsigned long v);
unsigned long sym_pick(unsigned long v);
void sym_clobber(void);
unsigned long sym_alloc_size(void *p);
unsigned long sym_live(void);
unsigned long sym_maps(void);
unsigned long sym_mapped(void *p, unsigned long n);
void sym_region(unsigned long p, unsigned long n, int on);
void sym_fail(unsigned long k);
struct xh { const char *name; void (*fn)(long); long args; };
#define NI __attribute__((noinline, noclone))
#endif
