/* Driver of the C harnesses: process snapshot for the executor, or native replay of one input. */
#define _GNU_SOURCE
#include "xcore.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern struct xh harnesses[];
extern void h_setup(void) __attribute__((weak));
void *sljit_create_compiler(void *) __attribute__((weak));     /* the first one runs cpuid */
void sljit_free_compiler(void *) __attribute__((weak));
extern long x_live, x_nmaps;
NI void h_end(void) { __asm__ volatile(""); }
int main(int argc, char **argv) {
  if (sljit_create_compiler) sljit_free_compiler(sljit_create_compiler(0));
  if (h_setup) h_setup();
  if (argc == 3 && !strcmp(argv[1], "snap")) {
    printf("ready\n"); fflush(stdout);
    x_snapshot(argv[2]);
    return 0;
  }
  if (argc == 5 && !strcmp(argv[1], "replay")) {
    alarm(20);
    for (struct xh *h = harnesses; h->name; h++) if (!strcmp(h->name, argv[2])) {
      x_replay_open(argv[4]);
      x_live = x_nmaps = 0;
      h->fn(atol(argv[3]));
      printf("REPLAY end\n");
      return 0;
    }
  }
  return 9;
}
