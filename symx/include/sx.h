/* Harness API.  Two implementations: symx/rt (symbolic) and symx/native (replay of a
 * counterexample against an ordinary build of the same sources). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdio.h>
#include <stdint.h>

unsigned char sx_byte(const char *name);                    /* fresh symbolic byte, 0..255 */
unsigned sx_range(const char *name, unsigned lo, unsigned hi); /* symbolic value lo..hi (<=255), no fork */
unsigned sx_choice(const char *name, unsigned n);           /* value 0..n-1, the engine forks on it (n<=256) */
int sx_fork(int v);                                         /* make a symbolic value concrete by forking on its feasible values */
void sx_assume_(int cond);
void sx_assert_(int cond, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *tag);                             /* this point was reached on some feasible path */
long sx_param(const char *name, long dflt);                 /* bound, set on the command line */
void sx_log(const char *fmt, const char *s, long v);
/* heap monitoring */
long sx_live_allocs(void);                                  /* live heap objects of the code under test */
void sx_arm_alloc_failure(unsigned maxindex);               /* symbolic fault: allocation number K (0..maxindex-1 from now) fails, or none */
int  sx_disarm_alloc_failure(void);                         /* returns 1 if the fault was injected */
void sx_symbolic_garbage(int on);                           /* contents of fresh malloc memory become unconstrained symbols */
void sx_no_uninit_branch(int on);                           /* with symbolic garbage: a branch depending on it is a violation */
void sx_symbolic_rand(int on);                              /* rand() returns an unconstrained byte */
void sx_allow_exit(int on);                                 /* exit() ends the path normally instead of being a violation */
/* in-memory streams */
FILE *sx_mem_reader(const void *buf, size_t n);
FILE *sx_mem_writer(void);
const char *sx_mem_data(FILE *f, size_t *n);                /* contents written so far (NUL-terminated) */
void sx_mem_close(FILE *f);
void *sx_raw_alloc(size_t n);                               /* not counted, never fails */

#define sx_assume(c) sx_assume_((c) ? 1 : 0)
#define sx_assert(c, m) sx_assert_((c) ? 1 : 0, m)
#endif
