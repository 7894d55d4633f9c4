/* Verification kit: one harness text, two readings.
 *
 *  - CBMC reading (default): REQUIRES/ENSURES/ASSIGNS are CBMC code contracts
 *    attached to the real function (declared before the real .c file is
 *    included); INPUT() makes an object nondeterministic.
 *  - NATIVE reading (-DVK_NATIVE): the same harness is a replay driver for the
 *    real, natively compiled code: INPUT() loads the verifier's counterexample
 *    (or seeded random data), PRE() rejects inputs outside the precondition,
 *    POST()/PROVE() report a violated contract clause.
 */
#ifndef VK_KIT_H
#define VK_KIT_H
#ifdef VK_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define LOOP_INV(...)
void vk_load(const char *name, void *p, unsigned long n);
void vk_reject(void);
void vk_fail(const char *what);
unsigned vk_rand(void);
int vk_random_mode(void);
#define INPUT(x)        vk_load(#x, (void *) &(x), sizeof(x))
#define PRE(c)          do { if (!(c)) vk_reject(); } while (0)
#define POST(c, what)   do { if (!(c)) vk_fail(what); } while (0)
#define PROVE(c, what)  do { if (!(c)) vk_fail(what); } while (0)
#define REACH()         do { } while (0)
#define SPEC_BEGIN
#define SPEC_END
#define VK_IS_NATIVE 1
#else
#define VK_IS_NATIVE 0
#define REQUIRES(...)   __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...)    __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...)    __CPROVER_assigns(__VA_ARGS__)
#define INPUT(x)        __CPROVER_havoc_object((void *) &(x))
#define PRE(c)          __CPROVER_assume(c)
/* in units where the contract instrumentation (--dfcc) enforces the contract the verifier itself checks ensures()
 * and the extra POST() is only for the native reading; in "plain" units PRE() and POST() around the single call
 * are the enforced requires and ensures clauses */
#ifdef VK_PLAIN
#define POST(c, what)   __CPROVER_assert(c, what)
#else
#define POST(c, what)   do { } while (0)
#endif
#define PROVE(c, what)  __CPROVER_assert(c, what)
#define REACH()         __CPROVER_assert(0, "VACUITY")
#define VK_PRAGMA(x) _Pragma(#x)
#define SPEC_BEGIN \
  VK_PRAGMA(CPROVER check push) VK_PRAGMA(CPROVER check disable "bounds") \
  VK_PRAGMA(CPROVER check disable "pointer") \
  VK_PRAGMA(CPROVER check disable "signed-overflow") \
  VK_PRAGMA(CPROVER check disable "undefined-shift") \
  VK_PRAGMA(CPROVER check disable "pointer-primitive") \
  VK_PRAGMA(CPROVER check disable "div-by-zero")
#define SPEC_END VK_PRAGMA(CPROVER check pop)
#endif
#endif
