/* Verification macros shared by all proof harnesses.

   The same harness text is used twice:
     - compiled by goto-cc and decided by cbmc (VF_NATIVE undefined): every
       input is nondeterministic, every obligation is discharged for all of
       them;
     - compiled by gcc with ASan/UBSan against the real sources
       (VF_NATIVE defined): the input is the verifier's counterexample, so a
       reported violation is replayed against the code that really runs.

   A harness defines `struct vf_input`, then includes this file, then the
   contracts, then `void vf_harness(void)`.                                  */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>

extern struct vf_input vf_in;

#ifdef VF_NATIVE
void vf_native_assume(int c,const char *txt);
void vf_native_check(int c,const char *name);
#define VF_ASSUME(c)      vf_native_assume(!!(c),#c)
#define VF_CHECK(c,name)  vf_native_check(!!(c),name)
#define VF_REACH(tag)     do{}while(0)
#define VF_REQUIRES(c)
#define VF_ENSURES(c)
#define VF_ASSIGNS(...)
#define VF_RET            0
#define VF_INPUT()        do{}while(0)
struct vf_input vf_in;
#else
#define VF_ASSUME(c)      __CPROVER_assume(c)
#define VF_CHECK(c,name)  __CPROVER_assert(c,name)
/* Vacuity guard: the driver demands that this assertion FAILS, i.e. that the
   point is reachable under the preconditions. */
#define VF_REACH(tag)     __CPROVER_assert(0,"REACH " tag)
#define VF_REQUIRES(c)    __CPROVER_requires(c)
#define VF_ENSURES(c)     __CPROVER_ensures(c)
#define VF_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
#define VF_RET            __CPROVER_return_value
struct vf_input vf_in;
#define VF_INPUT()        do{ struct vf_input vf_nd; vf_in=vf_nd; }while(0)
#endif

void vf_harness(void);
#endif
