/* Entry point of the native replay: loads the counterexample (generated file
   vf_cex.h assigns the fields of vf_in) and runs the harness on real code. */
#include <stdio.h>
#include <stdlib.h>
void vf_harness(void);
void vf_load(void);
void vf_native_assume(int c,const char *txt)
{ if(!c){ fflush(stdout); fprintf(stderr,"VF-ASSUME-FALSE %s\n",txt); _Exit(77);} }
void vf_native_check(int c,const char *name)
{ if(!c){ fflush(stdout); fprintf(stderr,"VF-CHECK-FAILED %s\n",name); _Exit(1);} }
int main(int argc,char **argv)
{ vf_load(); vf_harness(); fprintf(stderr,"VF-REPLAY-OK\n"); _Exit(0); }
