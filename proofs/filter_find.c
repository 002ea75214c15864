// @props: P17
// @functions: bminit bmfind
// @level: bounded
// @bound: search texts of 1..4 characters in texts of 6, all byte values, from the first or second character
// @parts: 1 2 3 4
// @unwind: 12
// @hunwind: 12
// @lunwind: 12
// @flags: --sat-solver minisat2
// @unwindset: bminit.0:258 bminit.1:258 bminit.2:258
// @desc: the filter's substring search finds the first occurrence, regardless of case, and never reads outside the text
#include <crashmail/crashmail.h>
#include <ctype.h>
#define T 6
struct vf_input { char pat[4]; char text[T]; uint8_t n,start; };
#include "vf.h"
static char pat[VF_PART+1]; static char txt[T];
void bminit(char *); long bmfind(char *pat,char *text,long textlen,long start);
static int low(char c) { return c>='A' && c<='Z' ? c+32 : c; }
void vf_harness(void)
{
   VF_INPUT();
   long i,j,want=-1,got; const long n=T; char *t;
   VF_ASSUME(vf_in.start<=1);
   for(i=0;i<VF_PART;i++) { VF_ASSUME(vf_in.pat[i]!=0); pat[i]=vf_in.pat[i]; }
   pat[VF_PART]=0;
   t=txt+(T-n);
   for(i=0;i<T;i++) txt[i]=vf_in.text[i];
   for(i=T-1;i>=0;i--)
      if(i>=vf_in.start && i+VF_PART<=n)
      {
         int eq=1;
         for(j=0;j<VF_PART;j++) if(low(t[i+j])!=low(pat[j])) eq=0;
         if(eq) want=i;
      }
   bminit(pat);
   got=bmfind(pat,t,n,vf_in.start);
   VF_CHECK(got==want,"substring search: first occurrence from the starting point, case ignored, -1 if there is none");
   VF_REACH("end");
}
