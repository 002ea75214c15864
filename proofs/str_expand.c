// @props: P06
// @functions: ExpandPacker ExpandFilter
// @level: bounded
// @bound: command templates of up to 4 characters (all byte values), substituted texts of 0..3 characters, buffers of 1, 4 and 10 bytes
// @defs: -DN=4 -DA=3
// @parts: 0 1 2 3 4 5
// @unwind: 13
// @desc: expanding a command template never leaves the buffer and substitutes every placeholder
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <crashmail/crashmail.h>
struct vf_input { char c[N+1],a0[A+1]; unsigned char cl; };
#include "vf.h"
#define M (VF_PART<2 ? 10 : VF_PART<4 ? 4 : 1)
void vf_harness(void)
{
   VF_INPUT();
   uint32_t cl=vf_in.cl,size=M,i,j,k=0; char want[N*A+2],*d,*c; char *t[10];
   VF_ASSUME(cl<=N);
   static char cb[N+1],db[M]; c=cb+(N-cl); d=db;
   for(i=0;i<cl;i++) { VF_ASSUME(vf_in.c[i]!=0); c[i]=vf_in.c[i]; }
   c[cl]=0;
   static char *fixed[10]={ "","","B","cc","ddd","e","fff","g","h","kk" };
   VF_ASSUME(vf_in.a0[A]==0);
   for(j=0;j<10;j++) t[j]=fixed[j];
   t[0]=vf_in.a0; t[1]="yy";
   for(i=0;i<cl;i++)
   {
      int s=-1;
      if(c[i]=='%')
      {
         char x=c[i+1],l=(x>='A' && x<='Z') ? x+32 : x;
#if (VF_PART&1)==0
         if(l=='a') s=0; else if(l=='f') s=1;
#else
         if(x=='r') s=0; else if(x=='R') s=1; else if(l=='m') s=2; else if(x=='a') s=3; else if(l=='s') s=4;
         else if(l=='x') s=5; else if(l=='f') s=6; else if(l=='t') s=7; else if(l=='o') s=8; else if(l=='d') s=9;
#endif
         if(s>=0) { for(j=0;j<A && t[s][j];j++) want[k++]=t[s][j]; i++; }
         else if(x!=0) { want[k++]=x; i++; }
         else want[k++]='%';
      }
      else want[k++]=c[i];
   }
#if (VF_PART&1)==0
   ExpandPacker(c,d,size,t[0],t[1]);
#else
   ExpandFilter(c,d,size,t[0],t[1],t[2],t[3],t[4],t[5],t[6],t[7],t[8],t[9]);
#endif
   for(i=0;i<k && i<size-1;i++) VF_CHECK(d[i]==want[i],"template expansion: placeholders replaced, other characters kept, cut at the buffer");
   VF_CHECK(d[i]==0,"template expansion: terminated");
   if(k>3) VF_REACH("long");
}
