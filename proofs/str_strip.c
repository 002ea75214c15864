// @props: P06
// @functions: striptrail striplead stripleadtrail
// @level: bounded
// @bound: texts of up to 12 characters (quick) / 24 (thorough); all byte values
// @defs: -DN=12
// @unwind: 15
// @thorough_defs: -UN -DN=24
// @thorough_unwind: 27
// @desc: stripping removes exactly the leading spaces and the trailing blanks/control characters
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <crashmail/crashmail.h>
struct vf_input { char s[N+1]; unsigned char n,which; };
#include "vf.h"
void vf_harness(void)
{
   VF_INPUT();
   int n=vf_in.n,i,a=0,b; VF_ASSUME(n<=N);
   static char sb[N+1]; char *s=(vf_in.which&2) ? sb : sb+(N-n);   /* against the start or the end of its object */
   for(i=0;i<n;i++) { VF_ASSUME(vf_in.s[i]!=0); s[i]=vf_in.s[i]; }
   s[n]=0; b=n;
   if(vf_in.which&1) { stripleadtrail(s); while(a<n && vf_in.s[a]==' ') a++; VF_REACH("both"); }
   else { striptrail(s); VF_REACH("trail"); }
   while(b>a && (unsigned char)vf_in.s[b-1]<=32) b--;
   for(i=a;i<b;i++) VF_CHECK(s[i-a]==vf_in.s[i],"strip: the text itself is kept");
   VF_CHECK(s[b-a]==0,"strip: trailing blanks removed, nothing else");
   if(n==0) VF_REACH("empty");
   if(b-a>3) VF_REACH("text");
}
