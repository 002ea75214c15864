// @props: P05
// @functions: osMatchPattern osIsPattern
// @level: bounded
// @bound: patterns and strings of up to 12 characters (quick) / 24 (thorough), all byte values
// @defs: -DN=12
// @unwind: 15
// @thorough_defs: -UN -DN=24
// @thorough_unwind: 27
// @desc: osMatchPattern matches exactly the documented strings
#include <stdint.h>
#include <oslib/os.h>
#include <oslib/ospattern.h>
struct vf_input { char p[N+1],s[N+1]; };
#include "vf.h"
static int low(char c) { return c>='A' && c<='Z' ? c+32 : c; }
static int spec(const char *p,const char *s)
{
   int i;
   for(i=0;i<=N;i++)
   {
      if(p[i]=='*') return 1;                       /* the rest of the string */
      if(p[i]==0 || s[i]==0) return p[i]==s[i];     /* both end together */
      if(p[i]!='?' && low(p[i])!=low(s[i])) return 0;
   }
   return 0;
}
void vf_harness(void)
{
   VF_INPUT();
   char p[N+1],s[N+1]; int i,r,w,wild=0;
   for(i=0;i<N;i++) { p[i]=vf_in.p[i]; s[i]=vf_in.s[i]; }
   p[N]=s[N]=0;
   r=osMatchPattern(p,s); w=spec(p,s);
   VF_CHECK(!!r==!!w,"osMatchPattern: '?' one character, '*' the rest, other characters themselves regardless of case");
   for(i=0;i<N && p[i];i++) if(p[i]=='*' || p[i]=='?') wild=1;
   VF_CHECK(!!osIsPattern(p)==wild,"osIsPattern: tells texts with wildcards");
   if(w) VF_REACH("match"); else VF_REACH("no match");
}
