// @props: P01
// @functions: Parse4D Parse4DTemplate Copy4D
// @level: bounded
// @bound: address texts with the digit counts listed in shapes[] (1/1/1, 5/5/5, mixed, with and without point); all digit values
// @unwind: 26
// @desc: the canonical text of every address parses back to that address (for fixed digit counts per part, leading zeros allowed)
#include <stdint.h>
#include <string.h>
#include <shared/node4d.h>
struct vf_input { unsigned char d[4][5]; struct Node4D junk; };
#include "vf.h"
#include "spec_node.h"

static unsigned value(int f,int n) { unsigned v=0,q=1; int i; for(i=0;i<n;i++) { v+=vf_in.d[f][i]*q; q*=10; } return v; }
static int text(int f,int n,char *s,int p) { int i; for(i=n-1;i>=0;i--) s[p++]='0'+vf_in.d[f][i]; return p; }

static void shape(int lz,int ln,int lo,int lp)
{
   char s[24]; int p=0; struct Node4D out=vf_in.junk;
   unsigned z=value(0,lz),n=value(1,ln),o=value(2,lo),q=value(3,lp);
   if(z>65535 || n>65535 || o>65535 || q>65535) return;
   p=text(0,lz,s,p); s[p++]=':';
   p=text(1,ln,s,p); s[p++]='/';
   p=text(2,lo,s,p);
   if(lp) { s[p++]='.'; p=text(3,lp,s,p); }
   s[p]=0;
   VF_CHECK(Parse4D(s,&out),"Parse4D: accepts every canonical address text");
   VF_CHECK(out.Zone==z && out.Net==n && out.Node==o && out.Point==q,"Parse4D: reads back every part");
}

void vf_harness(void)
{
   VF_INPUT();
   int f,i;
   for(f=0;f<4;f++) for(i=0;i<5;i++) VF_ASSUME(vf_in.d[f][i]<10);
   shape(5,5,5,5); shape(5,5,5,0); shape(1,2,3,4); shape(4,3,2,1); shape(1,1,1,1); shape(1,3,4,0);
   VF_REACH("end");
}
