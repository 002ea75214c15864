// @props: P04
// @functions: ExpandNodePat iswildcard
// @unwind: 12
// @desc: ExpandNodePat delivers the documented destination for every destination pattern, address and nodelist answer
// @assume: a literal part of a destination pattern is a decimal number of at most 65535 (5 digits)
#include <crashmail/crashmail.h>
struct vf_input { char type; char f[4][10]; struct Node4D a,junk; unsigned char open; int region,hub; };
#include "vf.h"
#include "spec_node.h"
static struct Node4D asked; static int asks;
static long st_region(struct Node4D *n) { asked=*n; asks++; return vf_in.region; }
static long st_hub(struct Node4D *n)    { asked=*n; asks++; return vf_in.hub; }

static unsigned part(const char *f,unsigned d)
{
   unsigned v=0; int i;
   for(i=0;i<10 && f[i];i++) if(f[i]=='*' || f[i]=='?') return d;
   for(i=0;i<10 && f[i];i++) v=v*10+(f[i]-'0');
   return v;
}

void vf_harness(void)
{
   VF_INPUT();
   static struct Nodelist nl; struct Node4DPat pat; struct Node4D dest,out; int i,j;
   for(j=0;j<4;j++)
   {
      int lit=1,n=0;
      VF_ASSUME(vf_in.f[j][9]==0);
      for(i=0;i<10;i++)
      {
         char c=vf_in.f[j][i];
         if(!c) break;
         VF_ASSUME((c>='0' && c<='9') || c=='*' || c=='?');
         if(c=='*' || c=='?') lit=0;
         n++;
      }
      if(lit) VF_ASSUME(n<=5 && part(vf_in.f[j],0)<=65535);
   }
   VF_ASSUME(vf_in.region>=-1 && vf_in.region<=65535 && vf_in.hub>=-1 && vf_in.hub<=65535);
   VF_ASSUME(vf_in.type>=PAT_PATTERN && vf_in.type<=PAT_NODE);
   pat.Type=vf_in.type;
   for(i=0;i<10;i++) { pat.Zone[i]=vf_in.f[0][i]; pat.Net[i]=vf_in.f[1][i]; pat.Node[i]=vf_in.f[2][i]; pat.Point[i]=vf_in.f[3][i]; }
   nl.nlGetRegion=st_region; nl.nlGetHub=st_hub;
   config.cfg_NodelistType=&nl; nodelistopen=vf_in.open&1;
   dest=vf_in.a; out=vf_in.junk;
   ExpandNodePat(&pat,&dest,&out);
   struct Node4D w; int known=vf_in.open&1;
   w.Zone=vf_in.a.Zone; w.Net=vf_in.a.Net; w.Node=0; w.Point=0;
   switch(vf_in.type)
   {
      case PAT_PATTERN: w.Zone=part(vf_in.f[0],vf_in.a.Zone); w.Net=part(vf_in.f[1],vf_in.a.Net); w.Node=part(vf_in.f[2],vf_in.a.Node); w.Point=part(vf_in.f[3],vf_in.a.Point); VF_REACH("pattern"); break;
      case PAT_ZONE:    w.Net=vf_in.a.Zone; break;
      case PAT_REGION:  if(known && vf_in.region>0) w.Net=vf_in.region; VF_REACH("region"); break;
      case PAT_NET:     break;
      case PAT_HUB:     if(known && vf_in.hub>0) w.Node=vf_in.hub; break;
      case PAT_NODE:    w.Node=vf_in.a.Node; break;
   }
   VF_CHECK(spec_same4d(&out,&w),"ExpandNodePat: the documented destination");
   VF_CHECK(spec_same4d(&dest,&vf_in.a),"ExpandNodePat: destination address unchanged");
   if(asks) VF_CHECK(asked.Zone==vf_in.a.Zone && asked.Net==vf_in.a.Net && asked.Node==vf_in.a.Node && asked.Point==0,"ExpandNodePat: the nodelist is asked about the boss node");
   VF_REACH("end");
}
