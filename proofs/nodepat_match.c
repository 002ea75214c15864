// @props: P03
// @functions: Compare4DPat NodeCompare Copy4D
// @unwind: 12
// @desc: Compare4DPat matches exactly the documented set of addresses, for every pattern, address and nodelist answer
#include <crashmail/crashmail.h>
#include <crashmail/nl.h>
struct vf_input { char type,z[10],n[10],o[10],p[10]; struct Node4D a; unsigned char open; int region,hub; };
#include "vf.h"
#include "spec_pat.h"

static struct Node4D asked; static int asks;
static long st_region(struct Node4D *n) { asked=*n; asks++; return vf_in.region; }
static long st_hub(struct Node4D *n)    { asked=*n; asks++; return vf_in.hub; }

static int spec_match(void)
{
   unsigned z=vf_in.a.Zone,n=vf_in.a.Net,o=vf_in.a.Node,p=vf_in.a.Point;
   int zone=z==0 || spec_part(vf_in.z,z);       /* an address without a zone matches on the rest */
   switch(vf_in.type)
   {
      case PAT_PATTERN: return zone && spec_part(vf_in.n,n) && spec_part(vf_in.o,o) && spec_part(vf_in.p,p);
      case PAT_ZONE:    return spec_part(vf_in.z,z);
      case PAT_REGION:  return (vf_in.open&1) && vf_in.region!=-1 && zone && spec_part(vf_in.n,vf_in.region);
      case PAT_NET:     return zone && spec_part(vf_in.n,n);
      case PAT_HUB:     return (vf_in.open&1) && vf_in.hub!=-1 && zone && spec_part(vf_in.n,n) && spec_part(vf_in.o,vf_in.hub);
      case PAT_NODE:    return zone && spec_part(vf_in.n,n) && spec_part(vf_in.o,o);
   }
   return 0;
}

void vf_harness(void)
{
   VF_INPUT();
   static struct Nodelist nl; struct Node4DPat pat; struct Node4D a; int i,r,w;
   VF_ASSUME(vf_in.z[9]==0 && vf_in.n[9]==0 && vf_in.o[9]==0 && vf_in.p[9]==0);
   VF_ASSUME(vf_in.region>=-1 && vf_in.region<=65535 && vf_in.hub>=-1 && vf_in.hub<=65535);
   pat.Type=vf_in.type;
   for(i=0;i<10;i++) { pat.Zone[i]=vf_in.z[i]; pat.Net[i]=vf_in.n[i]; pat.Node[i]=vf_in.o[i]; pat.Point[i]=vf_in.p[i]; }
   a=vf_in.a;
   nl.nlGetRegion=st_region; nl.nlGetHub=st_hub;
   config.cfg_NodelistType=&nl; nodelistopen=vf_in.open&1;
   r=Compare4DPat(&pat,&a);
   w=spec_match();
   VF_CHECK((r==0)==!!w,"Compare4DPat: matches exactly the addresses the pattern describes");
   VF_CHECK(spec_same4d(&a,&vf_in.a),"Compare4DPat: address unchanged");
   if(asks) VF_CHECK(asked.Zone==vf_in.a.Zone && asked.Net==vf_in.a.Net && asked.Node==vf_in.a.Node && asked.Point==0,"Compare4DPat: the nodelist is asked about the boss node");
   if(w) VF_REACH("match"); else VF_REACH("no match");
   if(asks) VF_REACH("nodelist asked");
}
