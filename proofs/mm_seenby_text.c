// @props: P10
// @functions: mmMakeSeenByBuf
// @level: bounded
// @bound: 1 and 2 entries of any value (line wrap: mm_seenby_wrap)
// @parts: 1 2
// @unwind: 12
// @hunwind: 36
// @lunwind: 36
// @desc: the written SEEN-BY lines name exactly the listed nodes, in order, net only when it changes, lines of at most 79 characters
#include <crashmail/crashmail.h>
struct vf_input { uint16_t net[VF_PART],node[VF_PART],n; };
#include "vf.h"
#include "spec_node.h"
static struct Nodes2D b1;
void vf_harness(void)
{
   VF_INPUT();
   struct jbList l; uint32_t i,n=vf_in.n,p=0,linestart=0,last=0,onl=0; char want[200],*t;
   VF_ASSUME(n==VF_PART);
   jbNewList(&l); jbAddNode(&l,(struct jbNode *)&b1); b1.Nodes=VF_PART;
   for(i=0;i<VF_PART;i++) { b1.Net[i]=vf_in.net[i]; b1.Node[i]=vf_in.node[i]; }
#if VF_PART==7
   VF_ASSUME(n==7);
   for(i=0;i<7;i++) VF_ASSUME(vf_in.net[i]>=10000 && vf_in.node[i]>=10000 && (i==0 || vf_in.net[i]!=vf_in.net[i-1]));
#endif
   for(i=0;i<VF_PART;i++) if(i<n && (vf_in.net[i] || vf_in.node[i]))
   {
      if(onl==0 || (VF_PART==7 && onl==5))
      {
         if(onl) want[p++]=13;
         want[p++]='S'; want[p++]='E'; want[p++]='E'; want[p++]='N'; want[p++]='-'; want[p++]='B'; want[p++]='Y'; want[p++]=':'; onl=0; 
         if(VF_PART==7) last=0;
      }
      want[p++]=' ';
      if(vf_in.net[i]!=last) { p=spec_putnum(vf_in.net[i],want,p); want[p++]='/'; }
      p=spec_putnum(vf_in.node[i],want,p);
      last=vf_in.net[i]; onl++;
   }
   if(onl) want[p++]=13;
   want[p]=0;
   t=mmMakeSeenByBuf(&l);
   VF_CHECK(t!=NULL,"SEEN-BY text: made");
   VF_CHECK(strcmp(t,want)==0,"SEEN-BY text: exactly the listed nodes, wrapped before 80 characters");
   VF_REACH("end");
}
