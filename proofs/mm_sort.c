// @props: P10
// @functions: mmSortNodes2D CompareSort
// @level: bounded
// @bound: SEEN-BY lists of up to 4 entries in one block, all values
// @unwind: 6
// @hunwind: 8
// @lunwind: 9
// @desc: sorting a SEEN-BY list is a permutation into ascending net, node order
#include <crashmail/crashmail.h>
struct vf_input { uint16_t net[4],node[4],n,qn,qo; };
#include "vf.h"
static struct Nodes2D b1;
void vf_harness(void)
{
   VF_INPUT();
   struct jbList l; uint32_t i,j,n=vf_in.n,before=0,after=0,total=0,lastv=0; struct Nodes2D *b;
   VF_ASSUME(n<=4);
   jbNewList(&l); jbAddNode(&l,(struct jbNode *)&b1);
   b1.Nodes=n;
   for(i=0;i<n;i++) { b1.Net[i]=vf_in.net[i]; b1.Node[i]=vf_in.node[i]; }
   for(b=(struct Nodes2D *)l.First;b;b=b->Next) for(i=0;i<b->Nodes;i++) if(b->Net[i]==vf_in.qn && b->Node[i]==vf_in.qo) before++;
   VF_CHECK(mmSortNodes2D(&l),"SEEN-BY sort: succeeds");
   for(b=(struct Nodes2D *)l.First,j=0;b && j<2;b=b->Next,j++)
   {
      VF_CHECK(b->Nodes<=4,"SEEN-BY sort: no entry added"); if(b->Nodes>4) return;
      for(i=0;i<b->Nodes;i++)
      {
         uint32_t v=((uint32_t)b->Net[i]<<16)|b->Node[i];
         if(total) VF_CHECK(lastv<=v,"SEEN-BY sort: ascending by net, then node");
         lastv=v; total++;
         if(b->Net[i]==vf_in.qn && b->Node[i]==vf_in.qo) after++;
      }
   }
   VF_CHECK(total==n && before==after,"SEEN-BY sort: a permutation of the list");
   if(n==4) VF_REACH("four");
}
