// @props: P10
// @functions: mmAddNodes2DList mmRemNodes2DList
// @level: bounded
// @bound: SEEN-BY lists of up to two blocks of 50 entries (add, remove); all net/node values
// @parts: 00 01 02 11 12
// @unwind: 52
// @desc: adding to and removing from a SEEN-BY list are exact set operations
#include <crashmail/crashmail.h>
#define MAXN 100
struct vf_input { uint16_t net[MAXN],node[MAXN]; uint16_t n1,n2,net0,node0,k; char pn[10],po[10]; };
#include "vf.h"
#include "spec_pat.h"
static struct Nodes2D b1,b2;
/* parts: first digit operation (0 add, 1 remove, 2 remove by pattern), second digit number of blocks */
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define P_00 0
#define P_01 1
#define P_02 2
#define P_11 11
#define P_12 12
#define P_22 22
#define PART CAT(P_,VF_PART)
void vf_harness(void)
{
   VF_INPUT();
   struct jbList l; uint32_t i; uint16_t n1=vf_in.n1,n2=vf_in.n2,k=vf_in.k,net=vf_in.net0,node=vf_in.node0; int present=0;
   struct Nodes2D *last;
   jbNewList(&l);
#if PART%10==0
   VF_ASSUME(n1==0 && n2==0); last=NULL;
#elif PART%10==1
   VF_ASSUME(n1<=50 && n2==0);
   jbAddNode(&l,(struct jbNode *)&b1); last=&b1;
#else
 #if PART==22
   VF_ASSUME(n1<=2 && n2<=1);
 #else
   VF_ASSUME(n1==50 && n2<=50);
 #endif
   jbAddNode(&l,(struct jbNode *)&b1); jbAddNode(&l,(struct jbNode *)&b2); last=&b2;
#endif
   b1.Nodes=n1; b2.Nodes=n2;
   for(i=0;i<50;i++)
   {
      b1.Net[i]=vf_in.net[i]; b1.Node[i]=vf_in.node[i]; b2.Net[i]=vf_in.net[50+i]; b2.Node[i]=vf_in.node[50+i];
      if(i<n1 && vf_in.net[i]==net && vf_in.node[i]==node) present=1;
      if(i<n2 && vf_in.net[50+i]==net && vf_in.node[50+i]==node) present=1;
   }
   /* any existing entry: k counts over both blocks */
   int blk=k>=50; uint16_t ki=blk ? k-50 : k; int valid=blk ? ki<n2 && k<100 : ki<n1;
   uint16_t wn=valid ? vf_in.net[k] : 0,wo=valid ? vf_in.node[k] : 0;
#if PART<10
   VF_CHECK(mmAddNodes2DList(&l,net,node),"SEEN-BY add: succeeds");
   struct Nodes2D *b=(struct Nodes2D *)l.First; uint32_t total=0; int isin=0,j;
   for(j=0;j<3 && b;j++,b=b->Next)
   {
      VF_CHECK(b->Nodes<=PKT_NUM2D,"SEEN-BY add: blocks stay within their size");
      for(i=0;i<50;i++) if(i<b->Nodes && b->Net[i]==net && b->Node[i]==node) isin=1;
      total+=b->Nodes;
   }
   VF_CHECK(b==NULL,"SEEN-BY add: list well formed");
   VF_CHECK(isin,"SEEN-BY add: the node is in the list");
   VF_CHECK(total==n1+n2+(present ? 0 : 1),"SEEN-BY add: one entry more, and only if it was not there");
   if(valid) VF_CHECK((blk ? b2.Net : b1.Net)[ki]==wn && (blk ? b2.Node : b1.Node)[ki]==wo,"SEEN-BY add: existing entries stay");
   if(!present) VF_REACH("added");
 #if PART>0
   if(present) VF_REACH("present");
 #endif
#else
   int gone;
   VF_ASSUME(valid);
 #if PART<20
   mmRemNodes2DList(&l,net,node);
   gone=wn==net && wo==node;
 #else
   struct Node2DPat pat;
   VF_ASSUME(vf_in.pn[9]==0 && vf_in.po[9]==0);
   for(i=0;i<10;i++) { pat.Net[i]=vf_in.pn[i]; pat.Node[i]=vf_in.po[i]; }
   mmRemNodes2DListPat(&l,&pat);
   gone=spec_part(vf_in.pn,wn) && spec_part(vf_in.po,wo);
 #endif
   uint16_t rn=(blk ? b2.Net : b1.Net)[ki],ro=(blk ? b2.Node : b1.Node)[ki];
   VF_CHECK(b1.Nodes==n1 && b2.Nodes==n2,"SEEN-BY removal: list length unchanged");
   if(gone) { VF_CHECK(rn==0 && ro==0,"SEEN-BY removal: a matching node is blanked"); VF_REACH("gone"); }
   else { VF_CHECK(rn==wn && ro==wo,"SEEN-BY removal: every other node stays"); VF_REACH("kept"); }
#endif
}
