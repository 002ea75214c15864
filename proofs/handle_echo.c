// @props: P11
// @functions: HandleEchomail FindNodes2D HandleMessage
// @level: bounded
// @bound: an area with three linked nodes, two entries in the incoming SEEN-BY list, one node to add and one pattern to remove; any addresses, flags, settings and outcomes
// @unwind: 12
// @hunwind: 12
// @lunwind: 20
// @parts: 0 1 3 4
// @modeldefs: -DVF_MEMMOVE
// @flags: --max-field-sensitivity-array-size 120
// @assume: packet writing (P08), dupe check (P13), filters (P17), SEEN-BY operations (P10) and the message base answer anything their contracts allow
// @desc: echomail is accepted from linked nodes with write access only, goes to every other linked node exactly once with the right SEEN-BY, and is imported once
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D n[3],aka,pktorig,add; uint32_t nfl[3]; uint16_t tfl[3]; uint8_t stale[3]; char afl; uint32_t cfg; uint16_t dupemode,mmfl,attr; uint8_t dupe,fres,fkill,ftwit,wfail,impfail,badfail,sortfail,pathfail,haslist,known; uint16_t sb[2][2]; uint16_t pn,pd; uint8_t rempat; };
#include "vf.h"
#define HASBASE (VF_PART!=4)
static struct MemMessage m; static struct Area a0,a1; static struct TossNode t0,t1,t2; static struct ConfigNode c0,c1,c2; static struct Aka aka; static struct Nodes2D blk; static struct AddNode an; static struct RemNode rn; static struct Messagebase mb;
static int member,sent[3],bad,imported,sorted,pathed,duped,filtered,freed,added,adds; static char *badreason; static bool autoact;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
static int eq4(struct Node4D *a,struct Node4D *b) { return (a->Zone==b->Zone || !a->Zone || !b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static struct ConfigNode *cn(int i) { return i==0 ? &c0 : i==1 ? &c1 : &c2; }
static struct TossNode *tn(int i) { return i==0 ? &t0 : i==1 ? &t1 : &t2; }
/* ghost state: whether the arbitrary net/node pn/pd is in the SEEN-BY list */
bool mmAddNodes2DList(struct jbList *l,uint16_t net,uint16_t node)
{
   VF_CHECK(l==&m.SeenBy,"echo: nodes are added to the message's SEEN-BY");
   if(net==vf_in.pn && node==vf_in.pd) member=1;
   adds++;
   if(vf_in.pathfail==adds+10) return FALSE;
   return TRUE;
}
void mmRemNodes2DListPat(struct jbList *l,struct Node2DPat *p) { VF_CHECK(l==&m.SeenBy && p==&rn.NodePat,"echo: configured pattern removed from SEEN-BY"); if(vf_in.rempat&1) member=0; }
void jbFreeList(struct jbList *l) { VF_CHECK(l==&m.SeenBy,"echo: only SEEN-BY is emptied"); member=0; l->First=NULL; l->Last=NULL; freed++; }
bool mmSortNodes2D(struct jbList *l) { VF_CHECK(l==&m.SeenBy,"echo: SEEN-BY sorted"); sorted++; return !(vf_in.sortfail&1); }
bool AddNodePath(struct jbList *l,struct Node4D *n) { VF_CHECK(l==&m.Path && n==&aka.Node,"echo: own address goes to the path"); pathed++; return vf_in.pathfail!=1; }
bool CheckDupe(struct MemMessage *x) { duped++; return vf_in.dupe&1; }
bool Filter(struct MemMessage *x) { filtered++; if(vf_in.fkill&1) x->Flags|=MMFLAG_KILL; if(vf_in.ftwit&1) x->Flags|=MMFLAG_TWIT; return !(vf_in.fres&1); }
bool WriteBad(struct MemMessage *x,char *r) { bad++; badreason=r; return !(vf_in.badfail&1); }
struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *my,uint32_t active,uint32_t pass)
{ VF_CHECK(name==m.Area && node==&m.PktOrig && my==&m.PktDest && !pass,"echo: unknown area added for the sender"); added++; autoact=active!=0; if(vf_in.known&2) return NULL; a1.Flags=active ? 0 : AREA_UNCONFIRMED; return &a1; }
static int expmember;
bool WriteEchoMail(struct MemMessage *x,struct ConfigNode *n,struct Aka *k)
{
   int i=n==&c0 ? 0 : n==&c1 ? 1 : 2;
   VF_CHECK(n==&c0 || n==&c1 || n==&c2,"echo: only linked nodes get the message");
   VF_CHECK(k==&aka && x==&m,"echo: sent from the area's address");
   VF_CHECK(sorted==1 && filtered==1 && !imported,"echo: sent after filtering, SEEN-BY sorted");
   VF_CHECK(member==expmember,"echo: SEEN-BY of the message names exactly the documented nodes");
   sent[i]++;
   return vf_in.wfail!=i+1;
}
static bool imp(struct MemMessage *x,struct Area *a)
{
   VF_CHECK(x==&m && a==&a0,"echo: imported into its area");
   VF_CHECK((x->Attr & FLAG_SENT) && !(x->Attr & FLAG_LOCAL),"echo: imported mail is marked sent and not local");
   VF_CHECK(((x->Attr ^ vf_in.attr) & ~(FLAG_SENT|FLAG_LOCAL))==0,"echo: other attributes kept");
   VF_CHECK(member==expmember,"echo: SEEN-BY imported as sent");
   imported++;
   return !(vf_in.impfail&1);
}
static int setup(int area)
{
   int i;
   config.CNodeList.First=(struct jbNode *)&c0; c0.Next=&c1; c1.Next=&c2; c2.Next=NULL;
   config.AreaList.First=(struct jbNode *)&a0; a0.Next=NULL;
   a0.TossNodes.First=(struct jbNode *)&t0; t0.Next=&t1; t1.Next=&t2; t2.Next=NULL; t0.ConfigNode=&c0; t1.ConfigNode=&c1; t2.ConfigNode=&c2;
   a0.Aka=&aka; a0.Flags=vf_in.afl; a0.AreaType=AREATYPE_ECHOMAIL; a0.Messagebase=HASBASE ? &mb : NULL; mb.importfunc=imp;
   strcpy(a0.Tagname,"Ab"); strcpy(m.Area,area ? "xY" : "aB");
   a1.Aka=&aka; a1.TossNodes.First=NULL; a1.Messagebase=NULL; a1.AreaType=AREATYPE_ECHOMAIL;
   aka.Node=vf_in.aka; aka.AddList.First=(struct jbNode *)&an; an.Next=NULL; an.Node=vf_in.add; aka.RemList.First=(struct jbNode *)&rn; rn.Next=NULL;
   for(i=0;i<3;i++) { cn(i)->Node=vf_in.n[i]; cn(i)->Flags=vf_in.nfl[i]; cn(i)->IsInSeenBy=vf_in.stale[i]&1; tn(i)->Flags=vf_in.tfl[i]; }
   /* configuration gives every node once */
   VF_ASSUME(!eq4(&vf_in.n[0],&vf_in.n[1]) && !eq4(&vf_in.n[0],&vf_in.n[2]) && !eq4(&vf_in.n[1],&vf_in.n[2]));
   config.cfg_Flags=vf_in.cfg & ~(uint32_t)CFG_STRIPRE; config.cfg_DupeMode=vf_in.dupemode;
   m.PktOrig=vf_in.pktorig; m.Flags=vf_in.mmfl & ~(MMFLAG_KILL|MMFLAG_TWIT); m.Attr=vf_in.attr; m.Subject[0]=0;
   blk.Nodes=2; blk.Next=NULL; for(i=0;i<2;i++) { blk.Net[i]=vf_in.sb[i][0]; blk.Node[i]=vf_in.sb[i][1]; }
   if(vf_in.haslist&1) { m.SeenBy.First=(struct jbNode *)&blk; m.SeenBy.Last=(struct jbNode *)&blk; } else { m.SeenBy.First=NULL; m.SeenBy.Last=NULL; }
   member=0;
   if(vf_in.haslist&1) for(i=0;i<2;i++) if(blk.Net[i]==vf_in.pn && blk.Node[i]==vf_in.pd) member=1;
   return member;
}
static int inlist(struct Node4D *n) { return (vf_in.haslist&1) && ((blk.Net[0]==n->Net && blk.Node[0]==n->Node) || (blk.Net[1]==n->Net && blk.Node[1]==n->Node)); }
void vf_harness(void)
{
   int i,init,zone,ok,linked=-1,sender=-1,secure,seen[3],path3d; bool res;
   VF_INPUT();
#if VF_PART == 3
   /* unknown area */
   setup(1);
   res=HandleMessage(&m);
   for(i=0;i<3;i++) if(sender<0 && eq4(&m.PktOrig,&cn(i)->Node)) sender=i;
   VF_CHECK(added==1 && autoact==(sender>=0 && (cn(sender)->Flags & NODE_AUTOADD)!=0),"echo: unknown areas are active only when the sender may add areas");
   VF_CHECK(!imported && !sent[0] && !sent[1] && !sent[2],"echo: nothing is distributed from an unknown area");
   if(!autoact && !(vf_in.known&2)) VF_CHECK(bad==1 && res==!(vf_in.badfail&1) && !duped && !filtered,"echo: mail in unconfirmed areas is kept as bad mail");
   if(vf_in.known&2) VF_CHECK(!res && !bad,"echo: out of memory is reported");
   VF_REACH("unknown");
   return;
#else
   init=setup(0);
#if VF_PART == 0 || VF_PART == 4
   VF_ASSUME(vf_in.pathfail==0 && !(vf_in.sortfail&1) && !(vf_in.fres&1) && !vf_in.wfail);
#elif VF_PART == 1
   VF_ASSUME(vf_in.pathfail || (vf_in.sortfail&1) || (vf_in.fres&1) || vf_in.wfail);
#else
   m.Flags&=~(MMFLAG_EXPORTED|MMFLAG_NOSECURITY);
#endif
   zone=aka.Node.Zone==m.PktOrig.Zone;
   expmember=init && zone;
   for(i=0;i<3;i++) if(cn(i)->Node.Point==0 && cn(i)->Node.Zone==aka.Node.Zone && !(cn(i)->Flags & NODE_PASSIVE) && !(tn(i)->Flags & TOSSNODE_WRITEONLY) && cn(i)->Node.Net==vf_in.pn && cn(i)->Node.Node==vf_in.pd) expmember=1;
   if(vf_in.rempat&1) expmember=0;
   if(an.Node.Net==vf_in.pn && an.Node.Node==vf_in.pd) expmember=1;
   if(aka.Node.Point==0 && aka.Node.Net==vf_in.pn && aka.Node.Node==vf_in.pd) expmember=1;
   for(i=0;i<3;i++) seen[i]=(config.cfg_Flags & CFG_CHECKSEENBY) && !(a0.Flags & AREA_IGNORESEENBY) && zone && cn(i)->Node.Point==0 && cn(i)->Node.Zone==aka.Node.Zone && inlist(&cn(i)->Node);
   for(i=0;i<3;i++) if(linked<0 && eq4(&m.PktOrig,&cn(i)->Node)) linked=i;
   secure=!(m.Flags & (MMFLAG_EXPORTED|MMFLAG_NOSECURITY));
   path3d=aka.Node.Point==0 || (config.cfg_Flags & CFG_PATH3D);
   res=HandleMessage(&m);
   VF_CHECK(!added,"echo: known areas are not added again");
   VF_CHECK(imported<=1 && sent[0]<=1 && sent[1]<=1 && sent[2]<=1 && bad<=1,"echo: nobody gets a message twice");
   if((a0.Flags & AREA_UNCONFIRMED) || (secure && (linked<0 || (tn(linked)->Flags & TOSSNODE_READONLY))))
   {
      VF_CHECK(bad==1 && res==!(vf_in.badfail&1),"echo: mail from nodes without access is kept as bad mail");
      VF_CHECK(!imported && !sent[0] && !sent[1] && !sent[2] && !duped,"echo: mail from nodes without access is not distributed");
      VF_REACH("refused");
      return;
   }
   ok=config.cfg_DupeMode!=DUPE_IGNORE && (vf_in.mmfl & MMFLAG_TOSSED) && !(a0.Flags & AREA_IGNOREDUPES);
   if(res || VF_PART!=1)
   {
      VF_CHECK(duped==ok,"echo: dupe check of tossed mail unless disabled");
      VF_CHECK(pathed==path3d,"echo: own address in the path");
   }
   if(duped && (vf_in.dupe&1))
   {
      VF_CHECK(!imported && !sent[0] && !sent[1] && !sent[2],"echo: dupes are not distributed");
      VF_CHECK(bad==(config.cfg_DupeMode==DUPE_BAD),"echo: dupes are kept only when asked for");
      VF_CHECK(res==!(bad && (vf_in.badfail&1)),"echo: result for dupes");
      VF_REACH("dupe");
      return;
   }
   VF_CHECK(!bad,"echo: good mail is not bad mail");
#if VF_PART == 1
   if(vf_in.pathfail==1 && path3d) VF_CHECK(!res,"echo: failures are reported");
   if((vf_in.sortfail&1) || (vf_in.fres&1)) VF_CHECK(!res && !imported && !sent[0] && !sent[1] && !sent[2],"echo: nothing is sent after a failure");
   for(i=0;i<3;i++) if(vf_in.wfail==i+1 && sent[i]) VF_CHECK(!res && !imported,"echo: a failed write is reported");
   if(res && vf_in.wfail<=3) VF_REACH("fail-unrelated");
   VF_REACH("failures");
#else
   if(vf_in.fkill&1)
   {
      VF_CHECK(res && !imported && !sent[0] && !sent[1] && !sent[2],"echo: killed mail goes nowhere");
      VF_REACH("killed");
      return;
   }
   for(i=0;i<3;i++)
   {
      int want=!(m.Flags & MMFLAG_RESCANNED) && !eq4(&m.PktOrig,&cn(i)->Node) && !(cn(i)->Flags & NODE_PASSIVE) && !(tn(i)->Flags & TOSSNODE_WRITEONLY) && !seen[i];
      VF_CHECK(sent[i]==want,"echo: every linked node but the sender, passive, write-only and already served ones gets the message, nobody else");
   }
   ok=!(vf_in.ftwit&1) && !(m.Flags & MMFLAG_EXPORTED) && HASBASE;
   VF_CHECK(imported==ok,"echo: tossed mail is imported unless twitted or the area has no message base");
   VF_CHECK(res==!(imported && (vf_in.impfail&1)),"echo: result");
   VF_REACH("distributed");
#endif
#endif
}
