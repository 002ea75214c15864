// @props: P19
// @functions: AreaFix CheckFlags RemoveDeletedAreas osMatchPattern osIsPattern
// @level: bounded
// @bound: one request line per case (20 cases over subject and commands), two areas, two nodes with group lists of up to two letters; every group, area flag, link flag, ban and configuration flag
// @unwind: 112
// @hunwind: 125
// @lunwind: 104
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=110
// @timeout: 120
// @assume: the text of the reply (not decided); the message base's rescan function answers anything
// @desc: only a configured node with the right password changes anything, only its own links and settings, only areas of its groups it is not banned from, read-only where configured; mandatory areas stay linked; rescans only where allowed
#include <crashmail/crashmail.h>
struct vf_input { char g[2],rog[2],ag[2]; char afl[2]; uint16_t tfl[2],ofl; uint32_t nfl,cfl; uint8_t ban[2],res,unlinked,pk; char mbgroup; };
#include "vf.h"
struct afReply;
static struct ConfigNode n0,n1; static struct Area a0,a1,na; static struct TossNode t0,t1,x0,x1,xx; static struct BannedNode b0,b1; static struct Route rt; static struct Aka aka; static struct MemMessage mm; static struct TextChunk ch; static struct Packer p0,p1; static struct Messagebase mb; static struct Arealist al;
static int nalloc,nsent,nfreed,nreply,nrescan,nfwd,nadd,nlist[3],nhelp,nremote,nrmsg,nrem; static struct Area *rarea; static uint32_t rmax; static char afr[4];
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
void Print4D(struct Node4D *n,char *d) { d[0]=0; }
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { return 0; }
struct afReply *afInitReply(char *f,struct Node4D *a,char *t,struct Node4D *to,char *s) { VF_CHECK(a==&aka.Node && to->Net==mm.OrigNode.Net && strcmp(t,"me")==0,"areafix: reply goes to the requester"); return (struct afReply *)afr; }
void afFreeReply(struct afReply *a) { nfreed++; }
void afAddLine(struct afReply *a,char *fmt,...) { nreply++; }
void AddCommandReply(struct afReply *a,char *c,char *r) { nreply++; }
void afSendMessage(struct afReply *a) { nsent++; }
void rawSendList(short t,struct Node4D *f,char *to,struct ConfigNode *c) { VF_CHECK(c==&n0,"areafix: list for the requester"); nlist[t==SENDLIST_FULL ? 0 : t==SENDLIST_QUERY ? 1 : 2]++; }
void rawSendHelp(struct Node4D *f,char *to,struct ConfigNode *c) { nhelp++; }
void rawSendInfo(struct Node4D *f,char *to,struct ConfigNode *c) { nhelp++; }
void SendRemoteAreafix(void) { nremote++; }
void SendRemoveMessages(struct Area *a) { VF_CHECK(a==&a0 || a==&a1,"areafix: area"); nrmsg++; }
void RemoteAreafixRemove(char *a,struct ConfigNode *n) { VF_CHECK(n==&n1,"areafix: feed is told"); nrem++; }
void RemoteAreafixAdd(char *a,struct ConfigNode *n) { VF_CHECK(n==&n1 && strcmp(a,"NEW.X")==0,"areafix: request forwarded"); nfwd++; }
struct Arealist *FindForward(char *t,char *fl) { VF_CHECK((VF_PART==19 || strcmp(t,"NEW.X")==0) && strcmp(fl,n0.Groups)==0,"areafix: only areas the node may have are requested"); return VF_PART==18 ? &al : NULL; }
struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *my,uint32_t act,uint32_t pass) { VF_CHECK(strcmp(name,"NEW.X")==0 && act && nfwd==1 && nadd==0,"areafix: new area"); nadd++; if(vf_in.res&1) return NULL; return &na; }
bool AddTossNode(struct Area *a,struct ConfigNode *c,uint16_t fl) { VF_CHECK(a==&na && c==&n0,"areafix: requester linked to the new area"); VF_CHECK(fl==((vf_in.rog[0] && (al.Group==vf_in.rog[0])) ? TOSSNODE_READONLY : 0),"areafix: read-only"); nadd++; return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
bool rescan(struct Area *a,uint32_t max,bool (*h)(struct MemMessage *)) { VF_CHECK(h==HandleRescan && RescanNode==&n0,"areafix: rescan for the requester"); nrescan++; rarea=a; rmax=max; return vf_in.res&1; }
void *osAllocCleared(uint32_t n) { VF_CHECK(n==sizeof(struct TossNode) && nalloc<2,"areafix: allocation"); nalloc++; return nalloc==1 ? &x0 : &x1; }
void osFree(void *p) {}
void jbFreeList(struct jbList *l) { jbNewList(l); }
void jbFreeNode(struct jbList *l,struct jbNode *n)
{
   struct jbNode *p;
   if(l->First==n) l->First=n->Next;
   else { for(p=l->First;p->Next!=n;p=p->Next); p->Next=n->Next; }
   l->Last=NULL; for(p=l->First;p;p=p->Next) l->Last=p;
}
static int has(const char *s,char c) { int i; for(i=0;i<3 && s[i];i++) if(s[i]==c) return 1; return 0; }
/* subject, text, requester known */
#define LONG "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
static const struct { const char *subj,*text; int known; } C[20]={
 {"Secret","+AREA.A\x0d",0}, {"wrong","-AREA.A\x0d%PWD x\x0d",1}, {"","%PAUSE\x0d",1},
 {"SECRET","AREA.A\x0d",1}, {"secret -l","+area.b,\x0d",1}, {"Secret","-AREA.A\x0d",1}, {"Secret","*\x0d",1}, {"Secret","-AREA.?\x0d",1},
 {"Secret","%PAUSE\x0d",1}, {"Secret","%RESUME\x0d",1}, {"Secret","%PWD new\x0d",1}, {"Secret","%COMPRESS zip\x0d",1},
 {"Secret","=AREA.A,r=5\x0d",1}, {"Secret","+AREA.A, R=7\x0d",1}, {"Secret","---\x0d%PWD x\x0d",1}, {"Secret","%RESCAN\x0d""AREA.B\x0d",1},
 {"Secret","%LIST\x0d%QUERY\x0d%UNLINKED\x0d",1}, {"Secret","NEW.X\x0d",1}, {"Secret","+NEW.X\x0d",1}, {"Secret",LONG,1} };
#define P VF_PART
#if VF_PART == 12 || VF_PART == 13 || VF_PART == 15
#define RR VF_REACH("rescan")
#define RN VF_REACH("no rescan")
#else
#define RR
#define RN
#endif
#define LINKED0 (P==5 || P==7 || P==12 || P==1)      /* the requester is linked to the first area */
#define LINKED1 (P==7)
void vf_harness(void)
{
   bool r; int i,acc[2],ro[2],want0,want1,l0,l1,o0,ok; struct TossNode *t; struct Area *ar; uint32_t cf; char pw[40];
   VF_INPUT();
   config.RouteList.First=(struct jbNode *)&rt; rt.Aka=&aka;
   jbNewList(&config.CNodeList); jbAddNode(&config.CNodeList,(struct jbNode *)&n1); jbAddNode(&config.CNodeList,(struct jbNode *)&n0);
   n0.Node.Zone=2; n0.Node.Net=5; n0.Node.Node=6; n1.Node.Zone=2; n1.Node.Net=5; n1.Node.Node=7;
   mm.OrigNode=n0.Node; if(!C[P].known) mm.OrigNode.Node=9;
   strcpy(mm.From,"me"); strcpy(mm.Subject,C[P].subj); strcpy(n0.AreafixPW,"Secret"); strcpy(n1.AreafixPW,"wrong");
   VF_ASSUME(vf_in.ag[0]>='A' && vf_in.ag[0]<='Z' && vf_in.ag[1]>='A' && vf_in.ag[1]<='Z' && vf_in.g[0]);
   n0.Groups[0]=vf_in.g[0]; n0.Groups[1]=vf_in.g[1]; n0.Groups[2]=0; n0.ReadOnlyGroups[0]=vf_in.rog[0]; n0.ReadOnlyGroups[1]=0; n0.Flags=vf_in.nfl; n0.Packer=&p0;
   for(i=0;C[P].text[i];i++) ch.Data[i]=C[P].text[i];
   ch.Length=i; jbNewList(&mm.TextChunks); jbAddNode(&mm.TextChunks,(struct jbNode *)&ch);
   jbNewList(&config.AreaList); jbAddNode(&config.AreaList,(struct jbNode *)&a0); jbAddNode(&config.AreaList,(struct jbNode *)&a1);
   strcpy(a0.Tagname,"AREA.A"); strcpy(a1.Tagname,"Area.B"); a0.AreaType=a1.AreaType=AREATYPE_ECHOMAIL; a0.Flags=vf_in.afl[0]; a1.Flags=vf_in.afl[1]; a0.Group=vf_in.ag[0]; a1.Group=vf_in.ag[1];
   jbNewList(&a0.TossNodes); jbNewList(&a1.TossNodes); xx.ConfigNode=&n1; xx.Flags=vf_in.ofl; t0.ConfigNode=t1.ConfigNode=&n0; t0.Flags=vf_in.tfl[0]; t1.Flags=vf_in.tfl[1];
   jbAddNode(&a0.TossNodes,(struct jbNode *)&xx); if(LINKED0) jbAddNode(&a0.TossNodes,(struct jbNode *)&t0); if(LINKED1) jbAddNode(&a1.TossNodes,(struct jbNode *)&t1);
   jbNewList(&a0.BannedNodes); jbNewList(&a1.BannedNodes); b0.ConfigNode=vf_in.ban[0]&1 ? &n0 : &n1; b1.ConfigNode=vf_in.ban[1]&1 ? &n0 : &n1; jbAddNode(&a0.BannedNodes,(struct jbNode *)&b0); jbAddNode(&a1.BannedNodes,(struct jbNode *)&b1);
   a0.Messagebase=&mb; mb.rescanfunc=rescan;
#if VF_PART == 15
   a1.Messagebase=&mb;
#endif
   jbNewList(&config.PackerList); jbAddNode(&config.PackerList,(struct jbNode *)&p0); jbAddNode(&config.PackerList,(struct jbNode *)&p1); strcpy(p0.Name,"ARC"); strcpy(p1.Name,"ZIP"); p0.Packer[0]='c'; p1.Packer[0]=vf_in.pk&1 ? 'c' : 0;
   al.Node=&n1; al.Group=vf_in.ag[0];
   config.cfg_Flags=cf=vf_in.cfl; config.changed=FALSE; nomem=ioerror=ctrlc=FALSE;
   for(i=0;i<2;i++) { acc[i]=has(n0.Groups,vf_in.ag[i]) || has(n0.ReadOnlyGroups,vf_in.ag[i]); ro[i]=(vf_in.afl[i]&AREA_DEFREADONLY) || has(n0.ReadOnlyGroups,vf_in.ag[i]); }
   ok=AreaFix(&mm);

   /* expected links of the requester */
   want0=LINKED0; want1=LINKED1;
   if(P==3 || P==13 || P==6) want0=acc[0] && !(vf_in.ban[0]&1);
   if(P==4 || P==15 || P==6) want1=acc[1] && !(vf_in.ban[1]&1);
   if(P==5 || P==7) want0=(vf_in.afl[0]&AREA_MANDATORY) && !(vf_in.tfl[0]&TOSSNODE_FEED);
   if(P==7) want1=(vf_in.afl[1]&AREA_MANDATORY) && !(vf_in.tfl[1]&TOSSNODE_FEED);
   {
      int there0=0,there1=0,del0,del1;
      for(ar=(struct Area *)config.AreaList.First;ar;ar=ar->Next) { if(ar==&a0) there0++; if(ar==&a1) there1++; VF_CHECK(ar==&a0 || ar==&a1,"areafix: areas"); }
      del0=(P==5 || P==7) && !want0 && (vf_in.tfl[0]&TOSSNODE_FEED) && (cf & CFG_REMOVEWHENFEED);
      del1=P==7 && !want1 && (((vf_in.tfl[1]&TOSSNODE_FEED) && (cf & CFG_REMOVEWHENFEED)) || (cf & CFG_AREAFIXREMOVE));
      VF_CHECK(there0==!del0 && there1==!del1,"areafix: an area is removed only when its feed leaves or nobody needs it, where configured");
      VF_CHECK(nrmsg==!!del0+(P==7 && !want1 && (vf_in.tfl[1]&TOSSNODE_FEED) && (cf & CFG_REMOVEWHENFEED)),"areafix: nodes are told about removed areas");
      l0=l1=o0=0;
      if(there0) for(t=(struct TossNode *)a0.TossNodes.First;t;t=t->Next) { if(t->ConfigNode==&n0) { l0++; VF_CHECK(t->Flags==(LINKED0 ? vf_in.tfl[0] : ro[0] ? TOSSNODE_READONLY : 0),"areafix: read-only where configured"); } else { VF_CHECK(t==&xx && t->Flags==vf_in.ofl,"areafix: links of other nodes are kept"); o0++; } }
      if(there1) for(t=(struct TossNode *)a1.TossNodes.First;t;t=t->Next) { if(t->ConfigNode==&n0) { l1++; VF_CHECK(t->Flags==(LINKED1 ? vf_in.tfl[1] : ro[1] ? TOSSNODE_READONLY : 0),"areafix: read-only where configured"); } else VF_CHECK(0,"areafix: links of other nodes are kept"); }
      if(there0) VF_CHECK(l0==!!want0 && o0==1,"areafix: requester linked exactly where it may and asked");
      if(there1) VF_CHECK(l1==!!want1,"areafix: requester linked exactly where it may and asked");
      if(there0) VF_CHECK(!a0.changed==(l0==LINKED0),"areafix: changes are saved");
   }
   VF_CHECK(a0.Flags==vf_in.afl[0] && a1.Flags==vf_in.afl[1] && a0.Group==vf_in.ag[0],"areafix: settings of areas are kept");
   VF_CHECK(n0.Flags==(P==8 ? vf_in.nfl|NODE_PASSIVE : P==9 ? vf_in.nfl&~NODE_PASSIVE : vf_in.nfl),"areafix: only PAUSE and RESUME change the state of the node");
   VF_CHECK(strcmp(n0.AreafixPW,P==10 ? "new" : "Secret")==0 && strcmp(n1.AreafixPW,"wrong")==0,"areafix: only PWD changes the password, of the requester only");
   VF_CHECK(n0.Packer==(P==11 && (vf_in.pk&1) ? &p1 : &p0) && n1.Packer==NULL,"areafix: only COMPRESS changes the packer, to a configured one");
   VF_CHECK(!n0.changed==!((P==8 && !(vf_in.nfl & NODE_PASSIVE)) || (P==9 && (vf_in.nfl & NODE_PASSIVE)) || P==10 || (P==11 && (vf_in.pk&1))) && !n1.changed,"areafix: changed settings of a node are saved");
   if(n0.changed || a0.changed || a1.changed) VF_CHECK(config.changed,"areafix: a changed configuration is saved");
   VF_CHECK(n1.Flags==0,"areafix: other nodes are kept");
   if(P<3) { VF_CHECK(!config.changed && !nrescan && !nfwd && !nremote && !nlist[0] && !nlist[1] && !nlist[2] && !nhelp && nsent==1 && ok,"areafix: without the password only a refusal is sent"); }
   else if(P==12 || P==13 || P==15)
   {
      int w=(cf & CFG_ALLOWRESCAN) && (P==12 || (P==13 && want0) || (P==15 && want1));
      VF_CHECK(nrescan==w,"areafix: rescan only where allowed and linked");
      if(w) { VF_CHECK(rarea==(P==15 ? &a1 : &a0) && rmax==(P==12 ? 5 : P==13 ? 7 : 0) && RescanNode==NULL,"areafix: rescan of the area asked for"); VF_CHECK(ok==(vf_in.res&1),"areafix: failing rescan is reported"); RR; }
      else { VF_CHECK(ok && nsent==1,"areafix: reply"); RN; }
   }
   else
   {
      VF_CHECK(!nrescan && ok && nsent==1 && nfreed==1 && nremote==1,"areafix: one reply");
      VF_CHECK(nlist[0]==(P==4 || P==16) && nlist[1]==(P==16) && nlist[2]==(P==16),"areafix: lists asked for are sent");
   }
   if(P==18) { VF_CHECK(nfwd==!!(vf_in.nfl & NODE_FORWARDREQ) && nadd==(nfwd ? (vf_in.res&1 ? 1 : 2) : 0),"areafix: forwarded only for nodes that may"); if(nadd==2) VF_CHECK(na.Group==vf_in.ag[0],"areafix: group of the new area"); }
   else VF_CHECK(!nfwd && !nadd,"areafix: not forwarded");
   VF_REACH("end");
}
