// @props: P12
// @functions: HandleNetmail HandleMessage
// @level: bounded
// @bound: two own addresses, one echomail and two netmail areas with one extra address each, two routes, one configured node, one bounce and one file-attach pattern; text of two lines; any addresses, attributes, settings and outcomes
// @unwind: 12
// @hunwind: 12
// @lunwind: 204
// @parts: 0 1 2 3 4 5 6 7
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=40
// @modeldefs: -DVF_MEMMOVE
// @flags: --slice-formula --max-field-sensitivity-array-size 420
// @assume: packet writing (P08), filters (P17), pattern matching (P03), route expansion (P04), AreaFix (P19) and the message base answer anything their contracts allow
// @desc: netmail for this system is imported or goes to AreaFix, all other netmail is routed once by the first matching route, bounced or kept as bad mail
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D aka[2],an[2],in[2],dest,orig,pko,pkd,cn,exp; uint32_t cfg; uint16_t attr,mmfl,loopmode; uint8_t rm[2],bm,fm,inlist,loop,chg; uint8_t fres,fkill,ftwit,afres,impfail,badfail,bounfail,wfail,recfail,audfail,exists,moved,copied,cpyerr; char txt[6]; uint8_t names; };
#include "vf.h"
#if VF_PART == 1
#define REACH1(x) VF_REACH(x)
#else
#define REACH1(x)
#endif
#if VF_PART == 4 || VF_PART == 6
#define REACHB(x)
#else
#define REACHB(x) VF_REACH(x)
#endif
#define ROUTED (VF_PART>=2 && VF_PART<7)
#define ATTACH (VF_PART>=4 && VF_PART<7)
#if ATTACH
#define REACHK(x)
#else
#define REACHK(x) VF_REACH(x)
#endif
static struct MemMessage m,lm; static struct Area ae,n1,n2; static struct Messagebase mb; static struct ImportNode i1,i2; static struct Aka k0,k1; static struct Route r0,r1; static struct ConfigNode c0; static struct PatternNode bp,fp; static struct AreaFixName af; static struct Nodelist nl; static struct TextChunk ch,ch2;
static int filtered,areafixed,imported,bad,bounced,written,vias,receipts,audits,crs,nflow,moves,copies,lmbad,nlc,expanded,chk; static int boundir; static struct Node4D expdest; static char flowname[2][12]; static int flowkind[2]; static bool hdronly;
/* only the kind of text matters here */
int sprintf(char *d,const char *f,...) { int i; for(i=0;i<6 && f[i];i++) d[i]=f[i]; d[i]=0; return i; }
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
time_t time(time_t *t) { if(t) *t=1; return 1; }
static struct tm tmb;
struct tm *localtime(const time_t *t) { return &tmb; }
static int eq4(struct Node4D *a,struct Node4D *b) { return (a->Zone==b->Zone || !a->Zone || !b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static int id4(struct Node4D *a,struct Node4D *b) { return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static struct Node4D D,O;   /* destination and origin with zones filled in */
bool Filter(struct MemMessage *x) { filtered++; VF_CHECK(id4(&x->DestNode,&D) && id4(&x->OrigNode,&O),"net: missing zones come from the packet"); if(vf_in.fkill&1) x->Flags|=MMFLAG_KILL; if(vf_in.ftwit&1) x->Flags|=MMFLAG_TWIT; return !(vf_in.fres&1); }
bool AreaFix(struct MemMessage *x) { areafixed++; return !(vf_in.afres&1); }
bool mmAddBuf(struct jbList *l,char *b,uint32_t n)
{
   if(l==&lm.TextChunks) return TRUE;
   VF_CHECK(l==&m.TextChunks && n==1 && b[0]==13,"net: only a missing line end is added"); crs++; return TRUE;
}
bool mmAddLine(struct MemMessage *x,char *b) { VF_CHECK(x==&m && b[0]==1 && b[1]=='V' && b[2]=='i' && b[3]=='a' && b[4]==' ',"net: a Via line"); VF_CHECK(!written,"net: Via before sending"); vias++; return TRUE; }
struct MemMessage *mmAlloc(void) { return &lm; }
void mmFree(struct MemMessage *x) {}
void Print4DPat(struct Node4DPat *p,char *d) { d[0]=0; }
void Print4D(struct Node4D *n,char *d) { d[0]='1'; d[1]=0; }
int Compare4DPat(struct Node4DPat *p,struct Node4D *n)
{
   VF_CHECK(id4(n,&D),"net: rules look at the destination");
   return !((p==&r0.Pattern ? vf_in.rm[0] : p==&r1.Pattern ? vf_in.rm[1] : p==&bp.Pattern ? vf_in.bm : vf_in.fm) & 1);
}
char *StripRe(char *x) { return x; }   /* proof strip_re */
static int route;
void ExpandNodePat(struct Node4DPat *p,struct Node4D *d,struct Node4D *res) { VF_CHECK(p==(route==0 ? &r0.DestPat : &r1.DestPat) && id4(d,&D),"net: first matching route is used"); expanded++; *res=vf_in.exp; }
static int basetype;
char ChangeType(struct Node4D *d,char pri) { VF_CHECK(id4(d,basetype==PKTS_NORMAL ? &vf_in.exp : &D) && pri==basetype,"net: flavour rules for the next system"); return PKTS_HOLD+(vf_in.chg&3); }
bool IsLoopMail(struct MemMessage *x) { VF_CHECK(x==&m,"net: loop check"); return vf_in.loop&1; }
bool WriteBad(struct MemMessage *x,char *r) { if(x==&lm) { lmbad++; VF_CHECK(id4(&x->DestNode,&D) && id4(&x->OrigNode,&O),"net: copy of a loop mail"); return TRUE; } bad++; return !(vf_in.badfail&1); }
bool Bounce(struct MemMessage *x,char *r,bool h) { bounced++; hdronly=h; VF_CHECK(x==&m && !written && !vias,"net: bounced mail is not sent on"); return !(vf_in.bounfail&1); }
bool AnswerReceipt(struct MemMessage *x) { receipts++; return !(vf_in.recfail&1); }
bool AnswerAudit(struct MemMessage *x) { audits++; VF_CHECK(written==1,"net: audit after sending"); return !(vf_in.audfail&1); }
static bool nlcheck(struct Node4D *n) { nlc++; VF_CHECK(n->Zone==D.Zone && n->Net==D.Net && n->Node==D.Node && n->Point==0,"net: nodelist asked for the boss node"); return vf_in.inlist&1; }
bool WriteNetMail(struct MemMessage *x,struct Node4D *d,struct Aka *k)
{
   VF_CHECK(x==&m && k==(route==0 ? &k0 : &k1) && id4(d,&expdest),"net: sent to the routed system from the route's address");
   VF_CHECK(x->Type==PKTS_HOLD+(vf_in.chg&3) && vias==1,"net: flavour and Via line");
   VF_CHECK((x->Attr & ~(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT))==0,"net: local flags are not sent");
   VF_CHECK(((x->Attr ^ vf_in.attr) & (FLAG_PVT|FLAG_FILEATTACH|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT))==0,"net: other flags are kept");
   VF_CHECK((x->Attr & (FLAG_CRASH|FLAG_HOLD))==((x->Flags & MMFLAG_TOSSED) ? 0 : (vf_in.attr & (FLAG_CRASH|FLAG_HOLD))),"net: crash and hold are for our own mail only");
   written++; return !(vf_in.wfail&1);
}
static bool imp(struct MemMessage *x,struct Area *a);
bool osExists(char *f) { return vf_in.exists&1; }
static int same(const char *a,const char *b) { int i; for(i=0;i<11;i++) { if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 0; }
bool copyfile(char *f,char *n) { VF_CHECK((m.Flags & MMFLAG_EXPORTED) && same(f,copies ? "b" : "d/a") && same(n,copies ? "P/b" : "P/a"),"net: attached files are copied to the packet directory"); copies++; if(vf_in.cpyerr&1) { ioerror=TRUE; return FALSE; } return vf_in.copied&1; }
bool movefile(char *f,char *n) { VF_CHECK(!(m.Flags & MMFLAG_EXPORTED) && same(f,moves ? "I/b" : "I/a") && same(n,moves ? "P/b" : "P/a"),"net: routed files come from the inbound directory only"); moves++; return vf_in.moved&1; }
bool AddFlow(char *f,struct Node4D *d,char t,long mode) { int i; VF_CHECK(nflow<2 && id4(d,&expdest) && t==PKTS_HOLD+(vf_in.chg&3),"net: files go with the message"); for(i=0;i<11 && f[i];i++) flowname[nflow][i]=f[i]; flowname[nflow][i]=0; flowkind[nflow]=mode; nflow++; return TRUE; }
static struct Area *want;
static bool imp(struct MemMessage *x,struct Area *a)
{
   VF_CHECK(x==&m && a==want,"net: imported into the area for its address");
   VF_CHECK((x->Attr & FLAG_SENT) && !(x->Attr & FLAG_LOCAL),"net: imported mail is marked sent and not local");
   VF_CHECK(((x->Attr ^ vf_in.attr) & ~(FLAG_SENT|FLAG_LOCAL))==0,"net: other attributes kept");
   imported++; return !(vf_in.impfail&1);
}
void vf_harness(void)
{
   int i,tome,text; bool res; struct Node4D nd;
   static const char txts[4][7]={"ab\r\1cd","\1b\r\1c\r","\1b\r\1cd","\1b\rxc\r"};
   VF_INPUT();
   for(i=0;i<6;i++) vf_in.txt[i]=txts[VF_PART==7 ? 1 : VF_PART==1 ? 3 : VF_PART==0 ? 0 : VF_PART&3][i];
#if ATTACH
   vf_in.cfg=VF_PART==6 ? CFG_NODIRECTATTACH : 0; vf_in.bm=0; vf_in.loopmode=LOOP_IGNORE; vf_in.mmfl=VF_PART==5 ? MMFLAG_TOSSED : MMFLAG_EXPORTED; vf_in.fkill=0; vf_in.ftwit=0; vf_in.fres=0;
#else
   VF_ASSUME(!(vf_in.attr & FLAG_FILEATTACH));
#endif
   config.AkaList.First=(struct jbNode *)&k0; k0.Next=&k1; k1.Next=NULL; k0.Node=vf_in.aka[0]; k1.Node=vf_in.aka[1];
   config.AreaList.First=(struct jbNode *)&ae; ae.Next=&n1; n1.Next=&n2; n2.Next=NULL; ae.AreaType=AREATYPE_ECHOMAIL; ae.Aka=&k0; n1.AreaType=AREATYPE_NETMAIL; n2.AreaType=AREATYPE_NETMAIL; n1.Aka=&k0; n2.Aka=&k1;
   n1.TossNodes.First=(struct jbNode *)&i1; i1.Next=NULL; i1.Node=vf_in.in[0]; n2.TossNodes.First=(struct jbNode *)&i2; i2.Next=NULL; i2.Node=vf_in.in[1];
   if(ROUTED) { ae.Next=NULL; }
   mb.importfunc=imp; n1.Messagebase=&mb; n2.Messagebase=&mb;
   config.RouteList.First=(struct jbNode *)&r0; r0.Next=&r1; r1.Next=NULL; r0.Aka=&k0; r1.Aka=&k1;
   config.CNodeList.First=(struct jbNode *)&c0; c0.Next=NULL; c0.Node=vf_in.cn;
   config.BounceList.First=(struct jbNode *)&bp; bp.Next=NULL; config.FileAttachList.First=(struct jbNode *)&fp; fp.Next=NULL;
   config.AreaFixList.First=(struct jbNode *)&af; af.Next=NULL; strcpy(af.Name,"AreaFix"); strcpy(m.To,VF_PART==1 ? "areaFIX" : "Sysop");
   nl.nlCheckNode=nlcheck; config.cfg_NodelistType=VF_PART==3 ? NULL : &nl;
   strcpy(config.cfg_Inbound,"I"); strcpy(config.cfg_PacketDir,"P"); strcpy(m.Subject,ATTACH ? (VF_PART==5 ? "x\\d/a,b" : "d/a b") : "s");
   config.cfg_Flags=vf_in.cfg; config.cfg_LoopMode=vf_in.loopmode;
   m.DestNode=vf_in.dest; m.OrigNode=vf_in.orig; m.PktOrig=vf_in.pko; m.PktDest=vf_in.pkd; m.Attr=vf_in.attr; m.Flags=vf_in.mmfl; VF_ASSUME(!(vf_in.mmfl & (MMFLAG_KILL|MMFLAG_TWIT)));
   if(ATTACH) m.Attr=VF_PART==6 ? FLAG_FILEATTACH|FLAG_HOLD|FLAG_LOCAL : FLAG_FILEATTACH|FLAG_PVT;
   vf_in.attr=m.Attr; vf_in.mmfl=m.Flags;
   m.TextChunks.First=(struct jbNode *)&ch; m.TextChunks.Last=(struct jbNode *)&ch; m.TextChunks.Last=(struct jbNode *)&ch2; ch.Next=&ch2; ch2.Next=NULL; ch.Length=VF_PART==3 ? 2 : 3; ch2.Length=6-ch.Length; for(i=0;i<6;i++) if(i<(int)ch.Length) ch.Data[i]=vf_in.txt[i]; else ch2.Data[i-ch.Length]=vf_in.txt[i];
   D=vf_in.dest; O=vf_in.orig; if(!D.Zone) D.Zone=vf_in.pkd.Zone; if(!O.Zone) O.Zone=vf_in.pko.Zone;
   tome=eq4(&D,&k0.Node) || eq4(&D,&k1.Node);
   route=(vf_in.rm[0]&1) ? 0 : (vf_in.rm[1]&1) ? 1 : -1;
   /* flavour before the configured changes */
   basetype=PKTS_NORMAL; if(!(m.Flags & MMFLAG_TOSSED)) { if(m.Attr & FLAG_CRASH) basetype=PKTS_CRASH; if(m.Attr & FLAG_HOLD) basetype=PKTS_HOLD; }
   if((m.Attr & FLAG_FILEATTACH) && !(vf_in.cfg & CFG_NODIRECTATTACH) && basetype==PKTS_NORMAL) basetype=PKTS_DIRECT;
   expdest=basetype==PKTS_NORMAL ? vf_in.exp : D;
   if((vf_in.chg&3)==PKTS_DIRECT-PKTS_HOLD || (vf_in.chg&3)==PKTS_CRASH-PKTS_HOLD) expdest.Point=0;
   if(!ROUTED) want=(eq4(&k0.Node,&D) || eq4(&i1.Node,&D)) ? &n1 : (eq4(&k1.Node,&D) || eq4(&i2.Node,&D)) ? &n2 : (vf_in.cfg & CFG_NOROUTE) ? &n1 : NULL;
   res=HandleMessage(&m);
   VF_CHECK(filtered==1 && imported<=1 && written<=1 && bounced<=1 && bad<=1 && imported+written+bounced+bad<=1,"net: a message takes one way only, once");
   VF_CHECK(crs==(vf_in.txt[5]!=13),"net: the last line gets a line end if it has none");
   if((vf_in.fres&1) || (vf_in.fkill&1)) { VF_CHECK(!imported && !written && !bounced && !bad && !areafixed && res==!(vf_in.fres&1),"net: killed mail goes nowhere"); if(!ATTACH) REACHK("killed"); return; }
   if(VF_PART==1 && tome && !(m.Flags & MMFLAG_AUTOGEN))
   {
      VF_CHECK(areafixed==1,"net: requests for AreaFix are answered");
      if(vf_in.afres&1) { VF_CHECK(!res && !imported,"net: failing AreaFix is reported"); return; }
      if(!(vf_in.cfg & CFG_IMPORTAREAFIX)) { VF_CHECK(res && !imported && !written,"net: AreaFix mail is imported only when asked for"); if(VF_PART==1) REACH1("areafix"); return; }
   }
   else VF_CHECK(!areafixed,"net: only mail to AreaFix at this system goes there");
#if !ROUTED
   if(want)
   {
      text=(vf_in.cfg & CFG_IMPORTEMPTYNETMAIL) || vf_in.txt[0]!=1 || vf_in.txt[3]!=1;
      if(vf_in.ftwit&1) { VF_CHECK(res && !imported && !written && !bounced && !receipts,"net: twitted mail is not imported"); VF_REACH("twit"); return; }
      VF_CHECK(imported==text && !written && !bounced && !bad,"net: mail for this system is imported, empty mail only when asked for");
      if(imported && (vf_in.impfail&1)) { VF_CHECK(!res && !receipts,"net: a failed import is reported"); return; }
      VF_CHECK(receipts==((vf_in.attr & FLAG_RREQ) && (vf_in.cfg & CFG_ANSWERRECEIPT)),"net: receipts when asked for");
      VF_CHECK(res==!(receipts && (vf_in.recfail&1)),"net: result");
      VF_REACH("imported or empty");
      return;
   }
#endif
   VF_CHECK(!imported && !receipts,"net: mail for others is not imported");
   if(route<0) { VF_CHECK(bad==1 && !written && !bounced && res==!(vf_in.badfail&1),"net: mail without a route is kept as bad mail"); VF_REACH("unroutable"); return; }
   VF_CHECK(!bad,"net: routable mail is not bad mail");
   VF_CHECK(lmbad==((vf_in.loop&1) && vf_in.loopmode==LOOP_LOGBAD && !(m.Flags & MMFLAG_EXPORTED)),"net: loop mail is kept when asked for");
   nd=D; nd.Point=0;
   {
      int b1=VF_PART!=3 && (vf_in.bm&1) && !(vf_in.inlist&1);
      int b2=(vf_in.cfg & CFG_BOUNCEPOINTS) && ((eq4(&k0.Node,&nd) && k0.Node.Point==0) || (eq4(&k1.Node,&nd) && k1.Node.Point==0)) && !eq4(&c0.Node,&D);
      int b3=(vf_in.attr & FLAG_FILEATTACH) && !(m.Flags & MMFLAG_EXPORTED) && !(vf_in.fm&1);
      VF_CHECK(bounced==(b1 || b2 || b3),"net: bounced exactly for unlisted nodes, unknown points and refused files");
      if(bounced) { VF_CHECK(!written && !nflow && !moves && !copies && res==!(vf_in.bounfail&1) && hdronly==((vf_in.cfg & CFG_BOUNCEHEADERONLY)!=0),"net: bounced mail is not sent on"); if(VF_PART!=6 && VF_PART!=4) REACHB("bounced"); return; }
   }
#if ATTACH
   if(copies && (vf_in.cpyerr&1)) { VF_CHECK(!res && !written,"net: failed copy is reported"); return; }
   VF_CHECK(nflow==2,"net: every attached file is queued");
   for(i=0;i<2;i++)
   {
      int ex=m.Flags & MMFLAG_EXPORTED, cp=ex ? ((vf_in.exists&1) && (vf_in.copied&1)) : (vf_in.moved&1);
      if(cp) VF_CHECK(same(flowname[i],i ? "P/b" : "P/a") && flowkind[i]==FLOW_DELETE,"net: the copy is queued and removed after sending");
      else if(ex) VF_CHECK(same(flowname[i],i ? "b" : "d/a") && flowkind[i]==FLOW_NONE,"net: own files are kept after sending");
      else VF_CHECK(same(flowname[i],i ? "I/b" : "I/a") && flowkind[i]==FLOW_DELETE,"net: inbound file queued");
   }
   VF_CHECK(same(m.Subject,"a b"),"net: only file names are sent");
#else
   VF_CHECK(!nflow && !moves && !copies && m.Subject[0]=='s' && m.Subject[1]==0,"net: no files without attach");
#endif
   VF_CHECK(written==1 && expanded==(basetype==PKTS_NORMAL),"net: all other mail is sent on");
   if(vf_in.wfail&1) { VF_CHECK(!res && !audits,"net: failed write is reported"); return; }
   VF_CHECK(audits==((vf_in.attr & FLAG_AUDIT) && (vf_in.cfg & CFG_ANSWERAUDIT) && (m.Flags & MMFLAG_TOSSED)),"net: audits when asked for");
   VF_CHECK(res==!(audits && (vf_in.audfail&1)),"net: result");
   VF_REACH("sent");
}
