// @props: P12
// @functions: Bounce AnswerReceipt AnswerAudit
// @level: bounded
// @bound: two routes, a text of two blocks; reasons of 3 and 420 characters; any flags, settings and outcomes
// @unwind: 12
// @hunwind: 12
// @lunwind: 430
// @parts: 0 1 2 3 4
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=40
// @modeldefs: -DVF_DEC_DIV
// @flags: --slice-formula --max-field-sensitivity-array-size 520
// @assume: routing of the answer is decided by HandleNetmail (handle_net)
// @desc: bounces, receipts and audits go once to the sender of the message, from the address of his route, are marked as generated, and generated messages are never bounced
#include <crashmail/crashmail.h>
struct vf_input { uint16_t mmfl; uint32_t cfg; uint8_t rm[2],dm[2],oom,hres,hdr,echo; char d[6]; };
#include "vf.h"
bool Bounce(struct MemMessage *mm,char *reason,bool headeronly); bool AnswerReceipt(struct MemMessage *mm); bool AnswerAudit(struct MemMessage *mm);
static struct MemMessage m,t; static struct Route r0,r1; static struct Aka k0,k1; static struct TextChunk c0,c1; static char tb[40],rsn[430];
static int handled,freed,lines,bufs,kludges,tids; static int who;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
time_t time(time_t *x) { return 1; }
void MakeFidoDate(time_t x,char *d) { d[0]='D'; d[1]=0; }
void Print4D(struct Node4D *n,char *d) { d[0]=0; }
static int id4(struct Node4D *a,struct Node4D *b) { return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
int Compare4DPat(struct Node4DPat *p,struct Node4D *n)
{
   if(n==&m.DestNode) return !((p==&r0.Pattern ? vf_in.dm[0] : vf_in.dm[1]) & 1);
   VF_CHECK(id4(n,VF_PART<3 && m.Area[0] ? &m.Origin4D : &m.OrigNode),"answer: goes to the sender");
   return !((p==&r0.Pattern ? vf_in.rm[0] : vf_in.rm[1]) & 1);
}
void ExpandNodePat(struct Node4DPat *p,struct Node4D *d,struct Node4D *res) { struct Node4D z={1,2,3,4}; *res=z; }
struct MemMessage *mmAlloc(void) { return (vf_in.oom&1) ? NULL : &t; }
void mmFree(struct MemMessage *x) { VF_CHECK(x==&t,"answer: only the answer is freed"); freed++; }
bool MakeNetmailKludges(struct MemMessage *x) { kludges++; VF_CHECK(x==&t,"answer: kludges"); return TRUE; }
bool AddTID(struct MemMessage *x) { tids++; return TRUE; }
void *osAlloc(uint32_t n) { return tb; }
void osFree(void *p) {}
bool mmAddLine(struct MemMessage *x,char *b)
{
   VF_CHECK(x==&t,"answer: text goes to the answer");
   if(VF_PART==0 && lines==0) VF_CHECK(b[0]=='w' && b[1]=='h' && b[2]=='y' && b[3]==13 && b[4]==13 && b[5]==0,"bounce: reason first");
   if(VF_PART==1 && lines==0) VF_CHECK(b[0]=='r' && strlen(b)<=391,"bounce: long reason cut");
   lines++; return TRUE;
}
bool mmAddBuf(struct jbList *l,char *b,uint32_t n)
{
   int i;
   VF_CHECK(l==&t.TextChunks && b==tb && n==3,"bounce: text of the message");
   for(i=0;i<3;i++) { char w=vf_in.d[bufs*3+i]; VF_CHECK(b[i]==(w==1 ? '@' : w),"bounce: text kept, control characters made visible"); }
   bufs++; return TRUE;
}
bool HandleMessage(struct MemMessage *x)
{
   VF_CHECK(x==&t && !freed,"answer: handed over");
   VF_CHECK(x->Flags & MMFLAG_AUTOGEN,"answer: marked as generated");
   VF_CHECK(x->Area[0]==0 && id4(&x->DestNode,VF_PART<3 && m.Area[0] ? &m.Origin4D : &m.OrigNode) && id4(&x->OrigNode,who==0 ? &k0.Node : &k1.Node),"answer: netmail to the sender from the address of his route");
   VF_CHECK(x->To[0]=='F' && x->To[1]==0 && x->From[0]=='Y' && x->From[1]==0 && (x->Attr & FLAG_PVT) && !(x->Attr & (FLAG_RREQ|FLAG_AUDIT)),"answer: private, to the author, and asks for no answer itself");
   VF_CHECK(kludges==1 && tids==((vf_in.cfg & CFG_ADDTID)!=0) && lines>=1,"answer: complete");
   handled++; return !(vf_in.hres&1);
}
void vf_harness(void)
{
   bool res; int i; struct Node4D o={2,3,4,5},d={6,7,8,9},g={10,11,12,13},a={20,21,22,0},b={30,31,32,0};
   VF_INPUT();
   m.OrigNode=o; m.DestNode=d; m.Origin4D=g; k0.Node=a; k1.Node=b; config.RouteList.First=(struct jbNode *)&r0; r0.Next=&r1; r1.Next=NULL; r0.Aka=&k0; r1.Aka=&k1;
   strcpy(m.From,"F"); strcpy(m.To,"T"); strcpy(m.Subject,"S"); strcpy(m.DateTime,"X"); strcpy(config.cfg_Sysop,"Y"); if(VF_PART==2) strcpy(m.Area,"AR");
   m.Flags=vf_in.mmfl; config.cfg_Flags=vf_in.cfg; m.TextChunks.First=(struct jbNode *)&c0; c0.Next=&c1; c1.Next=NULL; c0.Length=3; c1.Length=3; for(i=0;i<3;i++) { c0.Data[i]=vf_in.d[i]; c1.Data[i]=vf_in.d[3+i]; }
   who=(vf_in.rm[0]&1) ? 0 : (vf_in.rm[1]&1) ? 1 : -1;
#if VF_PART == 0 || VF_PART == 2
   res=Bounce(&m,"why",vf_in.hdr&1);
#elif VF_PART == 1
   for(i=0;i<10;i++) rsn[i]='r'; memset(rsn,'r',420);
   res=Bounce(&m,rsn,vf_in.hdr&1);
#elif VF_PART == 3
   res=AnswerReceipt(&m);
#else
   res=AnswerAudit(&m);
#endif
   if((VF_PART<3 && (vf_in.mmfl & MMFLAG_AUTOGEN)) || who<0) { VF_CHECK(res && !handled,"answer: generated mail is not bounced, nothing without a route"); VF_REACH("none"); return; }
   if(vf_in.oom&1) { VF_CHECK(!res && !handled,"answer: out of memory is reported"); return; }
   VF_CHECK(handled==1 && freed==1 && res==!(vf_in.hres&1),"answer: sent once");
   VF_CHECK(m.Flags==vf_in.mmfl && id4(&m.OrigNode,&o) && id4(&m.DestNode,&d),"answer: message itself unchanged");
   if(VF_PART<3) VF_CHECK(bufs==((vf_in.hdr&1) ? 0 : 2),"bounce: text unless only the header is wanted");
   VF_REACH("sent");
}
