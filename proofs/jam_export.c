// @props: P14
// @timeout: 150
// @functions: jam_exportfunc jam_rescanfunc jam_ExportJAMNum jam_makekludge jam_getarea jam_openbase Parse5D mystrncpy
// @level: bounded
// @bound: 14 message shapes (fields of every kind, long fields, texts with and without origin line or zero bytes) with any attributes, dates and cost, every outcome of reading, handling, locking and updating
// @unwind: 130
// @hunwind: 210
// @lunwind: 210
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11 12 13
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=150
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @assume: the JAM library behaves as jam_store, jam_change and jam_damaged establish; lines and texts added to a message are taken as P09 states
// @desc: exactly the local, unsent, undeleted messages are exported, each with its header, control lines and text; it is marked as sent once it was handed over, and only then; a rescan changes nothing
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint32_t attr,cost,dw,hx[6]; int32_t off; uint8_t lf,cr,hf,kill; };
#include "vf.h"
#define JS_TEXT 8
#define js_size 1
#define js_base 5
#define js_off vf_in.off
#define P(x) (VF_PART==(x))
#include "jam_stub.h"
#define RES (P(5) || P(13))
static struct Area area; static struct Aka aka; static int nh,changed,dels,tids; static s_JamMsgHeader ch; static s_JamSubPacket pk; static char lines[260],txt[40]; static int ll,tl;
static uint16_t hattr,hcost,hflags; static struct Node4D ho,hd,hor; static char hfrom[36],hto[36],hsub[72],harea[80]; static uint32_t hnum; static int dateok;
static struct { int id,len; const char *d; } fl[8]; static int nf,gi; static s_JamSubfield cur;
static void field(int id,const char *d) { fl[nf].id=id; fl[nf].len=strlen(d); fl[nf].d=d; nf++; }
static const char *text; static int textlen;
int JAM_CreateMB(char *n,uint32_t b,s_JamBase **p) { VF_CHECK(0,"JAM: an existing base is not created again"); return 1; }
int JAM_ReadMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h,s_JamSubPacket **p)
{
   VF_CHECK(b==jb[0] && n==0 && p,"JAM export: the message of that number is read");
   if(P(8)) return JAM_NO_MESSAGE; if(P(9)) return JAM_CORRUPT_MSG;
   memset(h,0,sizeof(*h)); h->Attribute=vf_in.attr; h->Cost=vf_in.cost; h->DateWritten=vf_in.dw; h->TxtLen=textlen; h->TxtOffset=7; h->MsgNum=5; h->ReplyTo=vf_in.hx[0]; h->Reply1st=vf_in.hx[1]; h->ReplyNext=vf_in.hx[2]; h->MsgIdCRC=vf_in.hx[3];
   h->SubfieldLen=vf_in.hx[4]; h->TimesRead=vf_in.hx[5];
   *p=&pk; return 0;
}
int JAM_DelSubPacket(s_JamSubPacket *p) { VF_CHECK(p==&pk,"JAM export: fields freed once"); dels++; return 0; }
s_JamSubfield *JAM_GetSubfield(s_JamSubPacket *p)
{ if(p) gi=0; if(gi>=nf) return NULL; cur.LoID=fl[gi].id; cur.HiID=0; cur.DatLen=fl[gi].len; cur.Buffer=(char *)fl[gi].d; gi++; return &cur; }
int JAM_ReadMsgText(s_JamBase *b,uint32_t o,uint32_t n,char *d) { int i; VF_CHECK(b==jb[0] && o==7 && (int)n==textlen,"JAM export: the text of the message"); if(P(10)) return JAM_IO_ERROR; for(i=0;i<textlen;i++) d[i]=text[i]; return 0; }
int JAM_ChangeMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h) { VF_CHECK(b==jb[0] && n==0 && locked && nh==1,"JAM export: marked as sent under the lock after it was handed over"); ch=*h; changed++; return vf_in.cr ? JAM_IO_ERROR : 0; }
bool mmAddLine(struct MemMessage *m,char *b) { int i; for(i=0;b[i] && i<200;i++) { VF_CHECK(ll<260,"JAM export: room in the proof"); lines[ll++]=b[i]; } return TRUE; }
bool mmAddBuf(struct jbList *c,char *b,uint32_t n) { uint32_t i; for(i=0;i<n && i<40;i++) txt[tl++]=b[i]; return TRUE; }
bool AddTID(struct MemMessage *m) { tids++; return TRUE; }
void MakeFidoDate(time_t t,char *d) { dateok=(t==(time_t)vf_in.dw+vf_in.off); d[0]='D'; d[1]=0; }
bool ExtractAddress(char *o,struct Node4D *n) { VF_CHECK(strncmp(o," * Origin: x",12)==0,"JAM export: address taken from the origin line"); n->Zone=9; n->Net=8; n->Node=7; n->Point=6; return TRUE; }
static bool handle(struct MemMessage *m)
{
   nh++; hattr=m->Attr; hcost=m->Cost; hflags=m->Flags; ho=m->OrigNode; hd=m->DestNode; hor=m->Origin4D; strcpy(hfrom,m->From); strcpy(hto,m->To); strcpy(hsub,m->Subject); strcpy(harea,m->Area); hnum=m->msgnum;
   VF_CHECK(!changed && !locked,"JAM export: handed over before it is marked as sent");
   return !vf_in.hf;
}
bool HandleMessage(struct MemMessage *m) { return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
extern bool jam_beforefunc(void),jam_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm)),jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm));
static int same(const char *a,const char *b,int n) { int i; for(i=0;i<n;i++) if(a[i]!=b[i]) return 0; return 1; }
#define LINES(s) VF_CHECK(ll==(int)sizeof(s)-1 && same(lines,s,sizeof(s)-1),"JAM export: exactly the control lines of the message")
#define TEXT(s) VF_CHECK(tl==(int)sizeof(s)-1 && same(txt,s,sizeof(s)-1),"JAM export: exactly the text of the message")
#define NOFIDO (MSG_ARCHIVESENT|MSG_DIRECT|MSG_IMMEDIATE|MSG_KILLFILE|MSG_TRUNCFILE|MSG_CONFIRMREQ|MSG_FPU)
static char big[121];
void vf_harness(void)
{
   VF_INPUT();
   bool r; int i,exp; uint16_t a=0; uint32_t b;
   VF_ASSUME(vf_in.lf<2 && vf_in.cr<2 && vf_in.hf<2 && vf_in.kill<2 && vf_in.off>=-50000 && vf_in.off<=50000);
   vf_in.attr&=~NOFIDO; if(P(3)) vf_in.attr|=MSG_DIRECT|MSG_IMMEDIATE|MSG_FPU; if(P(12)) vf_in.attr|=NOFIDO;
   if(!P(0) && !P(5) && !P(13)) { vf_in.attr|=MSG_LOCAL; vf_in.attr&=~(MSG_SENT|MSG_DELETED); }
   if(P(5)) vf_in.attr&=~MSG_DELETED;
   config.cfg_jam_MaxOpen=1; config.cfg_Flags=(vf_in.kill ? CFG_ALLOWKILLSENT : 0)|(P(11) ? CFG_FORCEINTL|CFG_ADDTID : 0);
   strcpy(area.Path,"b"); strcpy(area.Tagname,"tag"); area.AreaType=P(1) || P(4) || P(7) || P(11) || P(3) ? AREATYPE_NETMAIL : AREATYPE_ECHOMAIL; aka.Node.Zone=1; aka.Node.Net=2; aka.Node.Node=3; aka.Node.Point=4; area.Aka=&aka; lockres=vf_in.lf;
   textlen=0; text="";
   if(P(1)) { field(JAMSFLD_OADDRESS,"1:2/3.4@dom"); field(JAMSFLD_DADDRESS,"5:6/7"); field(JAMSFLD_SENDERNAME,"me"); field(JAMSFLD_RECVRNAME,"you"); field(JAMSFLD_SUBJECT,"sub"); field(JAMSFLD_MSGID,"1:2/3 ab"); field(JAMSFLD_REPLYID,"r"); field(JAMSFLD_PID,"p"); text="hi\rho\r"; textlen=6; }
   if(P(2)) { field(JAMSFLD_FTSKLUDGE,"Via x"); field(JAMSFLD_SEENBY2D,"1/2 3"); field(JAMSFLD_SEENBY2D,"4/5"); field(JAMSFLD_PATH2D,"6/7"); text="a\r * Origin: x (9:8/7.6)\r"; textlen=25; }
   if(P(3)) { field(JAMSFLD_OADDRESS,"1:2/3"); field(JAMSFLD_DADDRESS,"1:6/7.8"); field(JAMSFLD_FLAGS,"XYZ"); }
   if(P(4)) { field(JAMSFLD_SUBJECT,"sub"); field(JAMSFLD_ENCLFILE,"file.zip"); field(JAMSFLD_ENCLFILE,"second"); field(JAMSFLD_ENCLFREQ,"q"); field(JAMSFLD_DADDRESS,"1:6/7.8"); field(JAMSFLD_DADDRESS,"2:1/1"); }
   if(P(5) || P(10)) { text="t\r"; textlen=2; }
   if(P(6)) { for(i=0;i<120;i++) big[i]='b'; field(JAMSFLD_SENDERNAME,big); field(JAMSFLD_RECVRNAME,big); field(JAMSFLD_SUBJECT,big); field(JAMSFLD_FTSKLUDGE,big); text="ab\0cd"; textlen=5; }
   if(P(7)) { field(JAMSFLD_OADDRESS,"bad"); field(JAMSFLD_DADDRESS,""); field(JAMSFLD_MSGID,""); field(JAMSFLD_SENDERNAME,""); field(JAMSFLD_FTSKLUDGE,""); text="\0"; textlen=1; }
   if(P(11)) { field(JAMSFLD_OADDRESS,"1:2/3"); field(JAMSFLD_DADDRESS,"1:6/7"); text="no origin"; textlen=9; }
   VF_CHECK(jam_beforefunc(),"JAM: started");
   if(RES) r=jam_rescanfunc(&area,0,handle); else r=jam_exportfunc(&area,handle);
   b=vf_in.attr;
   exp=!(P(8) || P(9) || P(10)) && !(b & MSG_DELETED) && (RES || ((b & MSG_LOCAL) && !(b & MSG_SENT)));
   VF_CHECK(nh==exp,"JAM export: exactly the local, unsent, undeleted messages are exported, once");
   VF_CHECK(dels==!(P(8) || P(9)),"JAM export: fields freed once");
   VF_CHECK(!locked,"JAM export: unlocked afterwards");
   if(exp)
   {
      VF_CHECK(r==(!vf_in.hf && (RES || !vf_in.lf)),"JAM export: failures are reported");
      if(b & MSG_PRIVATE) a|=FLAG_PVT; if(b & MSG_CRASH) a|=FLAG_CRASH; if(b & MSG_HOLD) a|=FLAG_HOLD; if((b & MSG_FILEATTACH) || P(4)) a|=FLAG_FILEATTACH; if(b & MSG_FILEREQUEST) a|=FLAG_FILEREQ; if(b & MSG_RECEIPTREQ) a|=FLAG_RREQ;
      VF_CHECK(hattr==a && hcost==(uint16_t)vf_in.cost && dateok && hnum==5,"JAM export: attributes, cost, date and number");
      VF_CHECK(hflags==(RES ? MMFLAG_RESCANNED : MMFLAG_EXPORTED),"JAM export: marked as exported or rescanned");
      VF_CHECK(strcmp(harea,area.AreaType==AREATYPE_NETMAIL ? "" : "tag")==0,"JAM export: area of the message");
      VF_CHECK(tids==(P(11) ? 1 : 0),"JAM export: TID as configured");
      if(RES || vf_in.hf || vf_in.lf) VF_CHECK(!changed,"JAM export: not marked as sent when it was not handed over or only rescanned");
      else
      {
         uint32_t na=b | MSG_SENT; if(vf_in.kill && (b & MSG_KILLSENT) && area.AreaType==AREATYPE_NETMAIL) na|=MSG_DELETED;
         VF_CHECK(changed==1 && ch.Attribute==na && ch.DateProcessed==(uint32_t)(1000-vf_in.off),"JAM export: marked as sent, deleted only as configured");
         VF_CHECK(ch.Cost==vf_in.cost && ch.DateWritten==vf_in.dw && ch.TxtLen==(uint32_t)textlen && ch.TxtOffset==7 && ch.MsgNum==5 && ch.ReplyTo==vf_in.hx[0] && ch.Reply1st==vf_in.hx[1] && ch.ReplyNext==vf_in.hx[2] && ch.MsgIdCRC==vf_in.hx[3] && ch.SubfieldLen==vf_in.hx[4] && ch.TimesRead==vf_in.hx[5],"JAM export: the header is otherwise kept");
      }
#if VF_PART==0
      LINES(""); TEXT("");
#endif
#if VF_PART==1
      VF_CHECK(ho.Zone==1 && ho.Net==2 && ho.Node==3 && ho.Point==4 && hd.Zone==5 && hd.Net==6 && hd.Node==7 && hd.Point==0,"JAM export: sender and recipient");
      VF_CHECK(!strcmp(hfrom,"me") && !strcmp(hto,"you") && !strcmp(hsub,"sub"),"JAM export: names and subject");
      LINES("\1MSGID: 1:2/3 ab\r\1REPLY: r\r\1PID: p\r\1INTL 5:6/7 1:2/3\r\1FMPT 4\r"); TEXT("hi\rho\r");
#endif
#if VF_PART==2
      VF_CHECK(hor.Zone==9 && hor.Net==8 && hor.Node==7 && hor.Point==6,"JAM export: origin address");
      LINES("\1Via x\rSEEN-BY: 1/2 3\rSEEN-BY: 4/5\r\1PATH: 6/7\r"); TEXT("a\r * Origin: x (9:8/7.6)\r");
#endif
#if VF_PART==3
      LINES("\1FLAGS: XYZ DIR IMM FPU\r\1TOPT 8\r"); TEXT("");
#endif
#if VF_PART==4
      VF_CHECK(!strcmp(hsub,"file.zip") && hd.Zone==1 && hd.Net==6 && hd.Node==7 && hd.Point==8,"JAM export: attached file and first recipient");
#endif
#if VF_PART==5
      LINES("\1RESCANNED 1:2/3.4\r"); TEXT("t\r");
#endif
#if VF_PART==6
      VF_CHECK(strlen(hfrom)==35 && strlen(hto)==35 && strlen(hsub)==71 && hfrom[34]=='b' && hto[34]=='b' && hsub[70]=='b',"JAM export: long names are cut");
      VF_CHECK(ll==122 && lines[0]==1 && lines[1]=='b' && lines[120]=='b' && lines[121]==13,"JAM export: long control lines are kept"); TEXT("ab");
#endif
#if VF_PART==7
      LINES("\1MSGID: \r\1\r"); TEXT(""); VF_CHECK(!hfrom[0] && !ho.Zone && !hd.Zone,"JAM export: bad addresses are not used");
#endif
#if VF_PART==11
      LINES("\1INTL 1:6/7 1:2/3\r"); TEXT("no origin");
#endif
#if VF_PART==12
      LINES("\1FLAGS: A/S DIR IMM KFS TFS CFM FPU\r");
#endif
#if VF_PART<8 || VF_PART>10
      VF_REACH("exported");
#endif
   }
   else
   {
      VF_CHECK(!changed && !nlocks,"JAM export: other messages are untouched");
      VF_CHECK(r==!P(10),"JAM export: skipping a message is no failure");
   }
   VF_REACH("end");
}
