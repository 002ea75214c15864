// @props: P14
// @functions: jam_importfunc jam_addfield jam_findflag jam_getarea jam_openbase jam_beforefunc
// @level: bounded
// @bound: 12 message shapes (control lines of every kind, empty, long, unfinished and split lines) with any attributes, dates, cost and checksums and every outcome of locking and writing
// @unwind: 130
// @hunwind: 130
// @lunwind: 130
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=150
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @assume: the JAM library behaves as jam_store, jam_change and jam_damaged establish
// @desc: an imported message is stored once, under the lock, with its header, attributes, addresses, control lines and text in the fields the format has for them; a failure is reported
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint16_t attr,cost; struct Node4D on,dn,og; int32_t off; uint32_t fd,crc1,crc2; uint8_t lf,ar,ur; };
#include "vf.h"
#define JS_TEXT 128
#define js_size 0
#define js_base 1
#define js_off vf_in.off
#include "jam_stub.h"
#define CA ((char)0xe5)
#define CB ('q')
static struct MemMessage m; static struct TextChunk ch[2]; static struct Path pa; static struct Area area;
extern bool jam_importfunc(struct MemMessage *mm,struct Area *area); extern bool jam_beforefunc(void);
time_t FidoToTime(char *d) { VF_CHECK(d==m.DateTime,"JAM import: date of the message"); return vf_in.fd; }
uint32_t JAM_Crc32(char *b,uint32_t n) { if(b==m.MSGID && n==3) return vf_in.crc1; if(b==m.REPLY && n==2) return vf_in.crc2; crcbad++; return 0; }
s_JamSubPacket *JAM_NewSubPacket(void) { static s_JamSubPacket p; VF_CHECK(!curpk,"JAM import: one set of fields"); return curpk=&p; }
int JAM_DelSubPacket(s_JamSubPacket *p) { VF_CHECK(p==curpk && !delpk,"JAM import: fields freed once"); delpk=1; return 0; }
int JAM_PutSubfield(s_JamSubPacket *p,s_JamSubfield *f)
{
   int i;
   VF_CHECK(p==curpk && nrec<RMAX && f->DatLen<=103 && f->HiID==0 && !added,"JAM import: field stored before the message");
   VF_CHECK(rec_n+f->DatLen<=RPOOL,"JAM import: room in the proof"); rec_id[nrec]=f->LoID; rec_len[nrec]=f->DatLen; rec_at[nrec]=rec_n; for(i=0;i<(int)f->DatLen && i<104;i++) rec_d[rec_n+i]=f->Buffer[i];
   rec_n+=f->DatLen; nrec++; return 0;
}
int JAM_AddMessage(s_JamBase *b,s_JamMsgHeader *h,s_JamSubPacket *p,char *t,uint32_t n)
{
   uint32_t i;
   VF_CHECK(b==jb[0] && locked && p==curpk && !delpk && !added && n<=JS_TEXT,"JAM import: stored once, under the lock");
   ah=*h; atl=n; for(i=0;i<n && i<JS_TEXT;i++) at_[i]=t[i]; added++; return vf_in.ar ? JAM_IO_ERROR : 0;
}
static char sbuf[40];
char *mmMakeSeenByBuf(struct jbList *l) { char *b=malloc(40); int i; VF_ASSUME(b!=0); VF_CHECK(l==&m.SeenBy,"JAM import: SEEN-BY of the message"); for(i=0;i<40;i++) b[i]="SEEN-BY: 1/2 3\rSEEN-BY: 4/5\r\0\0\0\0\0\0\0\0\0\0\0\0"[i]; return b; }
/* next record of this kind */
static int nexp;
static void has(int id,int nth,const char *v)
{
   int i,k=-1,n=0,j,l=strlen(v); nexp++;
   for(i=0;i<nrec;i++) if(rec_id[i]==id) { if(n==nth) k=i; n++; }
   VF_CHECK(k>=0,"JAM import: every part of the message has its field");
   if(k>=0)
   {
      VF_CHECK(rec_len[k]==l,"JAM import: field with exactly its text");
      for(j=0;j<l;j++) { char c=v[j]=='#' ? CA : v[j]=='$' ? CB : v[j]; VF_CHECK(rec_d[rec_at[k]+j]==c,"JAM import: field with exactly its text"); }
   }
}
static int cn;
static void text(const char *s) { int i; struct TextChunk *t=&ch[cn++]; for(i=0;s[i];i++) t->Data[i]=s[i]=='#' ? CA : s[i]=='$' ? CB : s[i]; t->Length=i; jbAddNode(&m.TextChunks,(struct jbNode *)t); }
static void stored(const char *s) { int i,ok=1; for(i=0;s[i];i++) if(at_[i]!=(char)(s[i]=='#' ? CA : s[i]=='$' ? CB : s[i])) ok=0; VF_CHECK(ok && atl==i,"JAM import: exactly the text without control lines"); }
#define P(x) (VF_PART==(x))
void vf_harness(void)
{
   VF_INPUT();
   int i; bool r; uint32_t a=0; char b[100];
   VF_ASSUME(vf_in.lf<2 && vf_in.ar<2 && vf_in.ur<2 && vf_in.off>=-50000 && vf_in.off<=50000);
   jbNewList(&m.TextChunks); jbNewList(&m.SeenBy); jbNewList(&m.Path);
   lockres=vf_in.lf; unlockres=vf_in.ur ? JAM_IO_ERROR : 0;
   config.cfg_jam_MaxOpen=1; config.cfg_Flags=P(5) ? CFG_IMPORTSEENBY : 0; strcpy(area.Path,"b");
   strcpy(m.MSGID,"abc"); strcpy(m.REPLY,"ab"); m.Cost=vf_in.cost; m.OrigNode=vf_in.on; m.DestNode=vf_in.dn; m.Origin4D=vf_in.og;
   m.Attr=vf_in.attr & ~(FLAG_FILEATTACH|FLAG_FILEREQ);
   /* names of any characters; addresses of fixed width in the echomail and netmail cases */
   m.From[0]=CA; m.From[1]=0; m.To[0]=CB; m.To[1]='t'; m.To[2]=0; strcpy(m.Subject,"s");
   m.OrigNode.Zone=1; m.OrigNode.Net=2; m.OrigNode.Node=3; m.OrigNode.Point=4; m.DestNode.Zone=5; m.DestNode.Net=6; m.DestNode.Node=7; m.DestNode.Point=0;
   m.Origin4D.Zone=8; m.Origin4D.Net=9; m.Origin4D.Node=10; m.Origin4D.Point=11;
   if(P(0)) text("\1PID: #$x\r\1MSGID: 1:2/3 $#\rhello#\r\1REPLY:  4/$ \r$\n#\r");
   if(P(1)) { text("\1Via #$\r\1INTL 1:2/3 4:5/6\r\1FMPT 4\r\1TOPT 1\r"); strcpy(m.Area,"e"); }
   if(P(2)) text("\1FLAGS DIR\r\1FLAGS: DIR XYZ imm #$\rt");
   if(P(3)) { m.Attr|=FLAG_FILEATTACH; strcpy(m.Subject,"a, bc"); m.From[0]=0; m.To[0]=0; }
   if(P(4)) { m.Attr|=FLAG_FILEREQ; strcpy(m.Subject,"q"); text("#"); text("$\r\1PID:"); }
   if(P(5)) { strcpy(m.Area,"e"); jbAddNode(&m.Path,(struct jbNode *)&pa); pa.Paths=2; strcpy(pa.Path[0],"1/2"); strcpy(pa.Path[1],"3/4"); text("x\r"); }
   if(P(6)) text("\1\r\1MSGID:\r\1REPLY:");
   if(P(7)) { text("\1K00000000011111111112222222222333333333344444444445555555555666666666677777777778888888888999999999#$\r"); }
   if(P(8)) { text("\1FLAGS: AA BB CC DD EE FF GG HH II JJ KK LL MM NN OO PP QQ RR SS TT UU VV WW XX YY ZZ 11 22 33 44 55 66 77 88\r"); }
   if(P(9)) { text("\1FLAGS: PVT HLD CRA K/S SNT RCV A/S DIR FIL FRQ\r"); text("\1FLAGS: IMM KFS TFS LOK RRQ CFM FPU\r"); m.Subject[0]=0; }
   if(P(10)) text("PID: #\r MSGID: x\r");
   if(P(11)) { text("\1PI\r\1MSGID\r"); text("\r"); }
   VF_CHECK(jam_beforefunc(),"JAM: started");
   r=jam_importfunc(&m,&area);
   VF_CHECK(r==(!vf_in.lf && !vf_in.ar && !vf_in.ur),"JAM import: success is reported exactly when the message was stored");
   VF_CHECK(added==!vf_in.lf && !locked && nlocks==1 && nunlocks==!vf_in.lf && delpk,"JAM import: stored once and unlocked");
   if(added)
   {
      if(vf_in.attr & FLAG_PVT) a|=MSG_PRIVATE; if(vf_in.attr & FLAG_CRASH) a|=MSG_CRASH; if(vf_in.attr & FLAG_RECD) a|=MSG_READ; if(vf_in.attr & FLAG_SENT) a|=MSG_SENT;
      if(vf_in.attr & FLAG_INTRANSIT) a|=MSG_INTRANSIT; if(vf_in.attr & FLAG_ORPHAN) a|=MSG_ORPHAN; if(vf_in.attr & FLAG_KILLSENT) a|=MSG_KILLSENT; if(vf_in.attr & FLAG_LOCAL) a|=MSG_LOCAL;
      if(vf_in.attr & FLAG_HOLD) a|=MSG_HOLD; if(vf_in.attr & FLAG_RREQ) a|=MSG_RECEIPTREQ;
      if(P(3)) a|=MSG_FILEATTACH; if(P(4)) a|=MSG_FILEREQUEST; if(P(2)) a|=MSG_DIRECT|MSG_IMMEDIATE;
      if(P(9)) a|=MSG_PRIVATE|MSG_HOLD|MSG_CRASH|MSG_KILLSENT|MSG_SENT|MSG_READ|MSG_ARCHIVESENT|MSG_DIRECT|MSG_FILEATTACH|MSG_FILEREQUEST|MSG_IMMEDIATE|MSG_KILLFILE|MSG_TRUNCFILE|MSG_LOCAL|MSG_RECEIPTREQ|MSG_CONFIRMREQ|MSG_FPU;
      a|=m.Area[0] ? MSG_TYPEECHO : MSG_TYPENET;
      VF_CHECK(ah.Attribute==a,"JAM import: attributes");
      VF_CHECK(ah.Cost==vf_in.cost && ah.MsgIdCRC==vf_in.crc1 && ah.ReplyCRC==vf_in.crc2 && !crcbad,"JAM import: cost and checksums");
      VF_CHECK(ah.DateWritten==(uint32_t)(vf_in.fd-vf_in.off) && ah.DateProcessed==(uint32_t)(1000-vf_in.off) && ah.DateReceived==0,"JAM import: dates in local time");
      VF_CHECK(!ah.ReplyTo && !ah.Reply1st && !ah.ReplyNext && !ah.TimesRead && !ah.Attribute2 && ah.PasswordCRC==JAM_NO_CRC,"JAM import: all else cleared");
      if(!P(3)) { has(JAMSFLD_SENDERNAME,0,"#"); has(JAMSFLD_RECVRNAME,0,"$t"); }
      if(P(3)) has(JAMSFLD_SUBJECT,0,"a, bc"); else if(P(4)) has(JAMSFLD_SUBJECT,0,"q"); else if(!P(9)) has(JAMSFLD_SUBJECT,0,"s");
      if(m.Area[0]) has(JAMSFLD_OADDRESS,0,"8:9/10.11"); else { has(JAMSFLD_OADDRESS,0,"1:2/3.4"); has(JAMSFLD_DADDRESS,0,"5:6/7"); }
      if(P(0)) { has(JAMSFLD_PID,0,"#$x"); has(JAMSFLD_MSGID,0,"1:2/3 $#"); has(JAMSFLD_REPLYID,0,"4/$"); stored("hello#\r$#\r"); }
      if(P(1)) { has(JAMSFLD_FTSKLUDGE,0,"Via #$"); stored(""); }
      if(P(2)) { has(JAMSFLD_FTSKLUDGE,0,"FLAGS DIR"); has(JAMSFLD_FLAGS,0,"XYZ #$"); stored("t"); }
      if(P(3)) { has(JAMSFLD_ENCLFILE,0,"a"); has(JAMSFLD_ENCLFILE,1,"bc"); stored(""); }
      if(P(4)) { has(JAMSFLD_ENCLFREQ,0,"q"); has(JAMSFLD_PID,0,""); stored("#$\r"); }
      if(P(5)) { has(JAMSFLD_SEENBY2D,0,"1/2 3"); has(JAMSFLD_SEENBY2D,1,"4/5"); has(JAMSFLD_PATH2D,0,"1/2"); has(JAMSFLD_PATH2D,1,"3/4"); stored("x\r"); }
      if(P(6)) { has(JAMSFLD_FTSKLUDGE,0,""); has(JAMSFLD_MSGID,0,""); has(JAMSFLD_REPLYID,0,""); stored(""); }
      if(P(7)) { has(JAMSFLD_FTSKLUDGE,0,"K00000000011111111112222222222333333333344444444445555555555666666666677777777778888888888999999999"); stored(""); }
      if(P(8)) { has(JAMSFLD_FLAGS,0,"AA BB CC DD EE FF GG HH II JJ KK LL MM NN OO PP QQ RR SS TT UU VV WW XX YY ZZ 11 22 33 44 55 66 77"); stored(""); }
      if(P(9)) stored("");
      if(P(10)) stored("PID: #\r MSGID: x\r");
      if(P(11)) { has(JAMSFLD_FTSKLUDGE,0,"PI"); has(JAMSFLD_FTSKLUDGE,1,"MSGID"); stored("\r"); }
      VF_CHECK(nexp==nrec,"JAM import: no other fields");
      VF_REACH("stored");
   }
   VF_REACH("end");
}
