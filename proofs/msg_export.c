// @props: P18
// @functions: msg_ExportMSGNum msg_ReadCR msg_exportfunc msg_rescanfunc msg_getarea MakeFullPath mystrncpy
// @level: bounded
// @bound: 13 message shapes (control lines, missing zones, long lines, unfinished, truncated and missing files) with any attributes, addresses and cost, every outcome of handling
// @unwind: 240
// @hunwind: 440
// @lunwind: 440
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11 12
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=150
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @assume: lines added to a message are taken as P09 states
// @desc: exactly the local, unsent messages are exported, complete and in order; a message is marked as sent or removed only after it was handed over and a rescan changes nothing
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint16_t attr,cost,on,od,dn,dd,oz,dz,tr,rt,nr; uint8_t hf,wb,ks; };
#include "vf.h"
#define P(x) (VF_PART==(x))
#define RES (P(4) || P(12))
static struct Area area; static struct Aka aka; static struct MemMessage mem; static int live,fhd,mode,nh,marked,wrote,deleted,tids; static struct StoredMsg f,f2; static uint32_t pos; static char lines[420]; static int ll;
static uint16_t hattr,hcost,hflags; static struct Node4D ho,hd; static char hfrom[36],hto[36],hsub[72],hdate[20],harea[80]; static uint32_t hnum;
static const char *text; static int textlen; static char big[231];
void LogWrite(uint32_t p,uint32_t c,char *s,...) {}
struct MemMessage *mmAlloc(void) { VF_CHECK(!live,"MSG export: one message at a time"); live=1; memset(&mem,0,sizeof(mem)); jbNewList(&mem.TextChunks); jbNewList(&mem.SeenBy); jbNewList(&mem.Path); return &mem; }
void mmFree(struct MemMessage *m) { VF_CHECK(m==&mem && live,"MSG export: freed once"); live=0; }
bool osExists(char *n) { return TRUE; }
bool osScanDir(char *d,void (*func)(char *file)) { char b[8]="5.msg"; func(b); return TRUE; }
osFile osOpen(char *n,uint32_t m)
{
   VF_CHECK(!mode && !strcmp(n,"d/5.msg"),"MSG export: the file of the message");
   if(P(8)) return NULL;
   if(m!=MODE_OLDFILE) VF_CHECK(m==MODE_READWRITE && nh==1 && !vf_in.hf && !RES && !vf_in.wb,"MSG export: changed only after it was handed over");
   mode=m==MODE_OLDFILE ? 1 : 2; pos=0; return (osFile)&fhd;
}
void osClose(osFile x) { VF_CHECK(mode,"MSG export: closed once"); mode=0; }
uint32_t osRead(osFile x,void *b,uint32_t n)
{ VF_CHECK(mode==1 && n==sizeof(f) && pos==0,"MSG export: header read first"); memcpy(b,&f,sizeof(f)); pos=190; return P(9) ? 189 : 190; }
int osGetChar(osFile x) { VF_CHECK(mode==1 && pos>=190,"MSG export: text read"); if(pos-190>=(uint32_t)textlen) return -1; return (unsigned char)text[pos++-190]; }
bool osWrite(osFile x,const void *b,uint32_t n) { VF_CHECK(mode==2 && pos==0 && n==190,"MSG export: only the header is written"); memcpy(&f2,b,sizeof(f2)); marked++; return TRUE; }
bool osDelete(char *n) { VF_CHECK(!mode && nh==1 && !vf_in.hf && !strcmp(n,"d/5.msg"),"MSG export: removed only after it was handed over"); deleted++; return TRUE; }
bool msg_WriteMSG(struct MemMessage *m,char *n)
{ VF_CHECK(m==&mem && live && !mode && nh==1 && !vf_in.hf && !strcmp(n,"d/5.msg") && m->Attr==(vf_in.attr|FLAG_SENT) && (config.cfg_msg_Flags & CFG_MSG_WRITEBACK),"MSG export: written back as configured, marked as sent"); wrote++; return TRUE; }
bool mmAddLine(struct MemMessage *m,char *b)
{
   int i; VF_CHECK(m==&mem,"MSG export: lines of the message");
   if(P(5) && !strncmp(b,"\1INTL",5)) { m->DestNode.Zone=7; m->OrigNode.Zone=8; }
   for(i=0;b[i] && i<200;i++) { VF_CHECK(ll<420,"MSG export: room in the proof"); lines[ll++]=b[i]; } return TRUE;
}
bool AddTID(struct MemMessage *m) { tids++; return TRUE; }
static bool handle(struct MemMessage *m)
{
   nh++; VF_CHECK(m==&mem && !mode,"MSG export: handed over complete");
   hattr=m->Attr; hcost=m->Cost; hflags=m->Flags; ho=m->OrigNode; hd=m->DestNode; strcpy(hfrom,m->From); strcpy(hto,m->To); strcpy(hsub,m->Subject); strcpy(hdate,m->DateTime); strcpy(harea,m->Area); hnum=m->msgnum;
   return !vf_in.hf;
}
bool HandleMessage(struct MemMessage *m) { return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
extern bool msg_beforefunc(void),msg_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm)),msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm));
static int same(const char *a,const char *b,int n) { int i; for(i=0;i<n;i++) if(a[i]!=b[i]) return 0; return 1; }
#define LINES(s) VF_CHECK(ll==(int)sizeof(s)-1 && same(lines,s,sizeof(s)-1),"MSG export: exactly the lines of the message")
#define TEXT(s) do { text=s; textlen=sizeof(s)-1; } while(0)
void vf_harness(void)
{
   VF_INPUT();
   bool r; int i,exp,net; uint16_t b;
   VF_ASSUME(vf_in.hf<2 && vf_in.ks<2); vf_in.wb=P(1) || P(2) || P(12);      /* writing back */
   if(!P(0) && !RES) { vf_in.attr|=FLAG_LOCAL; vf_in.attr&=~FLAG_SENT; }
   if(P(5) || P(6) || P(3)) { vf_in.on=1; vf_in.od=2; vf_in.dn=3; vf_in.dd=4; }
   strcpy(area.Path,"d"); strcpy(area.Tagname,"tag"); aka.Node.Zone=1; aka.Node.Net=2; aka.Node.Node=3; aka.Node.Point=4; area.Aka=&aka;
   net=P(1) || P(3) || P(5) || P(6) || P(7) || P(12); area.AreaType=net ? AREATYPE_NETMAIL : AREATYPE_ECHOMAIL;
   config.cfg_Flags=(vf_in.ks ? CFG_ALLOWKILLSENT : 0)|(P(3) || P(5) || P(6) ? CFG_FORCEINTL : 0)|(P(3) || P(4) || P(11) ? CFG_ADDTID : 0); config.cfg_msg_Flags=vf_in.wb ? CFG_MSG_WRITEBACK : 0;
   strcpy(f.From,"me"); strcpy(f.To,"you"); strcpy(f.Subject,"sub"); strcpy(f.DateTime,"01 Jan 99  12:00:00");
   if(P(7)) { for(i=0;i<36;i++) f.From[i]=f.To[i]='n'; for(i=0;i<72;i++) f.Subject[i]='n'; for(i=0;i<20;i++) f.DateTime[i]='n'; }
   f.Attr=vf_in.attr; f.Cost=vf_in.cost; f.OrigNet=vf_in.on; f.OrigNode=vf_in.od; f.DestNet=vf_in.dn; f.DestNode=vf_in.dd; f.OrigZone=vf_in.oz; f.DestZone=vf_in.dz; f.TimesRead=vf_in.tr; f.ReplyTo=vf_in.rt; f.NextReply=vf_in.nr;
   TEXT("\1MSGID: x\rhello\r\rbye\r\0junk");
   if(P(2)) TEXT("no end");
   if(P(3)) TEXT("\1PID: p\rhi\r\0");
   if(P(5)) TEXT("\1INTL 7:1/1 8:2/2\r\1FMPT 1\rhi\0");
   if(P(6)) TEXT("\1PID: x\0");
   if(P(7)) TEXT("\0");
   if(P(10)) { for(i=0;i<230;i++) big[i]=i<210 ? 'a' : i==210 ? 13 : 'b'; text=big; textlen=230; }
   if(P(11)) TEXT("\n\1K\r\n\1L\rx\n\r\0");
   VF_CHECK(msg_beforefunc(),"MSG: started");
   if(RES) r=msg_rescanfunc(&area,0,handle); else r=msg_exportfunc(&area,handle);
   b=vf_in.attr; exp=!P(8) && !P(9) && (RES || ((b & FLAG_LOCAL) && !(b & FLAG_SENT)));
   VF_CHECK(nh==exp,"MSG export: exactly the local, unsent messages are exported, once");
   VF_CHECK(!live && !mode,"MSG export: message freed and file closed");
   if(exp)
   {
      VF_CHECK(r==!vf_in.hf,"MSG export: failures are reported");
      VF_CHECK(hattr==(b & (FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_FILEREQ|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT|FLAG_HOLD)) && hcost==vf_in.cost && hnum==5,"MSG export: attributes, cost and number");
      VF_CHECK(hflags==(RES ? MMFLAG_RESCANNED : MMFLAG_EXPORTED),"MSG export: marked as exported or rescanned");
      VF_CHECK(!strcmp(harea,net ? "" : "tag"),"MSG export: area of the message");
      VF_CHECK(tids==(P(3) || P(11)),"MSG export: TID as configured");
      VF_CHECK(ho.Net==vf_in.on && ho.Node==vf_in.od && hd.Net==vf_in.dn && hd.Node==vf_in.dd,"MSG export: addresses");
      if(P(5)) VF_CHECK(hd.Zone==7 && ho.Zone==8,"MSG export: zones of the message"); else if(net) VF_CHECK(ho.Zone==1 && hd.Zone==1,"MSG export: zone of the area where the message has none");
      if(P(7)) VF_CHECK(strlen(hfrom)==35 && strlen(hto)==35 && strlen(hsub)==71 && strlen(hdate)==19,"MSG export: unterminated names are cut");
      else VF_CHECK(!strcmp(hfrom,"me") && !strcmp(hto,"you") && !strcmp(hsub,"sub") && !strcmp(hdate,"01 Jan 99  12:00:00"),"MSG export: names, subject and date");
      if(RES || vf_in.hf) VF_CHECK(!marked && !wrote && !deleted,"MSG export: unchanged when it was not handed over or only rescanned");
      else if(vf_in.ks && (b & FLAG_KILLSENT) && net) VF_CHECK(deleted==1 && !marked && !wrote,"MSG export: removed when configured");
      else if(vf_in.wb) VF_CHECK(wrote==1 && !deleted && !marked,"MSG export: written back as configured");
      else
      {
         VF_CHECK(marked==1 && !deleted && !wrote && f2.Attr==(b|FLAG_SENT),"MSG export: marked as sent");
         VF_CHECK(!strcmp(f2.From,hfrom)==!P(7) && f2.From[0]==f.From[0] && f2.Cost==f.Cost && f2.ReplyTo==f.ReplyTo && f2.NextReply==f.NextReply && f2.TimesRead==f.TimesRead && f2.OrigNet==f.OrigNet && f2.OrigNode==f.OrigNode && f2.DestNet==f.DestNet && f2.DestNode==f.DestNode && f2.OrigPoint==f.OrigPoint && f2.DestPoint==f.DestPoint,"MSG export: the header is otherwise kept");
      }
#if VF_PART==0 || VF_PART==1
      LINES("\1MSGID: x\rhello\r\rbye\r");
#elif VF_PART==2
      LINES("no end");
#elif VF_PART==3
      LINES("\1PID: p\r\1INTL 1:3/4 1:1/2\rhi\r");
#elif VF_PART==4 || VF_PART==12
      LINES("\1MSGID: x\r\1RESCANNED 1:2/3.4\rhello\r\rbye\r");
#elif VF_PART==5
      LINES("\1INTL 7:1/1 8:2/2\r\1FMPT 1\rhi");
#elif VF_PART==6
      LINES("\1PID: x\r\1INTL 1:3/4 1:1/2\r");
#elif VF_PART==7
      LINES("");
#elif VF_PART==10
      VF_CHECK(ll==230 && same(lines,big,230),"MSG export: long lines are kept");
#elif VF_PART==11
      LINES("\n\1K\r\n\1L\rx\n\r");
#endif
#if VF_PART!=8 && VF_PART!=9
      VF_REACH("exported");
#endif
   }
   else
   {
      VF_CHECK(!marked && !wrote && !deleted,"MSG export: other messages are untouched");
      VF_CHECK(r,"MSG export: skipping a message is no failure");
   }
   VF_REACH("end");
}
