// @props: P18
// @functions: msg_importfunc msg_WriteMSG msg_getarea msg_GetHighLowMsg msg_scandirfunc msg_beforefunc MakeFullPath
// @level: bounded
// @bound: 11 message shapes and directories (empty, missing, unreadable, unwritable, gaps, files of other names, occupied numbers) with any attributes, addresses, cost and text bytes; any one write failing
// @unwind: 200
// @hunwind: 200
// @lunwind: 200
// @parts: 0 1 2 3 4 5 6 7 8 9 10
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=150
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @desc: an imported message gets the next free number and never replaces a file; header, text, SEEN-BY and PATH are stored as they are and a failed write is reported
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint16_t attr,cost; struct Node4D on,dn; char t[4]; uint8_t fail; uint8_t mk; };
#include "vf.h"
#define P(x) (VF_PART==(x))
static struct MemMessage m,m2; static struct TextChunk ch[2]; static struct Path pa; static struct Area area;
static struct StoredMsg hd; static char raw[310]; static int tot,nw,nopen,opened,closed,mkd; static char name[16]; static int fhd;
static const char *const dir[11][4]={
 {".","..",0,0},{"1.msg",0,0,0},{"2.msg","11.msg","3.MSG",0},{"x.msg","7.txt","msg","20"},{0,0,0,0},{0,0,0,0},{"4.msg",0,0,0},{"9.msg","10.msg",0,0},{"2.msg",0,0,0},{"2.msg",0,0,0},{0,0,0,0}};
static const char *const want[11]={"d/2.msg","d/2.msg","d/12.msg","d/2.msg","d/2.msg","","d/7.msg","d/11.msg","d/3.msg","",""};
void LogWrite(uint32_t p,uint32_t c,char *s,...) {}
bool osExists(char *f)
{
   if(!strcmp(f,"d")) return !P(4) && !P(5);
   if(P(6) && (!strcmp(f,"d/5.msg") || !strcmp(f,"d/6.msg"))) return TRUE;
   return FALSE;
}
bool osMkDir(char *f) { VF_CHECK(!strcmp(f,"d") && (P(4) || P(5)),"MSG import: only a missing directory is created"); mkd++; return !P(5); }
bool osScanDir(char *d,void (*func)(char *file)) { int i; VF_CHECK(!strcmp(d,"d"),"MSG import: directory of the area"); if(P(10)) return FALSE; for(i=0;i<4;i++) if(dir[VF_PART][i]) { char b[8]; int k; for(k=0;k<8;k++) b[k]=0; for(k=0;dir[VF_PART][i][k];k++) b[k]=dir[VF_PART][i][k]; func(b); } return TRUE; }
osFile osOpen(char *n,uint32_t mode) { int i; VF_CHECK(opened==closed && mode==MODE_NEWFILE && strlen(n)<16,"MSG import: one new file"); if(P(9)) { nopen++; return NULL; } opened++; for(i=0;n[i] && i<15;i++) name[i]=n[i]; name[i]=0; tot=0; return (osFile)&fhd; }
void osClose(osFile f) { closed++; }
bool osWrite(osFile f,const void *b,uint32_t n)
{
   uint32_t i; VF_CHECK(f==(osFile)&fhd && opened==closed+1,"MSG import: written while open");
   if(++nw==vf_in.fail) return FALSE;
   VF_CHECK(tot+n<=310,"MSG import: room in the proof"); for(i=0;i<n && i<190;i++) raw[tot++]=((const char *)b)[i]; return TRUE;
}
bool osPutChar(osFile f,char c) { return osWrite(f,&c,1); }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return "error"; }
char *mmMakeSeenByBuf(struct jbList *l) { char *b=malloc(24); int i; VF_ASSUME(b!=0); VF_CHECK(l==&m.SeenBy,"MSG import: SEEN-BY of the message"); for(i=0;i<24;i++) b[i]=P(2) ? 0 : "SEEN-BY: 1/2 3\rSEEN-BY: 4\0\0\0\0\0"[i]; b[23]=0; return b; }
bool HandleMessage(struct MemMessage *x) { return TRUE; }
bool HandleRescan(struct MemMessage *x) { return TRUE; }
extern bool msg_importfunc(struct MemMessage *mm,struct Area *area),msg_beforefunc(void);
static const char *T;
static void text(int k,const char *s,int n) { int i; for(i=0;i<n;i++) ch[k].Data[i]=s[i]=='#' ? vf_in.t[i&3] : s[i]; ch[k].Length=n; jbAddNode(&m.TextChunks,(struct jbNode *)&ch[k]); }
static int eq(int at,const char *s,int n) { int i; for(i=0;i<n;i++) if(raw[190+at+i]!=(s[i]=='#' ? vf_in.t[i&3] : s[i])) return 0; return 1; }
void vf_harness(void)
{
   VF_INPUT();
   bool r; int at; struct Node4D o,d;
   jbNewList(&m.TextChunks); jbNewList(&m.SeenBy); jbNewList(&m.Path); strcpy(area.Path,"d"); ioerror=FALSE;
   config.cfg_Flags=P(0) || P(2) || P(3) ? CFG_IMPORTSEENBY : 0;
   strcpy(m.From,"me"); strcpy(m.To,P(7) ? "12345678901234567890123456789012345" : "you"); strcpy(m.Subject,"sub"); strcpy(m.DateTime,"01 Jan 99  12:00:00");
   m.Attr=vf_in.attr; m.Cost=vf_in.cost; m.OrigNode=vf_in.on; m.DestNode=vf_in.dn;
   if(P(0) || P(1) || P(2)) strcpy(m.Area,"e");
   if(!P(4)) text(0,"\1MSGID: #\rab##\rc",17);
   if(P(0) || P(6)) text(1,"##\r",3);
   if(P(0) || P(1)) { jbAddNode(&m.Path,(struct jbNode *)&pa); pa.Paths=3; strcpy(pa.Path[0],"1/2"); strcpy(pa.Path[2],"3/4"); }
   VF_CHECK(msg_beforefunc(),"MSG: started");
   r=msg_importfunc(&m,&area);
   if(P(9)) { VF_CHECK(!r && nopen==1,"MSG import: a file that cannot be made is reported"); }
   else if(P(5) || P(10))
   {
      VF_CHECK(!r && !opened,"MSG import: nothing is stored when the directory cannot be made");
      VF_CHECK(!msg_importfunc(&m,&area) && !opened,"MSG import: nor later");
   }
   else
   {
      VF_CHECK(opened==1 && closed==1 && !strcmp(name,want[VF_PART]),"MSG import: stored under the next free number");
      VF_CHECK(mkd==P(4),"MSG import: a missing directory is created");
      VF_CHECK(r==!(vf_in.fail && vf_in.fail<=nw),"MSG import: success is reported exactly when everything was written");
      if(r)
      {
         memcpy(&hd,raw,190);
         VF_CHECK(!strcmp(hd.From,m.From) && !strcmp(hd.To,m.To) && !strcmp(hd.Subject,"sub") && !strcmp(hd.DateTime,m.DateTime),"MSG import: names, subject and date");
         VF_CHECK(hd.Attr==vf_in.attr && hd.Cost==vf_in.cost && !hd.TimesRead && !hd.ReplyTo && !hd.NextReply,"MSG import: attributes and cost");
         o.Zone=hd.OrigZone; o.Net=hd.OrigNet; o.Node=hd.OrigNode; o.Point=hd.OrigPoint; d.Zone=hd.DestZone; d.Net=hd.DestNet; d.Node=hd.DestNode; d.Point=hd.DestPoint;
         if(m.Area[0]) VF_CHECK(!o.Zone && !o.Net && !o.Node && !o.Point && !d.Zone && !d.Net && !d.Node && !d.Point,"MSG import: echomail has no addresses");
         else VF_CHECK(o.Zone==vf_in.on.Zone && o.Net==vf_in.on.Net && o.Node==vf_in.on.Node && o.Point==vf_in.on.Point && d.Zone==vf_in.dn.Zone && d.Net==vf_in.dn.Net && d.Node==vf_in.dn.Node && d.Point==vf_in.dn.Point,"MSG import: addresses of the netmail");
         at=0;
         if(!P(4)) { VF_CHECK(eq(0,"\1MSGID: #\rab##\rc",17),"MSG import: the text as it is"); at=17; }
         if(P(0) || P(6)) { VF_CHECK(eq(at,"##\r",3),"MSG import: the text as it is"); at+=3; }
         if(P(0)) { VF_CHECK(eq(at,"SEEN-BY: 1/2 3\rSEEN-BY: 4",23),"MSG import: SEEN-BY when configured"); at+=23; }
         if(P(0) || P(1)) { VF_CHECK(eq(at,"\1PATH: 1/2\r\1PATH: 3/4\r",22),"MSG import: PATH lines"); at+=22; }
         VF_CHECK(tot==190+at+1 && raw[190+at]==0,"MSG import: ends with a zero byte");
#if VF_PART!=5 && VF_PART<9
         VF_REACH("stored");
#endif
      }
#if VF_PART==8
      if(r) { r=msg_importfunc(&m,&area); VF_CHECK(opened==2 && !strcmp(name,"d/4.msg"),"MSG import: the following message gets the following number"); }
#endif
   }
   VF_REACH("end");
}
