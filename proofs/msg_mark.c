// @props: P18
// @functions: msg_exportfunc msg_ExportMSGNum msg_afterfunc msg_WriteHighWater msg_getarea
// @level: bounded
// @bound: a directory of three messages, each sent or not, any handover failing, the mark configured or not and its file written or not
// @unwind: 80
// @hunwind: 210
// @lunwind: 210
// @parts: 0 1 2
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=150
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @desc: the highwater mark becomes the number of the last exported message, only after a complete scan and only when configured
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint8_t fail,wf; };
#include "vf.h"
#define P(x) (VF_PART==(x))
static struct Area area; static struct Aka aka; static struct MemMessage mem; static int mode,cur,nh,hww,fhd,eof,sent[5]; static struct StoredMsg hm,f; static unsigned hwn;
void LogWrite(uint32_t p,uint32_t c,char *s,...) {}
void MakeFidoDate(time_t t,char *d) { d[0]='d'; d[1]=0; }
struct MemMessage *mmAlloc(void) { jbNewList(&mem.TextChunks); mem.Area[0]=0; return &mem; }
void mmFree(struct MemMessage *m) {}
bool mmAddLine(struct MemMessage *m,char *b) { return TRUE; }
bool osExists(char *n) { return TRUE; }
bool osScanDir(char *d,void (*func)(char *file)) { char a[8]="2.msg",b[8]="4.msg"; func(a); func(b); return TRUE; }
osFile osOpen(char *n,uint32_t m)
{
   VF_CHECK(!mode,"MSG mark: one file at a time"); cur=!strcmp(n,"d/1.msg") ? 1 : !strcmp(n,"d/2.msg") ? 2 : !strcmp(n,"d/3.msg") ? 3 : !strcmp(n,"d/4.msg") ? 4 : 0; VF_CHECK(cur,"MSG mark: files of the area");
   if(m==MODE_OLDFILE && cur==1) return NULL;
   if(cur==1) VF_CHECK(m==MODE_NEWFILE,"MSG mark: rewritten");
   mode=m==MODE_OLDFILE ? 1 : 2; eof=0; return (osFile)&fhd;
}
void osClose(osFile x) { mode=0; }
uint32_t osRead(osFile x,void *b,uint32_t n) { f.Attr=FLAG_LOCAL; if(P(1) && cur==4) f.Attr=FLAG_LOCAL|FLAG_SENT; memcpy(b,&f,190); return 190; }
int osGetChar(osFile x) { return 0; }
bool osWrite(osFile x,const void *b,uint32_t n)
{
   VF_CHECK(mode==2,"MSG mark: written while open");
   if(cur==1) { if(!hww) memcpy(&hm,b,190); hww++; hwn+=n; return !vf_in.wf; }
   memcpy(&f,b,190); VF_CHECK(f.Attr==(FLAG_LOCAL|FLAG_SENT) && nh==cur-1,"MSG mark: marked as sent after handing over"); sent[cur]=1; return TRUE;
}
bool osPutChar(osFile x,char c) { return osWrite(x,&c,1); }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return "error"; }
static bool handle(struct MemMessage *m) { nh++; return nh!=vf_in.fail; }
bool HandleMessage(struct MemMessage *m) { return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
extern bool msg_beforefunc(void),msg_afterfunc(bool ok),msg_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm));
void vf_harness(void)
{
   VF_INPUT();
   bool r; int last=P(1) ? 3 : 4;
   config.cfg_msg_Flags=P(2) ? 0 : CFG_MSG_HIGHWATER; strcpy(area.Path,"d"); ctrlc=FALSE; ioerror=FALSE; area.Aka=&aka; area.AreaType=AREATYPE_ECHOMAIL; strcpy(area.Tagname,"t");
   VF_CHECK(msg_beforefunc(),"MSG: started");
   r=msg_exportfunc(&area,handle);
   VF_CHECK(r==!(vf_in.fail && vf_in.fail<=last-1),"MSG mark: a failure is reported");
   VF_CHECK(!hww,"MSG mark: not written before the end");
   VF_CHECK(msg_afterfunc(r),"MSG: finished");
   if(!r || P(2)) VF_CHECK(!hww,"MSG mark: stays after an incomplete scan or unless configured");
   else { VF_CHECK(hww && hm.ReplyTo==last && hm.Attr==(FLAG_SENT|FLAG_PVT) && !strcmp(hm.To,"All"),"MSG mark: afterwards the mark is the last message exported"); VF_CHECK(hwn==191,"MSG mark: a complete message"); }
   if(r) VF_CHECK(sent[2] && sent[3] && sent[4]==(last==4),"MSG mark: all exported messages are marked as sent");
   VF_REACH("end");
}
