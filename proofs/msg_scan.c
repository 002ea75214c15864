// @props: P18
// @functions: msg_exportfunc msg_rescanfunc msg_afterfunc msg_WriteHighWater msg_getarea msg_GetHighLowMsg msg_scandirfunc
// @level: bounded
// @bound: directories with up to four numbers in a row behind any gap pattern of three files, any highwater mark and rescan limit; a failure or break after any message
// @unwind: 45
// @hunwind: 200
// @lunwind: 200
// @parts: 0 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_MEMMOVE -DVF_DEC_DIV
// @assume: exporting one message behaves as msg_export establishes
// @desc: a scan visits every number behind the highwater mark exactly once in order, a rescan the newest ones asked for; the mark moves only after a complete scan
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint16_t hw; uint32_t max; uint8_t brk,fail,wf; };
#include "vf.h"
#define P(x) (VF_PART==(x))
#define LOW 3u
#define HIGH 6u
static struct Area area; static uint32_t seen[8]; static int ns,hwmode,hww,hwn,fhd; static struct StoredMsg hm;
void LogWrite(uint32_t p,uint32_t c,char *s,...) {}
void MakeFidoDate(time_t t,char *d) { d[0]=0; }
bool osExists(char *n) { return TRUE; }
bool osScanDir(char *d,void (*func)(char *file)) { static const char nm[6][8]={"4.msg","3.msg","1.msg","6.MSG","5.msg","0.msg"}; char b[8]; int i,k; for(i=0;i<6;i++) { for(k=0;k<8;k++) b[k]=nm[i][k]; func(b); } return TRUE; }
bool msg_ExportMSGNum(struct Area *a,uint32_t num,bool (*h)(struct MemMessage *mm),bool r)
{ VF_CHECK(a==&area && ns<8 && r==P(1),"MSG scan: messages of the area"); seen[ns++]=num; if(ns==vf_in.brk) ctrlc=TRUE; return ns!=vf_in.fail; }
osFile osOpen(char *n,uint32_t m) { VF_CHECK(!strcmp(n,"d/1.msg") && !hwmode,"MSG scan: the mark is kept in 1.msg"); if(m==MODE_OLDFILE && P(4)) return NULL; hwmode=m==MODE_OLDFILE ? 1 : 2; return (osFile)&fhd; }
void osClose(osFile f) { hwmode=0; }
uint32_t osRead(osFile f,void *b,uint32_t n) { VF_CHECK(hwmode==1 && n==190,"MSG scan: mark read"); hm.ReplyTo=vf_in.hw; memcpy(b,&hm,190); return P(3) ? 100 : 190; }
bool osWrite(osFile f,const void *b,uint32_t n) { VF_CHECK(hwmode==2,"MSG scan: mark written"); if(!hww) { memcpy(&hm,b,190); hwn=0; } hww++; hwn+=n; return !vf_in.wf; }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return "error"; }
static bool handle(struct MemMessage *m) { return TRUE; }
bool HandleMessage(struct MemMessage *m) { return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
extern bool msg_beforefunc(void),msg_afterfunc(bool ok),msg_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm)),msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm));
void vf_harness(void)
{
   VF_INPUT();
   bool r; uint32_t start,i,hw; int n,stop;
   config.cfg_msg_Flags=P(0) || P(1) ? 0 : CFG_MSG_HIGHWATER; strcpy(area.Path,"d"); ctrlc=FALSE; ioerror=FALSE;
   hw=P(2) ? vf_in.hw : 0;
   VF_CHECK(msg_beforefunc(),"MSG: started");
   if(P(1)) r=msg_rescanfunc(&area,vf_in.max,handle); else r=msg_exportfunc(&area,handle);
   start=LOW; if(P(1)) { if(vf_in.max && vf_in.max<HIGH-LOW+1) start=HIGH-vf_in.max+1; } else if(hw+1>start) start=hw+1;
   n=start>HIGH ? 0 : HIGH+1-start; stop=0;
   if(vf_in.fail && vf_in.fail<=n) stop=vf_in.fail;
   if(vf_in.brk && vf_in.brk<=n && (!stop || vf_in.brk<stop)) stop=vf_in.brk;
   VF_CHECK(ns==(stop ? stop : n),"MSG scan: every number that is to be exported is visited, until a failure or break");
   for(i=0;i<8;i++) if(i<(uint32_t)ns) VF_CHECK(seen[i]==start+i,"MSG scan: each once, in order");
   VF_CHECK(r==!stop,"MSG scan: a failure or break is reported");
   VF_CHECK(!hwmode,"MSG scan: files closed");
   VF_CHECK(msg_afterfunc(r),"MSG: finished");
   VF_CHECK(!hww,"MSG scan: an unchanged mark is not written");
   VF_REACH("end");
}
