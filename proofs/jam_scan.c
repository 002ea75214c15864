// @props: P14
// @functions: jam_exportfunc jam_rescanfunc jam_afterfunc jam_gethighwater jam_writehighwater jam_getarea jam_openbase
// @level: bounded
// @bound: bases of up to four messages with any first number, any highwater mark and any rescan limit; two areas; a break after any message; highwater files of 0, 3 and 4 bytes
// @unwind: 12
// @hunwind: 12
// @lunwind: 30
// @parts: 0 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @assume: exporting one message behaves as jam_export establishes
// @desc: a scan visits every message behind the highwater mark exactly once in order, a rescan the newest ones asked for; the mark moves only after a complete scan and a damaged or outdated mark is not used
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint32_t base,hw,max; uint8_t n,brk,fail; unsigned char raw[4]; };
#include "vf.h"
#define JS_TEXT 8
#define js_size vf_in.n
#define js_base vf_in.base
#define js_off 0
#include "jam_stub.h"
#define P(x) (VF_PART==(x))
static struct Area area; static uint32_t seen[6]; static int ns,hwopen,hww,hwsize,links; static uint32_t hwv; static bool resc;
int JAM_CreateMB(char *n,uint32_t b,s_JamBase **p) { VF_CHECK(0,"JAM: an existing base is not created again"); return 1; }
bool jam_ExportJAMNum(struct Area *a,uint32_t num,bool (*h)(struct MemMessage *mm),bool r)
{ VF_CHECK(a==&area && ns<6 && r==resc,"JAM scan: messages of the area"); seen[ns++]=num; if(ns==vf_in.brk) ctrlc=TRUE; return ns!=vf_in.fail; }
int jam_linkmb(struct Area *a,uint32_t o) { links++; return TRUE; }
static int fhd;
osFile osOpen(char *n,uint32_t mode) { VF_CHECK(!strcmp(n,"b.cmhw") && !hwopen,"JAM scan: highwater file of the area"); if(mode==MODE_OLDFILE && hwsize<0) return 0; hwopen=mode==MODE_OLDFILE ? 1 : 2; return (osFile)&fhd; }
void osClose(osFile f) { hwopen=0; }
uint32_t osRead(osFile f,void *b,uint32_t n) { int i; VF_CHECK(hwopen==1 && n==4,"JAM scan: highwater read"); for(i=0;i<hwsize;i++) ((unsigned char *)b)[i]=vf_in.raw[i]; return hwsize; }
bool osWrite(osFile f,const void *b,uint32_t n) { VF_CHECK(hwopen==2 && n==4,"JAM scan: highwater written"); memcpy(&hwv,b,4); hww++; return TRUE; }
static bool handle(struct MemMessage *m) { return TRUE; }
bool HandleMessage(struct MemMessage *m) { return TRUE; }
bool HandleRescan(struct MemMessage *m) { return TRUE; }
extern bool jam_beforefunc(void),jam_afterfunc(bool ok),jam_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm)),jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm));
void vf_harness(void)
{
   VF_INPUT();
   bool r; uint32_t hw,start,i; int n,stop;
   VF_ASSUME(vf_in.n<=4 && vf_in.base>=1 && vf_in.base<100000);
   config.cfg_jam_MaxOpen=1; config.cfg_jam_Flags=P(0) || P(1) ? 0 : CFG_JAM_HIGHWATER; strcpy(area.Path,"b"); ctrlc=FALSE; resc=P(1);
   hwsize=P(2) ? 4 : P(3) ? 3 : -1;
   memcpy(&hw,vf_in.raw,4); if(!P(2)) hw=0;
   VF_CHECK(jam_beforefunc(),"JAM: started");
   if(P(1)) r=jam_rescanfunc(&area,vf_in.max,handle); else r=jam_exportfunc(&area,handle);
   /* expected */
   start=vf_in.base;
   if(P(1)) { if(vf_in.max && vf_in.max<vf_in.n) start=vf_in.base+vf_in.n-vf_in.max; }
   else if(hw>=vf_in.base && hw<vf_in.base+vf_in.n) start=hw+1;
   n=vf_in.base+vf_in.n-start; stop=0;
   if(vf_in.fail && vf_in.fail<=n) stop=vf_in.fail;
   if(vf_in.brk && vf_in.brk<=n && (!stop || vf_in.brk<stop)) stop=vf_in.brk;
   VF_CHECK(ns==(stop ? stop : n),"JAM scan: every message that is to be exported is visited, until a failure or break");
   for(i=0;i<6;i++) if(i<(uint32_t)ns) VF_CHECK(seen[i]==start+i,"JAM scan: each message once, in order");
   VF_CHECK(r==!stop,"JAM scan: a failure or break is reported");
   VF_CHECK(jam_afterfunc(r),"JAM: finished");
   if(P(2) || P(3) || P(4))
   {
      if(!r) VF_CHECK(!hww,"JAM scan: the mark stays after an incomplete scan");
      else
      {
         VF_CHECK(hww<=1 && (!hww || hwv==vf_in.base+vf_in.n-1) && (hww || hw==vf_in.base+vf_in.n-1),"JAM scan: afterwards the mark is the last message");
#if VF_PART>=2
         VF_REACH("complete");
#endif
      }
   }
   else VF_CHECK(!hww,"JAM scan: no mark unless configured");
   VF_CHECK(links==0,"JAM scan: nothing to link");
   VF_REACH("end");
}
