// @props: P08
// @functions: FindPkt CreatePkt FinishPacket ClosePackets WriteNetMail
// @level: bounded
// @bound: three netmails to any of two nodes with any flavour, in any order
// @unwind: 20
// @hunwind: 62
// @lunwind: 204
// @parts: 1 2 3 4 5 6 7 8
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 600
// @desc: mail for the same node and flavour shares a packet, other mail does not; a packet over the size limit is finished; finished packets are complete and named for their node
#include <crashmail/crashmail.h>
struct vf_input { uint16_t attr[3]; uint8_t failat; };
#include "vf.h"
#define VF_FS_FILES 4
#define VF_FS_CAP 260
#define VF_FS_NAME 60
#define VF_FS_NOPRINTF
#include <time.h>
static struct tm tmb;
#include "fs_model.h"
struct Pkt { struct Pkt *Next; osFile fh; uint32_t hexnum,Len; uint16_t Type; struct Node4D Dest,Orig; };
static struct MemMessage m; static struct TextChunk c1; static struct Aka aka;
static struct Pkt pk0,pk1,pk2; static int npk,freed;   /* separate objects keep the list concrete */
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
static time_t now=1;
time_t time(time_t *t) { if(t) *t=now; return now; }
void osSleep(int s) { now+=s; }
struct tm *localtime(const time_t *t) { return &tmb; }
void *osAllocCleared(uint32_t n) { VF_CHECK(n==sizeof(struct Pkt) && npk<3,"pkt: allocation"); npk++; return npk==1 ? &pk0 : npk==2 ? &pk1 : &pk2; }
void osFree(void *p) { freed++; }
static int ok=1;
static int words(int o,struct vf_file *f) { return f->data[o]|f->data[o+1]<<8; }
/* each case: destination node (0,1), flavour, expected packet of each of three netmails; size limit */
static const struct { int d[3],t[3],p[3],n,max; const char *name[3]; } C[8]={
 {{0,0,0},{2,2,2},{0,0,0},1,0,{"q/00000100_Normal_2_5_10_0.newpkt",0,0}},
 {{0,1,0},{2,2,2},{0,1,0},2,0,{"q/00000100_Normal_2_5_10_0.newpkt","q/00000101_Normal_2_5_10_7.newpkt",0}},
 {{0,0,0},{2,4,2},{0,1,0},2,0,{"q/00000100_Normal_2_5_10_0.newpkt","q/00000101_Crash_2_5_10_0.newpkt",0}},
 {{1,1,1},{1,3,4},{0,1,2},3,0,{"q/00000100_Hold_2_5_10_7.newpkt","q/00000101_Direct_2_5_10_7.newpkt","q/00000102_Crash_2_5_10_7.newpkt"}},
 {{0,0,0},{2,2,2},{0,0,1},2,90,{"q/00000100_Normal_2_5_10_0.newpkt","q/00000101_Normal_2_5_10_0.newpkt",0}},
 {{0,1,1},{0,0,2},{0,1,2},3,0,{"q/00000100_Echomail_2_5_10_0.newpkt","q/00000101_Echomail_2_5_10_7.newpkt","q/00000102_Normal_2_5_10_7.newpkt"}},
 {{0,0,1},{2,2,2},{0,1,2},3,50,{"q/00000100_Normal_2_5_10_0.newpkt","q/00000101_Normal_2_5_10_0.newpkt","q/00000102_Normal_2_5_10_7.newpkt"}},
 {{0,0,0},{2,2,2},{0,0,0},1,0,{"",0,0}},      /* the serial number starts again while the first packet of this second is still there */
};
extern time_t lastt; extern uint32_t serial;
static const char old[]="q/00000100_Normal_2_5_10_0.newpkt";
void vf_harness(void)
{
   VF_INPUT();
   int i,k,c=VF_PART-1; struct Node4D dest; uint32_t len[3]={58,58,58}; bool r;
   jbNewList(&config.CNodeList); jbNewList(&PktList); jbNewList(&m.TextChunks);
   config.cfg_MaxPktSize=C[c].max; strcpy(config.cfg_PacketCreate,"q"); ioerror=FALSE;
   aka.Node.Zone=2; aka.Node.Net=5; aka.Node.Node=1;
   strcpy(m.DateTime,"d"); strcpy(m.To,"to"); strcpy(m.From,"me");
   c1.Length=1; c1.Data[0]='x'; jbAddNode(&m.TextChunks,(struct jbNode *)&c1);
#if VF_PART == 8
   i=vf_fs_make(old); vf_fs[i].size=1; vf_fs[i].data[0]='o'; lastt=1; serial=255;
#endif
   for(i=0;i<3;i++)
   {
      dest.Zone=2; dest.Net=5; dest.Node=10; dest.Point=C[c].d[i] ? 7 : 0;
      m.Type=C[c].t[i]; m.Attr=vf_in.attr[i];
      r=WriteNetMail(&m,&dest,&aka);
      VF_CHECK(r,"pkt: written");
      len[C[c].p[i]]+=14+2+3+3+1+1+1;
   }
   VF_CHECK(npk==C[c].n,"pkt: mail for the same node and flavour shares a packet, other mail does not");
   ClosePackets();
   VF_CHECK(PktList.First==NULL && freed==npk,"pkt: all packets are finished");
   for(k=0;k<C[c].n;k++)
   {
#if VF_PART == 8
      int j2,fi=-1,oi=vf_fs_find(old);
      VF_CHECK(oi>=0 && vf_fs[oi].size==1 && vf_fs[oi].data[0]=='o',"pkt: a finished packet is never replaced");
      for(j2=0;j2<VF_FS_FILES;j2++) if(vf_fs[j2].used && j2!=oi) { int l=strlen(vf_fs[j2].name),s2=strlen("_Normal_2_5_10_0.newpkt"); if(l>s2 && strcmp(vf_fs[j2].name+l-s2,"_Normal_2_5_10_0.newpkt")==0) fi=j2; }
#else
      int fi=vf_fs_find(C[c].name[k]);
#endif
      struct vf_file *f=fi<0 ? NULL : &vf_fs[fi]; uint32_t at=58; int j=0;
      VF_CHECK(f!=NULL,"pkt: finished packets are named for node and flavour");
      if(f)
      {
         VF_CHECK(f->size==len[k]+2 && f->data[f->size-1]==0 && f->data[f->size-2]==0,"pkt: finished packets end with the end mark");
         for(i=0;i<3;i++) if(C[c].p[i]==k)
         {
            VF_CHECK(words(at,f)==2 && words(at+10,f)==vf_in.attr[i],"pkt: every message is in its packet, in order");
            at+=14+2+3+3+1+1+1;
         }
      }
   }
   for(k=0;k<4;k++) VF_CHECK(!vf_fh[k].open,"pkt: files are closed");
   VF_REACH("end");
}
