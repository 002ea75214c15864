// @props: P15
// @functions: PackFile movefile
// @level: bounded
// @bound: eleven outgoing packets of all flavours; previous outbound packets of any content and up to four bytes over the smallest size; every result of packer, lock, move, flow entry and writing
// @unwind: 40
// @hunwind: 80
// @lunwind: 204
// @parts: 0 1 2 3 4 5 6 7 8 9 10
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @srcdefs: -include /verif/vf/arrays.h
// @desc: an outgoing packet is handed over to the outbound of its node and flavour (appended, packed or moved, and entered in the flow file) or is kept for a later try; a busy node is left alone
#include <crashmail/crashmail.h>
struct vf_input { uint8_t lock,exec,before,move,flow,failat; unsigned char in[64],old[64]; };
#include "vf.h"
#define VF_FS_FILES 4
#define VF_FS_CAP 130
#define VF_FS_NAME 40
#define VF_FS_NOPRINTF
#include "fs_model.h"
bool PackFile(char *file); bool doAddFlow(char *filename,char *basename,char type,long mode); void UpdateFile(char *name);
static struct ConfigNode cn; static struct Packer pk; static char cbuf[5000]; static int nlock,nunlock,nexec,nflow,norph,ncn; static int flowok; static const char *file;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
int printf(const char *f,...) { return 0; }
void *osAlloc(uint32_t n) { VF_CHECK(n<=5000,"pack: allocation"); return cbuf; }
void osFree(void *p) {}
/* file, packer, flavour of the node's echomail, then the expected flavour letter, packet name in the outbound */
static const struct { const char *f; int kind; char pri; const char *out; } C[11]={
 {"q/12345678_Normal_2_30_4_5.newpkt",0,0,"ob/n.out"},{"q/12345678_Hold_2_30_4_5.newpkt",0,0,"ob/n.hut"},{"q/12345678_Direct_2_30_4_5.pkttmp",0,0,"ob/n.dut"},{"q/12345678_Crash_2_30_4_5.newpkt",0,0,"ob/n.cut"},
 {"q/12345678_Echomail_2_30_4_5.newpkt",1,PKTS_CRASH,"q/12345678.pkt"},{"q/12345678_Echomail_2_30_4_5.pkttmp",1,PKTS_NORMAL,"q/12345678.pkt"},
 {"q/12345678_Echomail_2_30_4_5.newpkt",2,PKTS_HOLD,"p/12345678.pkt"},{"q/12345678_Echomail_2_30_4_5.newpkt",3,PKTS_NORMAL,"p/12345678.pkt"},{"q/12345678_Odd_2_30_4_5.newpkt",4,0,""},{"q/12345678_Normal_2_30_4_5.newpkt",5,0,"ob/n.out"},{"q/12345678_Echomail_2_30_4_5.newpkt",2,PKTS_HOLD,"p/12345678.pkt"} };
#define K (VF_PART==10 ? 2 : VF_PART<4 ? 0 : VF_PART<6 ? 1 : VF_PART==6 ? 2 : VF_PART==7 ? 3 : VF_PART==8 ? 4 : 5)
void MakeBaseName(struct Node4D *n,char *b) { VF_CHECK(n->Zone==2 && n->Net==30 && n->Node==4 && n->Point==5,"pack: node of the packet"); strcpy(b,"ob/n"); }
bool LockBasename(char *b) { VF_CHECK(strcmp(b,"ob/n")==0 && !nlock,"pack: node is locked"); nlock++; return vf_in.lock&1; }
void UnlockBasename(char *b) { VF_CHECK(strcmp(b,"ob/n")==0 && nlock==1 && (vf_in.lock&1),"pack: own lock is released"); nunlock++; }
int Compare4D(struct Node4D *a,struct Node4D *b) { return K==3 ? 1 : 0; }
void MakeArcName(struct ConfigNode *c,char *d) { VF_CHECK(c==&cn,"pack: bundle of the node"); strcpy(d,"12ab34cd.mo0"); }
void UpdateFile(char *n) {}
void ExpandPacker(char *cmd,char *dest,uint32_t n,char *arc,char *f) { VF_CHECK(strcmp(arc,"p/12ab34cd.mo0")==0 && strcmp(f,"q/12345678.pkt")==0,"pack: packet packed in the bundle of the node"); dest[0]=cmd[0]; dest[1]=0; }
int osExecute(char *c)
{
   VF_CHECK(nlock==1 && !nunlock,"pack: packer runs while the node is locked");
   VF_CHECK(vf_fs_find("q/12345678.pkt")>=0,"pack: packet is there for the packer");
   if(c[0]=='b') return vf_in.before;
   nexec++; return vf_in.exec;
}
static char flowname[32];
bool doAddFlow(char *f,char *b,char type,long mode)
{
   VF_CHECK(nlock==1 && !nunlock,"pack: flow file changed while the node is locked");
#if VF_PART == 10
   { int l; for(l=0;l<30 && f[l];l++) flowname[l]=f[l]; flowname[l]=0; VF_CHECK(l>6 && strcmp(f+l-4,".pkt")==0 && f[0]=='p' && f[1]=='/',"pack: entered in the flow file of node and flavour"); }
   VF_CHECK(strcmp(b,"ob/n")==0 && mode==FLOW_DELETE && type==C[VF_PART].pri && strcmp(f,C[VF_PART].out)!=0 && vf_fs_find(f)>=0,"pack: a waiting packet is not entered for another node");
   nflow++; flowok=vf_in.flow&1; return flowok;
#endif
   VF_CHECK(strcmp(b,"ob/n")==0 && mode==FLOW_DELETE && type==C[VF_PART].pri && strcmp(f,K==1 ? "p/12ab34cd.mo0" : C[VF_PART].out)==0,"pack: entered in the flow file of node and flavour");
   if(K!=1) VF_CHECK(vf_fs_find(C[VF_PART].out)>=0,"pack: packet is in the outbound");
   nflow++; flowok=vf_in.flow&1; return flowok;
}
void MakeOrphan(char *f,struct Node4D *n,char type,long mode)
{
#if VF_PART == 10
   VF_CHECK(strcmp(f,flowname)==0 && !flowok,"pack: orphan for a bundle that could not be entered"); norph++; return;
#endif
   VF_CHECK(nflow==1 && !flowok && mode==FLOW_DELETE && type==C[VF_PART].pri && n->Node==4 && strcmp(f,K==1 ? "p/12ab34cd.mo0" : C[VF_PART].out)==0,"pack: orphan for a bundle that could not be entered"); norph++; }
#define NIN 64
#if VF_PART == 9
#define NOLD 0
#elif VF_PART == 1
#define NOLD 60
#elif VF_PART == 2
#define NOLD 64
#elif VF_PART == 3 || VF_PART == 10
#define NOLD 30
#else
#define NOLD (-1)
#endif
static void put(const char *n,const unsigned char *d,int l) { int f=vf_fs_make(n),i; for(i=0;i<l;i++) vf_fs[f].data[i]=d[i]; vf_fs[f].size=l; }
static void kept(const char *n) { int f=vf_fs_find(n),i; VF_CHECK(f>=0,"pack: packet that was not handed over is kept"); if(f>=0) { VF_CHECK(vf_fs[f].size==NIN,"pack: kept whole"); for(i=0;i<NIN;i++) VF_CHECK(vf_fs[f].data[i]==vf_in.in[i],"pack: kept whole"); } }
void vf_harness(void)
{
   bool r; int i; char fn[60];
   VF_INPUT();
   strcpy(fn,C[VF_PART].f); file=C[VF_PART].f;
   put(file,vf_in.in,NIN);
   if(NOLD>=0) put(C[VF_PART].out,vf_in.old,NOLD);
   strcpy(config.cfg_PacketDir,"p"); config.cfg_BeforePack[0]=0;
#if VF_PART == 5
   strcpy(config.cfg_BeforePack,"b");
#endif
   strcpy(pk.Packer,"k"); cn.Packer=K==1 ? &pk : NULL; cn.EchomailPri=C[VF_PART].pri; config.CNodeList.First=(struct jbNode *)&cn;
#if VF_PART < 4
   vf_fs_failat=vf_in.failat&1;
#endif
   r=PackFile(fn);
   for(i=0;i<VF_FS_FILES;i++) VF_CHECK(!vf_fh[i].open,"pack: files are closed");
#if VF_PART == 8
   VF_CHECK(!r && !nlock,"pack: unknown packets are left alone"); kept(file);
#else
   VF_CHECK(nlock==1 && nunlock==(vf_in.lock&1),"pack: lock is released exactly when it was taken");
   if(!(vf_in.lock&1))
   {
      VF_CHECK(!r && !nexec && !nflow,"pack: busy node is left alone"); kept(file);
      if(NOLD>=0) { int g=vf_fs_find(C[VF_PART].out); VF_CHECK(g>=0 && vf_fs[g].size==NOLD,"pack: busy node is left alone"); }
      VF_REACH("busy");
   }
#if VF_PART == 4 || VF_PART == 5
   else
   {
      int ok=vf_in.exec==0 && (config.cfg_BeforePack[0]==0 || vf_in.before==0);
      VF_CHECK(!r==!ok,"pack: result");
      if(ok) { VF_CHECK(nexec==1 && nflow==1 && norph==!flowok && vf_fs_find("q/12345678.pkt")<0 && vf_fs_find(file)<0,"pack: packed once and bundle entered for sending"); VF_REACH("packed"); }
      else { VF_CHECK(nflow==0,"pack: not entered"); kept(file); VF_REACH("failed"); }
   }
#elif VF_PART == 10
   else
   {
      int g=vf_fs_find(C[VF_PART].out);
      VF_CHECK(r && nflow==1 && norph==!flowok,"pack: entered for sending"); kept(flowname); VF_CHECK(vf_fs_find(file)<0,"pack: moved");
      VF_CHECK(g>=0 && vf_fs[g].size==NOLD,"pack: packets waiting in the outbound are kept");
      if(g>=0) for(i=0;i<NOLD;i++) VF_CHECK(vf_fs[g].data[i]==vf_in.old[i],"pack: packets waiting in the outbound are kept");
   }
#elif VF_PART == 6 || VF_PART == 7
   else { VF_CHECK(r && nflow==1 && norph==!flowok,"pack: entered for sending"); kept(C[VF_PART].out); VF_CHECK(vf_fs_find(file)<0,"pack: moved"); }
#else
   else if(vf_fs_failed) 
   {
      VF_CHECK(!r && ioerror,"pack: write error is reported"); kept(file);
#if VF_PART < 4
      VF_REACH("error");
#endif
   }
   else
   {
      int g=vf_fs_find(C[VF_PART].out),at=NOLD>=60 ? NOLD-2 : 0,skip=NOLD>=60 ? 58 : 0;
      VF_CHECK(r && g>=0 && vf_fs_find(file)<0,"pack: netmail moved to the outbound packet");
      if(g>=0)
      {
         VF_CHECK(vf_fs[g].size==at+NIN-skip,"pack: complete packet");
         for(i=0;i<at;i++) VF_CHECK(vf_fs[g].data[i]==vf_in.old[i],"pack: mail waiting in the outbound is kept");
         for(i=skip;i<NIN;i++) VF_CHECK(vf_fs[g].data[at+i-skip]==vf_in.in[i],"pack: mail appended in place of the end mark");
      }
      VF_REACH("netmail");
   }
#endif
#endif
   VF_REACH("end");
}
