// @props: P15 P16
// @functions: ArchiveOutbound MakePktTmp DeleteZero IsOrphan IsNewPkt IsPktTmp IsArc
// @level: bounded
// @bound: directories with two orphan files, two bundles, two old and two new packets next to other files; every result of the operations, every bundle size
// @unwind: 42
// @hunwind: 40
// @lunwind: 204
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @assume: PackFile and HandleOrphan answer anything (decided by out_pack and out_flow)
// @desc: every waiting packet and orphan file is tried once per run; success is reported only if every new packet was handed over or set aside for the next run; only empty bundles are deleted
#include <crashmail/crashmail.h>
struct vf_input { uint8_t dir[5],pack[4],ren[2],brk[2],copy[2]; uint32_t size[2]; };
#include "vf.h"
bool PackFile(char *f); void HandleOrphan(char *n); void ReadIndex(void);
static struct osFileEntry e[9]; static int nd,npack[4],north[2],ndel[2],nmove[2],nidx,nfree;
static struct osFileEntry o0,o1,a0,a1,p0,p1,n0,n1;
static const char *names[10]={"12345678.mo0.orphan","x","12ab34cd.tu0","12ab34cd.fr9","11111111_Normal_2_3_4_5.pkttmp","22222222_Crash_2_3_4_5.pkttmp","33333333_Hold_2_3_4_5.newpkt","44444444_Normal_2_3_4_5.newpkt","y.orphan","cmindex"};
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
uint32_t osError(void) { return 1; }
char *osErrorMsg(uint32_t e) { return ""; }
bool SortFEList(struct jbList *l) { return TRUE; }
static void add(struct jbList *l,bool (*f)(char *),struct osFileEntry *x,int i) { if(f((char *)names[i])) jbAddNode(l,(struct jbNode *)x); }
bool osReadDir(char *d,struct jbList *l,bool (*f)(char *))
{
   int fail=vf_in.dir[nd]&1; nd++;
   VF_CHECK(nd<=4,"archive: directories"); jbNewList(l);
   if(d[0]=='p')
   {
      if(f==IsOrphan) { add(l,IsOrphan,&o0,0); add(l,IsOrphan,&o1,8); }
      else if(f==IsArc) { add(l,IsArc,&a0,2); add(l,IsArc,&a1,3); }
      else if(f==IsPktTmp) { add(l,IsPktTmp,&p0,4); add(l,IsPktTmp,&p1,5); }
      else VF_CHECK(0,"archive: packet directory is searched for orphans, bundles and old packets");
   }
   else { VF_CHECK(f==IsNewPkt,"archive: new packets"); add(l,IsNewPkt,&n0,6); add(l,IsNewPkt,&n1,7); }
   return !fail;
}
void jbFreeList(struct jbList *l) { jbNewList(l); nfree++; }
void jbFreeNode(struct jbList *l,struct jbNode *n) { VF_CHECK(n==(struct jbNode *)&a0 || n==(struct jbNode *)&a1,"archive: bundle"); if(l->First==n) { l->First=n->Next; if(!l->First) l->Last=NULL; } else { l->First->Next=NULL; l->Last=l->First; } }
static int idx(const char *p,char dir) { int i; VF_CHECK(p[0]==dir && p[1]=='/',"archive: path"); for(i=0;i<10;i++) if(strcmp(p+2,names[i])==0) return i; return 99; }
void HandleOrphan(char *n) { int i=idx(n,'p'); VF_CHECK(i==0 || i==8,"archive: orphan"); north[i!=0]++; if(vf_in.brk[i!=0]&1) ctrlc=TRUE; }
void ReadIndex(void) { nidx++; VF_CHECK(npack[0]+npack[1]+npack[2]+npack[3]==0,"archive: index is read before packing"); }
bool PackFile(char *f) { int i; VF_CHECK(nidx==1,"archive: index is read before packing"); if(f[0]=='p') { i=idx(f,'p')-4; VF_CHECK(i==0 || i==1,"archive: old packet"); } else { i=idx(f,'q')-4; VF_CHECK(i==2 || i==3,"archive: new packet"); } npack[i&3]++; return vf_in.pack[i&3]&1; }
bool osDelete(char *f) { int i=idx(f,'p'); VF_CHECK(i==2 || i==3,"archive: only bundles are deleted"); VF_CHECK((i==2 ? a0.Size : a1.Size)==0,"archive: only empty bundles are deleted"); ndel[i==3]++; return TRUE; }
bool movefile(char *o,char *n)
{
   int i=idx(o,'q')-6; VF_CHECK(i==0 || i==1,"archive: new packet set aside");
   VF_CHECK(strcmp(n,i==0 ? "p/33333333_Hold_2_3_4_5.pkttmp" : "p/44444444_Normal_2_3_4_5.pkttmp")==0 && IsPktTmp(n),"archive: set aside where the next run finds it");
   VF_CHECK(npack[2+(i&1)]==1 && !(vf_in.pack[2+(i&1)]&1),"archive: only packets that were not handed over are set aside"); nmove[i&1]++; return vf_in.ren[i&1]&1;
}
static void nm(struct osFileEntry *x,int i) { strcpy(x->Name,names[i]); }
void vf_harness(void)
{
   bool r; int i,ok;
   VF_INPUT();
   strcpy(config.cfg_PacketDir,"p"); strcpy(config.cfg_PacketCreate,"q");
   nm(&o0,0); nm(&o1,8); nm(&a0,2); nm(&a1,3); nm(&p0,4); nm(&p1,5); nm(&n0,6); nm(&n1,7);
   a0.Size=vf_in.size[0]; a1.Size=vf_in.size[1]; ctrlc=FALSE;
   r=ArchiveOutbound();
   if(r)
   {
      for(i=0;i<4;i++) { VF_CHECK(npack[i]==1,"archive: every waiting packet is tried once"); if(i>1 && !(vf_in.pack[i]&1)) VF_CHECK(nmove[i-2]==1 && (vf_in.ren[i-2]&1),"archive: success only if every new packet was handed over or set aside"); }
      VF_CHECK(north[0]==1 && north[1]==!(vf_in.brk[0]&1),"archive: every orphan file is tried");
      VF_CHECK(ndel[0]==(vf_in.size[0]==0) && ndel[1]==(vf_in.size[1]==0),"archive: empty bundles are deleted");
      VF_REACH("ok");
   }
   else
   {
      ok=1; for(i=0;i<4;i++) if(vf_in.dir[i]&1) ok=0;
      for(i=0;i<2;i++) if(nmove[i] && !(vf_in.ren[i]&1)) ok=0;
      VF_CHECK(!ok,"archive: failure only after an error");
      VF_REACH("failed");
   }
   for(i=0;i<4;i++) VF_CHECK(npack[i]<=1,"archive: every waiting packet is tried once");
}
