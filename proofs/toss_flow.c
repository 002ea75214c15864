// @props: P16
// @functions: TossDir TossFile TossBundle AfterScanToss SafeDelete ProcessSafeDelete
// @level: bounded
// @bound: an inbound directory with two packets and one bundle of two packets; every outcome of reading, unpacking, writing and archiving, and a break at any of these points
// @unwind: 22
// @hunwind: 12
// @lunwind: 204
// @parts: 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420
// @assume: directory listing, unpacking, packet reading (decided by P07) and archiving (decided by P15) answer anything
// @desc: inbound files are deleted only after all their mail was handled and the outgoing mail is safely in the outbound
#include <crashmail/crashmail.h>
struct vf_input { uint8_t rd[4],brk[4],io[4]; uint8_t archive,closeio,closebrk,arcres,packer,dirs; uint8_t arcbrk; };
#include "vf.h"
bool TossBundle(char *file,struct osFileEntry *fe); struct Packer *DetectPacker(char *file); void AfterScanToss(bool success);
static struct osFileEntry e0,e1,e2,t0,t1,d0,d1,d2,fe0; static struct Packer pk; static int nd,nread,ndel,badn,archived,closed,after,unpacked; static bool aftersuccess; static int deleted[3],tdel[2]; static int readres[4]; static int bundlebad;
bool nodelistopen;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
int printf(const char *f,...) { return 0; }
bool BeforeScanToss(void) { jbNewList(&PktList); jbNewList(&DeleteList); return TRUE; }
void LogTossResults(void) {}
bool SortFEList(struct jbList *l) { return TRUE; }
bool osReadDir(char *d,struct jbList *l,bool (*f)(char *))
{
   jbNewList(l);
   if(f==IsBad) return TRUE;
   if(strcmp(d,"tmp")==0) { if(unpacked) { jbAddNode(l,(struct jbNode *)&t0); jbAddNode(l,(struct jbNode *)&t1); } return !(vf_in.dirs&4); }
   if(f==IsPkt) { jbAddNode(l,(struct jbNode *)&e0); jbAddNode(l,(struct jbNode *)&e1); return !(vf_in.dirs&1); }
   jbAddNode(l,(struct jbNode *)&e2); return !(vf_in.dirs&2);
}
struct osFileEntry *osGetFileEntry(char *f) { strcpy(fe0.Name,VF_PART==2 ? "aaaaaaaa.pkt" : "b.su0"); fe0.Size=9; return &fe0; }
void osFree(void *p) {}
void *osAllocCleared(uint32_t n) { VF_CHECK(nd<3,"toss: files to delete"); nd++; return nd==1 ? &d0 : nd==2 ? &d1 : &d2; }
static int which(const char *n) { return strcmp(n,"in/aaaaaaaa.pkt")==0 ? 0 : strcmp(n,"in/b.pkt")==0 ? 1 : strcmp(n,"in/b.su0")==0 ? 2 : strcmp(n,"tmp/x.pkt")==0 ? 3 : strcmp(n,"tmp/y.pkt")==0 ? 4 : 9; }
bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*h)(struct MemMessage *))
{
   int w=which(pkt),i=w==3 ? 2 : w==4 ? 3 : w;
   VF_CHECK(w<2 || w==3 || w==4,"toss: the packets of the inbound and of the bundle are read");
   VF_CHECK(!bundled==!(w>2) && h==HandleMessage,"toss: messages are handled");
   VF_CHECK(readres[i]==0,"toss: every packet is read once");
   nread++;
   if(vf_in.brk[i]&1) ctrlc=TRUE;
   if(vf_in.io[i]&1) ioerror=TRUE;
   readres[i]=(vf_in.rd[i]&1) && !(vf_in.brk[i]&1) && !(vf_in.io[i]&1) ? 1 : 2;     /* a break or write error makes the packet fail (P07, P08) */
   return readres[i]==1;
}
bool osDelete(char *f)
{
   int w=which(f);
   ndel++;
   if(w<3) { VF_CHECK(archived && !ioerror,"toss: inbound files are deleted only when the outgoing mail is safe"); deleted[w]++; }
   else { VF_CHECK(w<9,"toss: only tossed files are deleted"); VF_CHECK(readres[w-1]==1,"toss: unpacked packets are deleted only after they were read"); tdel[w-3]++; }
   return TRUE;
}
struct Packer *DetectPacker(char *f) { VF_CHECK(which(f)==2,"toss: this bundle is unpacked"); return vf_in.packer&1 ? &pk : NULL; }
int osChDirExecute(char *d,char *cmd) { VF_CHECK(strcmp(d,"tmp")==0,"toss: unpacked in the temporary directory"); unpacked=1; if(vf_in.arcbrk&1) ctrlc=TRUE; return vf_in.arcres==0 ? 0 : vf_in.arcres==1 ? -1 : 1; }
void ExpandPacker(char *c,char *d,uint32_t n,char *a,char *f) { d[0]=0; }
void BadFile(char *n,char *c) { VF_CHECK(which(n)==2,"toss: this bundle is set aside"); bundlebad++; }
void ClosePackets(void) { closed++; if(vf_in.closeio&1) ioerror=TRUE; }
bool ArchiveOutbound(void) { VF_CHECK(closed,"toss: packets are finished before they are archived"); archived=vf_in.archive&1; return archived; }
bool WriteStats(char *f) { return TRUE; }
time_t time(time_t *t) { return 100; }
void vf_harness(void)
{
   VF_INPUT();
   bool r; int i,all,bundleok;
   jbNewList(&config.AreaList); jbNewList(&config.CNodeList); config.changed=FALSE; config.cfg_NodelistType=NULL;
   for(i=0;AvailMessagebases[i].name;i++) AvailMessagebases[i].active=FALSE;
   strcpy(e0.Name,"aaaaaaaa.pkt"); strcpy(e1.Name,"b.pkt"); strcpy(e2.Name,"b.su0"); strcpy(t0.Name,"x.pkt"); strcpy(t1.Name,"y.pkt"); e0.Size=e1.Size=e2.Size=9;
   strcpy(config.cfg_TempDir,"tmp"); ctrlc=ioerror=nomem=FALSE; VF_ASSUME(vf_in.arcres<3);
   if(VF_PART==1) { vf_in.packer=1; vf_in.arcres=0; vf_in.arcbrk=0; r=TossDir("in"); }
   if(VF_PART==4) { vf_in.rd[0]=vf_in.rd[1]=1; vf_in.brk[0]=vf_in.brk[1]=0; vf_in.io[0]=vf_in.io[1]=0; vf_in.dirs=0; r=TossDir("in"); }
   if(VF_PART==2) r=TossFile("in/aaaaaaaa.pkt");
   if(VF_PART==3) r=TossFile("in/b.su0");
   bundleok=(vf_in.packer&1) && vf_in.arcres!=1 && !(vf_in.dirs&4) && readres[2]==1 && readres[3]==1;
   if(deleted[0]) VF_CHECK(readres[0]==1 && deleted[0]==1,"toss: a packet is deleted only after it was read completely");
   if(deleted[1]) VF_CHECK(readres[1]==1 && deleted[1]==1,"toss: a packet is deleted only after it was read completely");
   if(deleted[2]) VF_CHECK(bundlebad || bundleok,"toss: a bundle is deleted only after all its packets were read completely");
   VF_CHECK((deleted[0]==0 && deleted[1]==0 && deleted[2]==0) || r,"toss: after a failure nothing of the inbound is deleted");
   if(VF_PART==1 && r && archived && !ioerror) VF_CHECK(deleted[0]==1 && deleted[1]==1 && deleted[2]==1 && readres[0]==1 && readres[1]==1 && bundleok,"toss: everything is tossed and then deleted");
   if(VF_PART==1 && !(vf_in.dirs&7) && (vf_in.archive&1) && !(vf_in.closeio&1) && readres[0]==1 && readres[1]==1 && bundleok) VF_CHECK(r && deleted[0] && deleted[1] && deleted[2],"toss: what was tossed successfully is deleted");
   if(VF_PART==2 && readres[0]==1 && (vf_in.archive&1) && !(vf_in.closeio&1)) VF_CHECK(r && deleted[0]==1,"toss: what was tossed successfully is deleted");
   VF_CHECK(closed==1,"toss: packets are finished in any case");
   VF_REACH("end");
}
