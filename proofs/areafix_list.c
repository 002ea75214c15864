// @props: P19
// @functions: rawSendList AddForwardList FindForward CheckFlags CalculateWeekKB
// @level: bounded
// @bound: two areas, two area lists of two lines; every group, link and flag, three kinds of list
// @unwind: 24
// @hunwind: 40
// @lunwind: 204
// @parts: 0 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @desc: lists of areas show exactly the areas the node is linked to or may link to; a request is forwarded only to a system listed for forwarding whose group the node may have
#include <crashmail/crashmail.h>
struct vf_input { char g[2],rog,ag[2],lg[2]; uint8_t lf[2],fwd,inc; uint16_t tfl; uint32_t nfl; };
#include "vf.h"
#define VF_FS_FILES 2
#define VF_FS_CAP 40
#define VF_FS_NAME 12
#define VF_FS_NOPRINTF
#include "fs_model.h"
struct afReply; void rawSendList(short type,struct Node4D *from4d,char *toname,struct ConfigNode *cnode); struct Arealist *FindForward(char *tagname,char *flags);
extern struct jbList SortList;
static struct ConfigNode n0,n1; static struct Area a0,a1,a2; static struct TossNode t0,t1,xx; static struct Aka aka; static struct Arealist l0,l1; static char afr[4]; static int nsent,seen[5],att[2],feed[2],nfr;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
struct afReply *afInitReply(char *f,struct Node4D *a,char *t,struct Node4D *to,char *s) { VF_CHECK(to==&n0.Node && a==&aka.Node,"list: goes to the node"); return (struct afReply *)afr; }
void afFreeReply(struct afReply *a) { nfr++; }
void afAddLine(struct afReply *a,char *fmt,...) {}
void afSendMessage(struct afReply *a) { nsent++; }
void SortSortList(void) {}
void FreeSortList(void) {}
bool AddSortList(char *tag,char *desc,char group,bool attached,bool fd,long kb)
{
   int k=strcmp(tag,"A")==0 ? 0 : strcmp(tag,"B")==0 ? 1 : strcmp(tag,"F1")==0 ? 2 : strcmp(tag,"F2")==0 ? 3 : 4;
   VF_CHECK(k<4,"list: only known areas"); seen[k]++;
   if(k<2) { VF_CHECK(group==vf_in.ag[k],"list: group"); att[k]=attached; feed[k]=fd; }
   else { VF_CHECK(group==vf_in.lg[k-2] && !attached && !fd,"list: forwardable areas are not linked"); }
   return TRUE;
}
static int has(const char *s,char c) { int i; for(i=0;i<3 && s[i];i++) if(s[i]==c) return 1; return 0; }
static void put(const char *n,const char *t) { int f=vf_fs_make(n),i; for(i=0;t[i];i++) vf_fs[f].data[i]=t[i]; vf_fs[f].size=i; }
#define P VF_PART
void vf_harness(void)
{
   int i; 
   VF_INPUT();
   VF_ASSUME(vf_in.g[0]);
   n0.Groups[0]=vf_in.g[0]; n0.Groups[1]=vf_in.g[1]; n0.ReadOnlyGroups[0]=vf_in.rog; n0.Flags=vf_in.nfl; n0.Node.Zone=2;
   jbNewList(&config.AreaList); jbAddNode(&config.AreaList,(struct jbNode *)&a0); jbAddNode(&config.AreaList,(struct jbNode *)&a1); jbAddNode(&config.AreaList,(struct jbNode *)&a2);
   strcpy(a0.Tagname,"A"); strcpy(a1.Tagname,"B"); strcpy(a2.Tagname,"N"); a0.AreaType=a1.AreaType=AREATYPE_ECHOMAIL; a2.AreaType=AREATYPE_NETMAIL; a0.Group=vf_in.ag[0]; a1.Group=vf_in.ag[1]; a2.Group=vf_in.g[0];
   jbNewList(&a0.TossNodes); jbNewList(&a1.TossNodes); jbNewList(&a2.TossNodes); xx.ConfigNode=&n1; xx.Flags=TOSSNODE_FEED; t0.ConfigNode=&n0; t0.Flags=vf_in.tfl;
   jbAddNode(&a0.TossNodes,(struct jbNode *)&xx); jbAddNode(&a0.TossNodes,(struct jbNode *)&t0);
   jbNewList(&config.ArealistList); jbAddNode(&config.ArealistList,(struct jbNode *)&l0); jbAddNode(&config.ArealistList,(struct jbNode *)&l1);
   l0.Node=&n1; l1.Node=&n0; l0.Group=vf_in.lg[0]; l1.Group=vf_in.lg[1]; l0.Flags=vf_in.lf[0]; l1.Flags=vf_in.lf[1]; strcpy(l0.AreaFile,"l0"); strcpy(l1.AreaFile,"l1");
   put("l0","A\nF1 Desc\r\n"); put("l1","F2\nb x\n");
   config.cfg_Flags=vf_in.inc&1 ? CFG_INCLUDEFORWARD : 0;
#if VF_PART < 3
   rawSendList(P==0 ? SENDLIST_FULL : P==1 ? SENDLIST_QUERY : SENDLIST_UNLINKED,&aka.Node,"me",&n0);
   {
      int ac0=has(n0.Groups,vf_in.ag[0]) || has(n0.ReadOnlyGroups,vf_in.ag[0]),ac1=has(n0.Groups,vf_in.ag[1]) || has(n0.ReadOnlyGroups,vf_in.ag[1]),fw=(vf_in.inc&1) && (vf_in.nfl & NODE_FORWARDREQ) && P!=1;
      VF_CHECK(seen[0]==(P!=2) && seen[1]==(P==1 ? 0 : ac1),"list: exactly the areas linked or open to the node");
      if(seen[0]) VF_CHECK(att[0] && !feed[0]==!(vf_in.tfl & TOSSNODE_FEED),"list: links are marked");
      if(seen[1]) VF_CHECK(!att[1] && !feed[1],"list: links are marked");
      VF_CHECK(seen[2]==(fw && (vf_in.lf[0]&AREALIST_FORWARD) && has(n0.Groups,vf_in.lg[0])) && seen[3]==(fw && (vf_in.lf[1]&AREALIST_FORWARD) && has(n0.Groups,vf_in.lg[1])),"list: exactly the areas that can be requested");
      VF_CHECK(nsent==1 && nfr==1,"list: sent");
   }
#else
   {
      struct Arealist *r=FindForward(P==3 ? "f1" : "B",n0.Groups);
      VF_CHECK(r==(P==3 ? ((vf_in.lf[0]&AREALIST_FORWARD) && has(n0.Groups,vf_in.lg[0]) ? &l0 : NULL) : ((vf_in.lf[1]&AREALIST_FORWARD) && has(n0.Groups,vf_in.lg[1]) ? &l1 : NULL)),"forward: only to a system that has the area and for a group of the node");
   }
#endif
   for(i=0;i<VF_FS_FILES;i++) VF_CHECK(!vf_fh[i].open,"list: files are closed");
   VF_REACH("end");
}
