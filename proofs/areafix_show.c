// @props: P19
// @functions: rawSendList AddSortList SortSortList FreeSortList CompareAreas AddForwardList CalculateWeekKB
// @level: bounded
// @bound: three areas and two area lists of up to three lines; three kinds of list; every link flag and every group order of the areas listed
// @unwind: 24
// @hunwind: 120
// @lunwind: 204
// @parts: 0 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @desc: every area of a list is shown once, sorted by group and tag, with the mark of its link; nothing of the list is left in memory
#include <crashmail/crashmail.h>
struct vf_input { uint16_t tfl[2]; };
#include "vf.h"
#define VF_FS_FILES 2
#define VF_FS_CAP 60
#define VF_FS_NAME 12
#define VF_FS_NOPRINTF
#include "fs_model.h"
#include <stdarg.h>
#include <stdio.h>
struct afReply; void rawSendList(short type,struct Node4D *from4d,char *toname,struct ConfigNode *cnode);
static struct ConfigNode n0,n1; static struct Area a0,a1,a2; static struct TossNode t0,t1,xx; static struct Aka aka; static struct Arealist l0,l1; static char afr[4]; static int nsent,nfr;
#define NM 40
static char pool[NM][64]; static int nm,freed[NM]; static char line[160]; static char mark[8],tags[8][12]; static int nl;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
void *osAlloc(uint32_t n) { VF_CHECK(n<=64 && nm<NM,"list: allocation"); return pool[nm++]; }
void *osAllocCleared(uint32_t n) { VF_CHECK(n<=64 && nm<NM,"list: allocation"); return pool[nm++]; }
void osFree(void *p) { int i; for(i=0;i<NM;i++) if((char *)p==pool[i]) { VF_CHECK(i<nm && !freed[i],"list: memory is freed once"); freed[i]=1; return; } VF_CHECK(0,"list: only its own memory is freed"); }
struct afReply *afInitReply(char *f,struct Node4D *a,char *t,struct Node4D *to,char *s) { return (struct afReply *)afr; }
void afFreeReply(struct afReply *a) { nfr++; }
void afSendMessage(struct afReply *a) { nsent++; }
static int isarea(const char *s) { return (s[0]=='A' && s[1]==' ') || (s[0]=='B' && s[1]==' ') || (s[0]=='C' && s[1]==' ') || ((s[0]=='F' || s[0]=='f') && s[1]>='1' && s[1]<='3' && s[2]==' '); }
void afAddLine(struct afReply *a,char *fmt,...)
{
   va_list ap; int k;
   if(fmt[0]==0) return;
   va_start(ap,fmt); vsnprintf(line,150,fmt,ap); va_end(ap);
   if(line[0] && isarea(line+1)) { VF_CHECK(nl<8,"list: every area once"); mark[nl]=line[0]; for(k=0;k<10 && line[1+k] && line[1+k]!=' ';k++) tags[nl][k]=line[1+k]; tags[nl][k]=0; nl++; }
}
static void put(const char *n,const char *t) { int f=vf_fs_make(n),i; for(i=0;t[i];i++) vf_fs[f].data[i]=t[i]; vf_fs[f].size=i; }
#define P VF_PART
/* part: kind of list, groups of the areas */
static const struct { int kind; char g[3]; } C[5]={ { SENDLIST_FULL,{'A','B','C'} }, { SENDLIST_FULL,{'C','B','A'} }, { SENDLIST_QUERY,{'B','A','A'} }, { SENDLIST_UNLINKED,{'A','B','B'} }, { SENDLIST_UNLINKED,{'A','A','A'} } };
void vf_harness(void)
{
   int i,k;
   VF_INPUT();
   strcpy(n0.Groups,"ABC"); n0.Flags=NODE_FORWARDREQ; n0.Node.Zone=2;
   jbNewList(&config.AreaList); jbAddNode(&config.AreaList,(struct jbNode *)&a0); jbAddNode(&config.AreaList,(struct jbNode *)&a1); jbAddNode(&config.AreaList,(struct jbNode *)&a2);
   strcpy(a0.Tagname,"A"); strcpy(a1.Tagname,"B"); strcpy(a2.Tagname,"C"); a0.AreaType=a1.AreaType=a2.AreaType=AREATYPE_ECHOMAIL; a0.Group=C[P].g[0]; a1.Group=C[P].g[1]; a2.Group=C[P].g[2];
   jbNewList(&a0.TossNodes); jbNewList(&a1.TossNodes); jbNewList(&a2.TossNodes); xx.ConfigNode=&n1; xx.Flags=TOSSNODE_FEED; t0.ConfigNode=t1.ConfigNode=&n0; t0.Flags=vf_in.tfl[0]; t1.Flags=vf_in.tfl[1];
   jbAddNode(&a0.TossNodes,(struct jbNode *)&xx); jbAddNode(&a0.TossNodes,(struct jbNode *)&t0); jbAddNode(&a1.TossNodes,(struct jbNode *)&t1); 
   jbNewList(&config.ArealistList); jbAddNode(&config.ArealistList,(struct jbNode *)&l0); jbAddNode(&config.ArealistList,(struct jbNode *)&l1);
   l0.Node=&n1; l1.Node=&n1; l0.Group='B'; l1.Group='B'; l0.Flags=AREALIST_FORWARD|AREALIST_DESC; l1.Flags=AREALIST_FORWARD; strcpy(l0.AreaFile,"l0"); strcpy(l1.AreaFile,"l1");
   put("l0","F2 Long description\r\na\r\n"); put("l1","f2\nb x\nF1 \n");
   config.cfg_Flags=CFG_INCLUDEFORWARD; nomem=FALSE;
   rawSendList(C[P].kind,&aka.Node,"me",&n0);
   VF_CHECK(nsent==1 && nfr==1,"list: sent");
   { /* expected lines, in order of group and tag */
      static const char *O[5][6]={ {"A","B","F1","F2","C",NULL}, {"C","B","F1","F2","A",NULL}, {"B","A",NULL}, {"C","F1","F2",NULL}, {"C","F1","F2",NULL} };
      static const int H[5]={5,5,2,3,3};
      VF_CHECK(nl==H[P],"list: every area once");
      for(i=0;i<H[P];i++)
      {
         const char *t=O[P][i]; char m=' ';
         VF_CHECK(strcmp(tags[i],t)==0,"list: sorted by group and tag");
         if(t[0]=='A' || t[0]=='B') { if(P<2) m='*'; if(vf_in.tfl[t[0]-'A'] & TOSSNODE_FEED) m='%'; }
         VF_CHECK(mark[i]==m,"list: links are marked");
      }
   }
   for(i=0;i<nm;i++) VF_CHECK(freed[i],"list: memory is freed");
   for(k=0;k<VF_FS_FILES;k++) VF_CHECK(!vf_fh[k].open,"list: files are closed");
   VF_REACH("end");
}
