// @props: P11
// @functions: AddNodePath
// @level: bounded
// @bound: path lines and addresses of 21 concrete shapes (empty, same net, other net, points, malformed, lines around the 70 character limit, full blocks)
// @unwind: 30
// @hunwind: 120
// @lunwind: 104
// @parts: 0 1 2 3 4 5 6
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 1100
// @desc: the own address is appended to the path once, relative to the net of the last entry, lines stay short and all earlier entries are kept
#include <crashmail/crashmail.h>
struct vf_input { uint8_t dummy,oom; };
#include "vf.h"
bool AddNodePath(struct jbList *list,struct Node4D *node);
static struct Path p0,p1; static struct jbList l; static int allocs;
void *osAlloc(uint32_t n) { allocs++; VF_CHECK(n==sizeof(struct Path) && allocs==1,"path: one block"); return (vf_in.oom&1) ? NULL : (void *)&p1; }
static int same(const char *a,const char *b) { int i; for(i=0;i<110;i++) { if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 0; }
/* have: last line (NULL: no block), lines: number of lines before it; want: last line afterwards; isnew: it is an additional line */
static void t(const char *have,int lines,uint16_t net,uint16_t node,uint16_t point,const char *want,int isnew)
{
   struct Node4D n; bool res; struct Path *p; int i;
   n.Zone=2; n.Net=net; n.Node=node; n.Point=point;
   jbNewList(&l); allocs=0; p0.Next=NULL; p0.Paths=0; p1.Paths=77;
   if(have)
   {
      l.First=(struct jbNode *)&p0; l.Last=(struct jbNode *)&p0;
      for(i=0;i<lines;i++) strcpy(p0.Path[i],"1/1");
      if(have[0]) { strcpy(p0.Path[lines],have); lines++; }
      p0.Paths=lines;
   }
   res=AddNodePath(&l,&n);
   if(allocs && (vf_in.oom&1)) { VF_CHECK(!res,"path: out of memory is reported"); return; }
   VF_CHECK(res,"path: added");
   if(allocs) { VF_CHECK((!have || lines==PKT_NUMPATH) && isnew && (void *)l.Last==(void *)&p1 && p1.Next==NULL && p1.Paths==1,"path: new block only when needed"); p=&p1; i=0; if(have) VF_CHECK(p0.Next==&p1 && p0.Paths==lines,"path: old block kept"); else VF_CHECK((void *)l.First==(void *)&p1,"path: block in the list"); }
   else { p=&p0; VF_CHECK(p0.Paths==lines+isnew && (void *)l.Last==(void *)&p0,"path: number of lines"); i=p0.Paths-1; }
   VF_CHECK(same(p->Path[i],want),"path: own address appended as documented");
   if(isnew && have && have[0]) VF_CHECK(same(p0.Path[lines-1],have),"path: previous line kept");
}
#define L60 "100/1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22"
void vf_harness(void)
{
   VF_INPUT();
#if VF_PART == 0
   t(NULL,0,200,1,0,"200/1",1);
   t("",0,200,1,5,"200/1.5",1);
   t(NULL,0,65535,65535,65535,"65535/65535.65535",1);
#elif VF_PART == 1
   t("200/1",0,200,2,0,"200/1 2",0);
   t("200/1",0,200,1,0,"200/1",0);
   t("200/1",0,200,1,1,"200/1 1.1",0);
   t("200/1 201/5 7",0,201,8,0,"200/1 201/5 7 8",0);
#elif VF_PART == 2
   t("200/1 201/5 7",0,201,7,0,"200/1 201/5 7",0);
   t("200/1 201/5 7",0,200,1,0,"200/1 201/5 7 200/1",0);
   t("200/1 x",0,200,2,0,"200/1 x 200/2",0);
#elif VF_PART == 3
   t(L60 " 12345",3,100,12,0,L60 " 12345 12",0);       /* 66 + 2 */
#elif VF_PART == 4
   t(L60 " 12345",3,100,12345,0,L60 " 12345",0);
   t(L60 " 12345",3,100,1234,0,L60 " 12345 1234",0);
   t(L60 " 12345",3,100,12346,0,"100/12346",1);
#elif VF_PART == 5
   t(L60 " 12345",9,300,4,7,"300/4.7",1);
   t("1/2",9,1,3,0,"1/2 3",0);
#else
   t(L60 " 12345",2,65535,65535,65535,"65535/65535.65535",1);
   t("10",0,200,2,0,"10 200/2",0);
   t("200/5.1",0,200,5,0,"200/5.1 5",0);
#endif
   VF_REACH("done");
}
