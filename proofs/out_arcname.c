// @props: P15
// @functions: MakeArcName ExistsBasenum ExistsBundle IsArc hextodec
// @level: bounded
// @bound: twelve last bundle names (well-formed, short and damaged ones), up to two bundles in the outbound; every day, size, size limit and naming mode
// @unwind: 20
// @hunwind: 30
// @lunwind: 30
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11
// @flags: --max-field-sensitivity-array-size 120 --slice-formula
// @desc: a bundle is continued only while it is there, not truncated, within the size limit and of today (weekday naming); otherwise the next free name follows; bundle names are well-formed and not shared between nodes
#include <crashmail/crashmail.h>
#include <time.h>
struct vf_input { uint8_t day,wd; uint32_t size[2],max,now; char e0,e1; };
#include "vf.h"
void MakeArcName(struct ConfigNode *cnode,char *dest);
extern struct jbList ArcList;
static struct osFileEntry f0,f1; static struct ConfigNode n0,n1; static struct tm tmb; static int nidx;
time_t time(time_t *t) { if(t) *t=vf_in.now; return vf_in.now; }
struct tm *localtime(const time_t *t) { return &tmb; }
void WriteIndex(void) { nidx++; }
static const char *dn[]={"su","mo","tu","we","th","fr","sa"};
int sprintf(char *d,const char *f,...)
{
   va_list a; uint32_t b; char *s; int i;
   va_start(a,f); b=va_arg(a,unsigned);
   for(i=0;i<8;i++) d[i]="0123456789abcdef"[(b>>(28-4*i))&15];
   d[8]='.'; d[9]=0;
   if(f[4]=='.' && f[5]==0) { va_end(a); return 9; }
   s=va_arg(a,char *); d[9]=s[0]; d[10]=s[1]; i=va_arg(a,int); VF_CHECK(i>=0 && i<10,"arc: one digit"); d[11]='0'+i; d[12]=0;
   va_end(a); return 12;
}
/* last name, its day*10+digit or -1, names of the bundles in the outbound */
static const struct { const char *last; int suf; const char *a,*b; } C[12]={
 {"",-1,NULL,NULL}, {"12ab34cd.mo3",13,"12ab34cd.mo3",NULL}, {"12ab34cd.mo3",13,"12ab34cd.mo3","12ab34cd.mo4"}, {"12ab34cd.mo3",13,NULL,NULL},
 {"12ab34cd.sa9",69,"12ab34cd.sa9","12ab34cd.su0"}, {"12ab34cd.su9",9,"12AB34CD.SU9","00000001.su9"}, {"12ab34cd.fr0",50,"12ab34cd.fr1",NULL},
 {"ab",-1,NULL,NULL}, {"12ab34cd.saz",-1,"12ab34cd.saz",NULL}, {"x",-1,NULL,NULL}, {"12ab34cd.we!",-1,NULL,NULL}, {"12ab34cd.sa9",69,"12ab34cd.sa9",NULL} };
static void cpy(char *d,const char *s) { int i; for(i=0;i<20 && s[i];i++) d[i]=s[i]; d[i]=0; }
static int lc(int c) { return c>='A' && c<='Z' ? c+32 : c; }
static int eq(const char *a,const char *b) { int i; for(i=0;i<13;i++) { if(lc(a[i])!=lc(b[i])) return 0; if(!a[i]) return 1; } return 1; }
void vf_harness(void)
{
   char d[20]; int c=VF_PART,i,suf=C[c].suf,day=-1,dig,got,found=-1; char last[20];
   VF_INPUT();
   VF_ASSUME(vf_in.day<7); tmb.tm_wday=vf_in.day;
   jbNewList(&ArcList); jbNewList(&config.CNodeList);
   if(C[c].a) { cpy(f0.Name,C[c].a); f0.Size=vf_in.size[0]; jbAddNode(&ArcList,(struct jbNode *)&f0); if(eq(C[c].a,C[c].last)) found=0; }
   if(C[c].b) { cpy(f1.Name,C[c].b); f1.Size=vf_in.size[1]; jbAddNode(&ArcList,(struct jbNode *)&f1); }
   jbAddNode(&config.CNodeList,(struct jbNode *)&n0); jbAddNode(&config.CNodeList,(struct jbNode *)&n1); cpy(n0.LastArcName,C[c].last); cpy(n1.LastArcName,"0000000a.mo1");
   config.cfg_Flags=vf_in.wd&1 ? CFG_WEEKDAYNAMING : 0; config.cfg_MaxBundleSize=vf_in.max;
#if VF_PART == 0
   vf_in.now=(vf_in.wd&2) ? 10 : 12;
#endif
   MakeArcName(&n0,d);
   VF_CHECK(d[12]==0 && d[8]=='.' && d[11]>='0' && d[11]<='9',"arc: well-formed bundle name");
   for(i=0;i<7;i++) if(d[9]==dn[i][0] && d[10]==dn[i][1]) day=i;
   VF_CHECK(day>=0,"arc: well-formed bundle name");
   got=day*10+d[11]-'0';
   VF_CHECK(eq(n0.LastArcName,d),"arc: name is remembered");
   VF_CHECK(nidx==!eq(C[c].last,d),"arc: new name is stored");
   VF_CHECK(strcmp(n1.LastArcName,"0000000a.mo1")==0,"arc: names of other nodes are kept");
   if(C[c].last[0]==0)
   {
      const char *e=(vf_in.wd&2) ? "0000000b" : "0000000c";
      for(i=0;i<8;i++) VF_CHECK(d[i]==e[i],"arc: bundle names are not shared");
      VF_CHECK(got==(vf_in.wd&1 ? vf_in.day*10 : 0),"arc: first suffix");
   }
   else
   {
      if(suf>=0) for(i=0;i<8;i++) VF_CHECK(d[i]==C[c].last[i],"arc: same number for a node");
      if(suf<0) VF_CHECK(got==(vf_in.wd&1 ? vf_in.day*10 : 0),"arc: first suffix");
      else
      {
         int next=(suf+1)%70,keep=found==0 && vf_in.size[0]>0 && vf_in.size[0]<=vf_in.max && !((vf_in.wd&1) && suf/10!=vf_in.day); char nn[20];
         if((vf_in.wd&1) && next/10!=vf_in.day) next=vf_in.day*10;
         cpy(nn,C[c].last); nn[9]=dn[next/10][0]; nn[10]=dn[next/10][1]; nn[11]='0'+next%10;
         if((C[c].a && eq(C[c].a,nn)) || (C[c].b && eq(C[c].b,nn))) next=suf;
         VF_CHECK(got==(keep ? suf : next),"arc: bundle continued only while it is there, not truncated, small enough and of today");
      }
   }
   VF_REACH("end");
}
