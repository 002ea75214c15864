// @props: P17
// @functions: filter_evalfunc filter_comparenode filter_comparestring filter_comparebool filter_nllookup
// @level: bounded
// @bound: two AKAs, two configured nodes, names of up to 3 characters; all address, flag and name values
// @parts: 1 2 3 4 5
// @unwind: 30
// @lunwind: 102
// @hunwind: 30
// @flags: --max-field-sensitivity-array-size 128
// @desc: every filter variable has the value the documentation gives it
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D orig,dest,origin,aka[2],cn[2]; uint8_t echo,nl,nlopen; uint16_t attr,flags; char name[4]; int8_t cmp; };
#include "vf.h"
int filter_evalfunc(char *str,int *errpos,char **errstr);
extern struct MemMessage *filter_mm;
static struct MemMessage m;
static struct Aka ak[2]; static struct ConfigNode cn[2]; static struct Nodelist nl;
static struct Node4D asked; static int asks;
static int nlcheck(struct Node4D *n) { asked=*n; asks++; return vf_in.nl&1; }
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { asked=*n; asks++; return vf_in.cmp; }
bool Parse4DPat(char *b,struct Node4DPat *p) { p->Type=PAT_PATTERN; return strcmp(b,"1:2/3")==0; }
static int same(struct Node4D a,struct Node4D b)   /* equality with unknown zones, as P02 states it */
{ return (a.Zone==b.Zone || a.Zone==0 || b.Zone==0) && a.Net==b.Net && a.Node==b.Node && a.Point==b.Point; }
static int ident(struct Node4D a,struct Node4D b) { return a.Zone==b.Zone && a.Net==b.Net && a.Node==b.Node && a.Point==b.Point; }
static const char *q[]={"",
 "FROMADDR=1:2/3","TOADDR=\"1:2/3\"","fromname=aB","TONAME=\"ab\"","SUBJECT=ab","AREA=ab","TYPE=NETMAIL","TYPE=ECHOMAIL",
 "SOURCE=TOSSED","SOURCE=EXPORTED","SOURCE=CRASHMAIL","FILEATTACH","TOLOCALAKA","FROMLOCALAKA=FALSE","TOLOCALPOINT","FROMLOCALPOINT=true",
 "EXISTSCFG_FROMADDR","EXISTSCFG_FROMBOSS","EXISTSCFG_TOADDR","EXISTSCFG_TOBOSS","EXISTSNL_FROMADDR","EXISTSNL_FROMBOSS","EXISTSNL_TOADDR","EXISTSNL_TOBOSS","EXISTSNL_FROMADDR" };
static void one(int v)
{
   struct Node4D from,fb,tb; int i,r,ep=0,want=0,eq; char *es="";
   bool nlcfg=v!=25;
   for(i=0;i<2;i++) { ak[i].Node=vf_in.aka[i]; cn[i].Node=vf_in.cn[i]; }
   jbNewList(&config.AkaList); jbAddNode(&config.AkaList,(struct jbNode *)&ak[0]); jbAddNode(&config.AkaList,(struct jbNode *)&ak[1]);
   jbNewList(&config.CNodeList); jbAddNode(&config.CNodeList,(struct jbNode *)&cn[0]); jbAddNode(&config.CNodeList,(struct jbNode *)&cn[1]);
   nl.nlCheckNode=(void *)nlcheck; config.cfg_NodelistType=nlcfg ? &nl : NULL; nodelistopen=vf_in.nlopen&1;
   vf_in.name[3]=0; asks=0; { struct MemMessage z={0}; m=z; }
   m.OrigNode=vf_in.orig; m.DestNode=vf_in.dest; m.Origin4D=vf_in.origin; m.Attr=vf_in.attr; m.Flags=vf_in.flags;
   if(v==6) for(i=0;i<4;i++) m.Area[i]=vf_in.name[i]; else m.Area[0]=vf_in.echo&1 ? 'E' : 0;
   for(i=0;i<4;i++) { if(v==3) m.From[i]=vf_in.name[i]; if(v==4) m.To[i]=vf_in.name[i]; if(v==5) m.Subject[i]=vf_in.name[i]; }
   filter_mm=&m;
   r=filter_evalfunc((char *)q[v],&ep,&es);
   from=m.Area[0] ? vf_in.origin : vf_in.orig; fb=from; fb.Point=0; tb=vf_in.dest; tb.Point=0;
   eq=(vf_in.name[0]=='a' || vf_in.name[0]=='A') && (vf_in.name[1]=='b' || vf_in.name[1]=='B') && vf_in.name[2]==0;
   switch(v)
   {
      case 1: want=vf_in.cmp==0; VF_CHECK(asks==1 && ident(asked,from),"FROMADDR: the sender: header address of netmail, origin line of echomail"); break;
      case 2: want=vf_in.cmp==0; VF_CHECK(asks==1 && ident(asked,vf_in.dest),"TOADDR: the recipient"); break;
      case 3: case 4: case 5: case 6: want=eq; break;
      case 7: want=m.Area[0]==0; break;
      case 8: want=m.Area[0]!=0; break;
      case 9: want=(vf_in.flags&MMFLAG_TOSSED)!=0; break;
      case 10: want=(vf_in.flags&(MMFLAG_TOSSED|MMFLAG_AUTOGEN|MMFLAG_EXPORTED))==MMFLAG_EXPORTED; break;
      case 11: want=(vf_in.flags&(MMFLAG_TOSSED|MMFLAG_AUTOGEN))==MMFLAG_AUTOGEN; break;
      case 12: want=(vf_in.attr&FLAG_FILEATTACH)!=0; break;
      case 13: want=same(vf_in.dest,vf_in.aka[0]) || same(vf_in.dest,vf_in.aka[1]); break;
      case 14: want=!(same(from,vf_in.aka[0]) || same(from,vf_in.aka[1])); break;
      case 15: want=vf_in.dest.Point!=0 && ((same(tb,vf_in.aka[0]) && vf_in.aka[0].Point==0) || (same(tb,vf_in.aka[1]) && vf_in.aka[1].Point==0)); break;
      case 16: want=from.Point!=0 && ((same(fb,vf_in.aka[0]) && vf_in.aka[0].Point==0) || (same(fb,vf_in.aka[1]) && vf_in.aka[1].Point==0)); break;
      case 17: want=same(from,vf_in.cn[0]) || same(from,vf_in.cn[1]); break;
      case 18: want=same(fb,vf_in.cn[0]) || same(fb,vf_in.cn[1]); break;
      case 19: want=same(vf_in.dest,vf_in.cn[0]) || same(vf_in.dest,vf_in.cn[1]); break;
      case 20: want=same(tb,vf_in.cn[0]) || same(tb,vf_in.cn[1]); break;
      default:
         want=!nlcfg ? -1 : !(vf_in.nlopen&1) ? 1 : vf_in.nl&1;
         if(nlcfg && (vf_in.nlopen&1)) VF_CHECK(asks==1 && ident(asked,v==21 ? from : v==22 ? fb : v==23 ? vf_in.dest : tb),"EXISTSNL_*: the right address is looked up in the nodelist");
         break;
   }
   VF_CHECK(r==want,"filter variable: its documented value");
}
void vf_harness(void)
{
   static const int lo[]={0,1,7,13,21,25},hi[]={0,6,12,20,24,25};
   int v;
   VF_INPUT();
   for(v=lo[VF_PART];v<=hi[VF_PART];v++) one(v);
   VF_REACH("end");
}
