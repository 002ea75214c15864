// @props: P15
// @functions: MakeBaseName GetFilePart stricmp
// @level: bounded
// @bound: seven outbound directory, zone and domain layouts; every net, node and point number
// @unwind: 30
// @hunwind: 40
// @lunwind: 60
// @parts: 0 1 2 3 4 5 6
// @flags: --max-field-sensitivity-array-size 420
// @desc: the outbound name of a node is the one the Binkley-style layout prescribes and different nodes have different names; missing directories are made
#include <crashmail/crashmail.h>
struct vf_input { uint16_t net,node,point; uint8_t there,isp; };
#include "vf.h"
static struct Aka a0,a1; static struct Route r0; static struct PatternNode pn; static int nmk,nex; static char mk[2][40];
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { return 0; }
static void cpy(char *d,const char *s) { int i; for(i=0;i<39 && s[i];i++) d[i]=s[i]; d[i]=0; }
bool osExists(char *f) { nex++; return (vf_in.there>>(nex-1))&1; }
bool osMkDir(char *f) { VF_CHECK(nmk<2,"out: directories"); cpy(mk[nmk],f); nmk++; return TRUE; }
/* outbound directory, zone of the node, domain of first address, domain of the route's address, route there, expected directory */
static const struct { const char *out; int zone; const char *d0,*d1; int route; const char *exp; } C[7]={
 {"ob",2,"","",1,"ob"}, {"ob/",3,"","",1,"ob.003"}, {"q/ob/",0x1a,"fidonet","FidoNet",1,"q/ob.01a"},
 {"q/ob",3,"fidonet","other",1,"q/other"}, {"ob",2,"fidonet","other",0,"ob"}, {"ob",4095,"fidonet","",1,"ob.fff"}, {"q/ob/",2,"fidonet","amiganet",1,"q/amiganet"} };
static const char hx[]="0123456789abcdef";
void vf_harness(void)
{
   char b[200]; struct Node4D n; int c=VF_PART,i,l; char e[40];
   VF_INPUT();
   config.AkaList.First=(struct jbNode *)&a0; a0.Next=&a1; a0.Node.Zone=2; cpy(a0.Domain,C[c].d0); cpy(a1.Domain,C[c].d1);
   r0.Aka=&a1; config.RouteList.First=C[c].route ? (struct jbNode *)&r0 : NULL;
   cpy(config.cfg_Outbound,C[c].out);
   n.Zone=C[c].zone; n.Net=vf_in.net; n.Node=vf_in.node; n.Point=vf_in.point;
   MakeBaseName(&n,b);
   for(l=0;C[c].exp[l];l++) VF_CHECK(b[l]==C[c].exp[l],"out: directory for zone and domain");
   VF_CHECK(b[l]=='/',"out: file in this directory");
   for(i=0;i<4;i++) { VF_CHECK(b[l+1+i]==hx[(n.Net>>(12-4*i))&15],"out: net in hexadecimal"); VF_CHECK(b[l+5+i]==hx[(n.Node>>(12-4*i))&15],"out: node in hexadecimal"); }
   if(n.Point)
   {
      const char *p=".pnt/0000";
      for(i=0;i<9;i++) VF_CHECK(b[l+9+i]==p[i],"out: points in the directory of their node");
      for(i=0;i<4;i++) VF_CHECK(b[l+18+i]==hx[(n.Point>>(12-4*i))&15],"out: point in hexadecimal");
      VF_CHECK(b[l+22]==0,"out: name ends");
      VF_REACH("point");
   }
   else VF_CHECK(b[l+9]==0,"out: name ends");
   VF_CHECK(nmk==!(vf_in.there&1)+(n.Point ? !(vf_in.there&2) : 0),"out: missing directories are made");
   if(!(vf_in.there&1)) { VF_CHECK(strcmp(mk[0],C[c].exp)==0,"out: this directory is made"); VF_REACH("made"); }
   VF_REACH("end");
}
