// @props: P09
// @functions: mmAddLine ProcessKludge Parse4D Parse4DTemplate ExtractAddress Parse5D AddSeenby
// @level: bounded
// @bound: INTL lines, origin lines and SEEN-BY lines of the listed shapes, all digits
// @parts: 1 2 3 4 5 6
// @unwind: 28
// @hunwind: 40
// @lunwind: 102
// @flags: --max-field-sensitivity-array-size 128
// @desc: INTL, origin and SEEN-BY lines set exactly the addresses they name
#include <crashmail/crashmail.h>
struct vf_input { uint8_t d[16]; uint8_t echo; uint16_t z,q1,q2; };
#include "vf.h"
static struct MemMessage m;
static char line[64];
static uint32_t adds;
bool mmAddBuf(struct jbList *l,char *b,uint32_t n) { adds++; return TRUE; }
static uint16_t sn[8],so[8]; static uint32_t ns;
bool mmAddNodes2DList(struct jbList *l,uint16_t net,uint16_t node) { VF_CHECK(l==&m.SeenBy,"SEEN-BY: added to the list"); if(ns<8) { sn[ns]=net; so[ns]=node; ns++; } return TRUE; }
static const char *shape[]={ "",
   "\x01INTL #:##/# #:#/##\r",
   "\x01INTL: #:#/# #:#/#",
   "\x01INTL",
   " * Origin: x (#:##/#.#)\r",
   " * Origin: (a (F #:#/#@y)\r",
   " * Origin: (#/#)",
   "SEEN-BY: #/## # #/#\r",
   "SEEN-BY:",
   "SEEN-BY:#/# a ##" };
/* numbers the shape names, in order */
static uint16_t num[8]; 
void vf_harness(void)
{
   VF_INPUT();
   const char *p=shape[VF_PART]; uint32_t n=0,i,k=0,x=0; char *s; bool echo=VF_PART>3 ? 1 : vf_in.echo&1; int in=0;
   while(p[n]) n++;
   s=&line[64-1-n];
   for(i=0;i<n;i++)
   {
      if(p[i]=='#') { VF_ASSUME(vf_in.d[k]<10); s[i]='0'+vf_in.d[k]; num[x]=num[x]*10+vf_in.d[k]; k++; in=1; }
      else { s[i]=p[i]; if(in) x++; in=0; }
   }
   s[n]=0;
   m.Area[0]=echo ? 'A' : 0;
   m.PktOrig.Zone=vf_in.z;
   jbNewList(&m.TextChunks); jbNewList(&m.SeenBy); jbNewList(&m.Path);
   VF_CHECK(mmAddLine(&m,s),"address lines: accepted");
   uint16_t dz=0,dn=0,dd=0,oz=0,on=0,oo=0, gz=0,gn=0,go=0,gp=0;
   if(VF_PART<=2 && !echo) { dz=num[0]; dn=num[1]; dd=num[2]; oz=num[3]; on=num[4]; oo=num[5]; }
   if(VF_PART==4) { gz=num[0] ? num[0] : vf_in.z; gn=num[1]; go=num[2]; gp=num[3]; }
   if(VF_PART==5) { gz=num[0] ? num[0] : vf_in.z; gn=num[1]; go=num[2]; }
   if(VF_PART==6) { gz=vf_in.z; gn=num[0]; go=num[1]; }
   if(VF_PART!=3) VF_CHECK(m.DestNode.Zone==dz && m.DestNode.Net==dn && m.DestNode.Node==dd && m.DestNode.Point==0,"INTL: the first address is the recipient of a netmail, echomail ignores it");
   if(VF_PART!=3) VF_CHECK(m.OrigNode.Zone==oz && m.OrigNode.Net==on && m.OrigNode.Node==oo && m.OrigNode.Point==0,"INTL: the second address is the sender of a netmail, echomail ignores it");
   VF_CHECK(m.Origin4D.Zone==gz && m.Origin4D.Net==gn && m.Origin4D.Node==go && m.Origin4D.Point==gp,"origin line: the address in its last parentheses, zone from the packet if it names none");
   if(VF_PART==7) VF_CHECK(ns==3 && sn[0]==num[0] && so[0]==num[1] && sn[1]==num[0] && so[1]==num[2] && sn[2]==num[3] && so[2]==num[4],"SEEN-BY: every node named, net carried over");
   else if(VF_PART==9) VF_CHECK(ns==2 && sn[0]==num[0] && so[0]==num[1] && sn[1]==num[0] && so[1]==num[2],"SEEN-BY: every node named, net carried over, other words skipped");
   else VF_CHECK(ns==0,"SEEN-BY: no node named, none added");
   VF_CHECK(adds==(VF_PART<7 ? 1 : 0),"SEEN-BY lines leave the text, other lines stay");
   VF_REACH("end");
}
