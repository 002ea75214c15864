// @props: P09
// @functions: mmAddLine ProcessKludge mmAddPath
// @level: bounded
// @bound: control lines with values of 0, 1, 4, 6, 10 and 82 characters, all byte values
// @parts: 100 101 110 182 200 210 282 300 304 400 406 500 506 704
// @unwind: 84
// @hunwind: 100
// @lunwind: 102
// @flags: --max-field-sensitivity-array-size 1100
// @desc: a control line sets exactly the message field it names, from exactly its text, and reading never leaves the line
#include <crashmail/crashmail.h>
#define N (LEN>10 ? LEN : 10)
#define KIND (VF_PART/100)
#define LEN (VF_PART%100)
struct vf_input { char v[N]; uint8_t echo; uint16_t flags; uint8_t q; };
#include "vf.h"
static struct MemMessage m;
#define LS (LEN+22)
static char line[LS];
static struct Path pth;
void *osAlloc(uint32_t size) { VF_CHECK(size==sizeof(pth),"PATH: one block allocated"); return &pth; }
static char got[128]; static uint32_t gotlen,adds;
bool mmAddBuf(struct jbList *l,char *b,uint32_t n)
{
   uint32_t i;
   VF_CHECK(l==&m.TextChunks,"control lines: kept with the message text");
   gotlen=n; adds++; for(i=0;i<n && i<120;i++) got[i]=b[i];
   return TRUE;
}
void vf_harness(void)
{
   VF_INPUT();
   static const char *pre[]={"","\x01MSGID:","\x01REPLY:","\x01RESCANNED","\x01" "FMPT","\x01TOPT","\x01PATH:","\x01XYZ:"};
   const char *p=pre[KIND]; uint32_t pl=0,i,n,vs; char *s; struct Path *pa;
   while(p[pl]) pl++;
   n=LEN;
   for(i=0;i<N;i++) VF_ASSUME(i>=n || vf_in.v[i]!=0);
   /* the line lies at the end of its buffer: reading further is an out of bounds access */
   s=&line[LS-1-n-pl];
   for(i=0;i<pl;i++) s[i]=p[i];
   for(i=0;i<n;i++) s[pl+i]=vf_in.v[i];
   s[pl+n]=0;
   m.Area[0]=vf_in.echo&1 ? 'A' : 0;
   m.Flags=vf_in.flags;
   jbNewList(&m.TextChunks); jbNewList(&m.SeenBy); jbNewList(&m.Path);
   VF_CHECK(mmAddLine(&m,s),"control lines: accepted");

   /* the value: what follows the name and one separator, up to the end of the line */
   uint32_t vl=0; vs=n ? 1 : 0;
   while(vs+vl<n && vf_in.v[vs+vl]!=13) vl++;
   if(KIND==1 || KIND==2)
   {
      char *f=KIND==1 ? m.MSGID : m.REPLY, *o=KIND==1 ? m.REPLY : m.MSGID;
      if(vl>79) vl=79;
      for(i=0;i<N;i++) if(i<vl) VF_CHECK(f[i]==vf_in.v[vs+i],"MSGID/REPLY: taken from the line");
      VF_CHECK(f[vl]==0,"MSGID/REPLY: ends with the line");
      VF_CHECK(o[0]==0,"MSGID/REPLY: only the named field is set");
   }
   else VF_CHECK(m.MSGID[0]==0 && m.REPLY[0]==0,"control lines: MSGID and REPLY unchanged");
   VF_CHECK(m.Flags==(vf_in.flags | (KIND==3 ? MMFLAG_RESCANNED : 0)),"RESCANNED: marks the message as rescanned, nothing else does");
   if(KIND==4 || KIND==5)
   {
      uint16_t v=0; i=vs; uint8_t neg=0;
      while(i<n && (vf_in.v[i]==32 || (vf_in.v[i]>=9 && vf_in.v[i]<=13))) i++;
      if(i<n && (vf_in.v[i]=='-' || vf_in.v[i]=='+')) { neg=vf_in.v[i]=='-'; i++; }
            while(i<n && vf_in.v[i]>='0' && vf_in.v[i]<='9') { v=v*10+(vf_in.v[i]-'0'); i++; }
      if(neg) v=-v;
      if(vf_in.echo&1) v=0; /* points of echomail come from the origin line */
      VF_CHECK(m.OrigNode.Point==(KIND==4 ? v : 0) && m.DestNode.Point==(KIND==5 ? v : 0),"FMPT/TOPT: point of the sender/recipient of a netmail");
   }
   else VF_CHECK(m.OrigNode.Point==0 && m.DestNode.Point==0,"control lines: points unchanged");
   VF_CHECK(m.OrigNode.Zone==0 && m.OrigNode.Net==0 && m.OrigNode.Node==0 && m.DestNode.Zone==0 && m.DestNode.Net==0 && m.DestNode.Node==0,"control lines: addresses unchanged");
   if(KIND==6 && (vf_in.echo&1))
   {
      VF_CHECK(adds==0,"PATH: not part of the text");
      pa=(struct Path *)m.Path.First;
      if(n<=1) { VF_CHECK(pa==NULL,"PATH: an empty line adds nothing"); return; }
      VF_CHECK(pa!=NULL && pa->Paths==1,"PATH: one entry for the line");
      vl=n-1; while(vl>0 && (unsigned char)vf_in.v[vl]<33) vl--;
      for(i=0;i<N;i++) if(i<vl) VF_CHECK(pa->Path[0][i]==vf_in.v[1+i],"PATH: the line's text");
      VF_CHECK(pa->Path[0][vl]==0,"PATH: trailing blanks removed");
   }
   else
   {
      VF_CHECK(m.Path.First==NULL && m.SeenBy.First==NULL,"control lines: PATH and SEEN-BY unchanged");
      VF_CHECK(adds==1 && gotlen==pl+n,"control lines: kept in the text as received");
      VF_ASSUME(vf_in.q<pl+n);
      VF_CHECK(got[vf_in.q]==s[vf_in.q],"control lines: kept in the text as received");
   }
   VF_REACH("end");
}
