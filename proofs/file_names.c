// @props: P15 P16
// @functions: IsArc IsPkt IsNewPkt IsPktTmp IsOrphan IsBad
// @level: bounded
// @bound: names of up to 20 characters, all byte values
// @defs: -DN=20
// @unwind: 24
// @desc: bundles, packets, packets to be sent, kept packets, order files and bad files are told apart by exactly the documented names
#include <crashmail/crashmail.h>
struct vf_input { char s[N]; uint8_t len; };
#include "vf.h"
static int low(int c) { return c>='A' && c<='Z' ? c+32 : c; }
static int alnum(char c) { return (c>='0' && c<='9') || (low(c)>='a' && low(c)<='z'); }
static int ends(const char *s,int l,const char *e,int n) { int i; if(l<n) return 0; for(i=0;i<n;i++) if(low(s[l-n+i])!=e[i]) return 0; return 1; }
void vf_harness(void)
{
   char s[N+1]; int i,l=0,arc,pkt; static const char days[]="motuwethfrsasu";
   VF_INPUT();
   for(i=0;i<N;i++) s[i]=vf_in.s[i];
   s[N]=0; while(l<N && s[l]) l++;
   pkt=l==12 && s[8]=='.' && ends(s,l,"pkt",3);
   arc=0;
   if(l==12 && s[8]=='.')
   {
      for(i=0;i<7;i++) if(low(s[9])==days[2*i] && low(s[10])==days[2*i+1]) arc=1;
      for(i=0;i<8;i++) if(!alnum(s[i])) arc=0;
   }
   VF_CHECK(!IsArc(s)==!arc,"names: a bundle has eight letters or digits, a weekday and one more character");
   VF_CHECK(!IsPkt(s)==!pkt,"names: a packet has eight characters and .pkt");
   VF_CHECK(!IsNewPkt(s)==!ends(s,l,".newpkt",7),"names: packets to be sent");
   VF_CHECK(!IsPktTmp(s)==!ends(s,l,".pkttmp",7),"names: packets kept for a later try");
   VF_CHECK(!IsOrphan(s)==!ends(s,l,".orphan",7),"names: order files");
   VF_CHECK(!IsBad(s)==!(l>4 && ends(s,l,".bad",4)),"names: bad files");
   if(arc) VF_REACH("bundle");
   if(pkt) VF_REACH("packet");
   VF_REACH("end");
}
