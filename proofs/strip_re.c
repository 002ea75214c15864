// @props: P12 P11
// @functions: StripRe
// @level: bounded
// @bound: subjects of up to 8 characters with any characters and any leftovers behind them
// @unwind: 8
// @lunwind: 12
// @hunwind: 20
// @desc: stripping removes exactly the leading reply marks and never looks behind the end of the subject
#include <crashmail/crashmail.h>
struct vf_input { char s[16]; uint8_t len; };
#include "vf.h"
char *StripRe(char *str);
static int low(char c) { return c>='A' && c<='Z' ? c+32 : c; }
static char s[16];
void vf_harness(void)
{
   int p=0,i; char *r; int len;
   VF_INPUT();
   VF_ASSUME(vf_in.len<=8); len=vf_in.len;
   for(i=0;i<16;i++) { s[i]=vf_in.s[i]; if(i<len) VF_ASSUME(s[i]!=0); }
   s[len]=0;
   for(i=0;i<5;i++)
   {
      if(len-p>=3 && low(s[p])=='r' && low(s[p+1])=='e' && s[p+2]==':') { p+=3; if(s[p]==' ') p++; }
      else if(len-p>=5 && low(s[p])=='r' && low(s[p+1])=='e' && s[p+2]=='^' && s[p+4]==':') { p+=5; if(s[p]==' ') p++; }
      else if(len-p>=6 && low(s[p])=='r' && low(s[p+1])=='e' && s[p+2]=='[' && s[p+4]==']' && s[p+5]==':') { p+=6; if(s[p]==' ') p++; }
      else break;
   }
   r=StripRe(s);
   VF_CHECK(r==s+p,"re: exactly the leading reply marks are removed");
   for(i=0;i<16;i++) if(i!=len) VF_CHECK(s[i]==vf_in.s[i],"re: subject unchanged");
   VF_REACH("done");
}
