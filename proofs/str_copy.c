// @props: P06
// @functions: mystrncpy jbstrcpy jbstrcpyrest
// @level: bounded
// @bound: source lines of up to 8 characters, buffers of 1..6 bytes (quick) / 11 characters, 1..9 bytes (thorough); all byte values
// @defs: -DN=8 -DM=6
// @parts: 0 1 2
// @unwind: 11
// @thorough_defs: -UN -UM -DN=11 -DM=9
// @thorough_unwind: 14
// @desc: bounded copies never leave the buffer, always terminate and deliver the documented text; word parsing obeys quotes and backslashes
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <shared/types.h>
#include <shared/mystrncpy.h>
#include <shared/jbstrcpy.h>
struct vf_input { char s[N+1]; uint32_t len,start; unsigned char slen; };
#include "vf.h"
void vf_harness(void)
{
   VF_INPUT();
   uint32_t len=vf_in.len,i,n=vf_in.slen;
   VF_ASSUME(len>=1 && len<=M && n<=N);
   static char sb[N+1],db[M]; char *src=sb+(N-n),*dst=db+(M-len);   /* both end where their object ends */
   for(i=0;i<n;i++) { VF_ASSUME(vf_in.s[i]!=0); src[i]=vf_in.s[i]; }
   src[n]=0;
#if VF_PART==0
   mystrncpy(dst,src,len);
   for(i=0;i<len-1 && i<n;i++) VF_CHECK(dst[i]==vf_in.s[i],"mystrncpy: longest prefix that fits");
   VF_CHECK(dst[i]==0,"mystrncpy: terminated");
#else
   uint32_t pos=vf_in.start; VF_ASSUME(pos<=n);
   uint32_t p=pos,d=0; int r,quoted=0; char want[N+1];
   while(p<n && (src[p]==32 || src[p]==9)) p++;
 #if VF_PART==1
   r=jbstrcpy(dst,src,len,&pos);
   if(p<n && src[p]=='"') { quoted=1; p++; }
   while(p<n && src[p]!=10 && (quoted ? src[p]!='"' : src[p]!=32 && src[p]!=9))
   {
      if(src[p]=='\\' && p+1<n && src[p+1]!=10) p++;
      want[d++]=src[p++];
   }
   if(p<n && (src[p]==9 || src[p]==32 || src[p]=='"')) p++;
   VF_CHECK(!!r==(quoted || (d>0 && len>1)),"jbstrcpy: tells whether there was a word");
 #else
   r=jbstrcpyrest(dst,src,len,&pos);
   while(p<n && src[p]!=10) want[d++]=src[p++];
   VF_CHECK(!!r==(d>0 && len>1),"jbstrcpyrest: tells whether there was text");
 #endif
   for(i=0;i<len-1 && i<d;i++) VF_CHECK(dst[i]==want[i],"word parsing: exactly the characters of the word that fit");
   VF_CHECK(dst[i]==0,"word parsing: terminated");
   VF_CHECK(pos==p,"word parsing: position moves past the word");
   VF_CHECK(pos<=n,"word parsing: position stays in the line");
   if(d>2 && len>4) VF_REACH("word");
#endif
   VF_REACH("end");
}
