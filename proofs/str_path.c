// @props: P06
// @functions: MakeFullPath GetFilePart
// @level: bounded
// @bound: paths and names of up to 6 characters, buffers of 1..14 bytes; all byte values
// @defs: -DN=6 -DM=14
// @unwind: 16
// @desc: path joining never leaves the buffer and inserts exactly the separator needed; the file part is what follows the last separator
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <shared/types.h>
#include <shared/path.h>
struct vf_input { char p[N+1],f[N+1]; uint32_t size; unsigned char pl,fl; };
#include "vf.h"
void vf_harness(void)
{
   VF_INPUT();
   uint32_t pl=vf_in.pl,fl=vf_in.fl,size=vf_in.size,i,k=0,last=0; char want[2*N+2],*d,*p,*f,*g;
   VF_ASSUME(pl<=N && fl<=N && size>=1 && size<=M);
   static char pb[N+1],fb[N+1],db[M]; p=pb+(N-pl); f=fb+(N-fl); d=db+(M-size);
   for(i=0;i<pl;i++) { VF_ASSUME(vf_in.p[i]!=0); p[i]=vf_in.p[i]; want[k++]=p[i]; }
   p[pl]=0;
   for(i=0;i<fl;i++) { VF_ASSUME(vf_in.f[i]!=0); f[i]=vf_in.f[i]; if(f[i]=='/') last=i+1; }
   f[fl]=0;
   if(pl && p[pl-1]!='/') want[k++]='/';
   for(i=0;i<fl;i++) want[k++]=f[i];
   MakeFullPath(p,f,d,size);
   int nul=0; for(i=0;i<size;i++) if(d[i]==0) nul=1;
   VF_CHECK(nul,"MakeFullPath: terminated inside the buffer");
   if(k+2<=size)
   {
      for(i=0;i<k;i++) VF_CHECK(d[i]==want[i],"MakeFullPath: directory, one separator, file name");
      VF_CHECK(d[k]==0,"MakeFullPath: nothing after the file name");
      VF_REACH("fits");
   }
   else VF_REACH("too long");
   g=GetFilePart(f);
   VF_CHECK(g==f+last,"GetFilePart: what follows the last separator");
   VF_REACH("end");
}
