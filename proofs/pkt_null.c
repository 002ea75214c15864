// @props: P07
// @functions: ReadNull ReadCR
// @level: bounded
// @bound: files of up to 7 bytes, buffers of 3 and 5 bytes
// @unwind: 10
// @hunwind: 10
// @parts: 3 5
// @flags: --max-field-sensitivity-array-size 64
// @desc: header strings and text lines are read exactly up to their end, never beyond the buffer, and a missing end or an over-long string is noticed
#include <crashmail/crashmail.h>
struct vf_input { unsigned char d[7]; uint8_t size; uint8_t cr; };
#include "vf.h"
#define VF_FS_FILES 1
#define VF_FS_CAP 7
#define VF_FS_NOPRINTF
#include "fs_model.h"
extern bool messageend,shortread,longread;
uint32_t ReadNull(char *buf,uint32_t maxlen,osFile fh); uint32_t ReadCR(char *buf,uint32_t maxlen,osFile fh);
static char b[VF_PART];
void vf_harness(void)
{
   VF_INPUT();
   int i,n,size,ok=1; uint32_t r;
   VF_ASSUME(vf_in.size<=7); size=vf_in.size;
   for(i=0;i<7;i++) vf_fs[0].data[i]=vf_in.d[i];
   vf_fs[0].size=size; vf_fh[0].f=0; vf_fh[0].open=1;
   messageend=shortread=longread=FALSE;
   if(!(vf_in.cr&1))
   {
      r=ReadNull(b,VF_PART,VF_H(0));
      for(n=0;n<VF_PART-1 && n<size && vf_in.d[n];n++) if((unsigned char)b[n]!=vf_in.d[n]) ok=0;
      VF_CHECK(ok && b[n]==0 && r==n,"string: its characters, terminated");
      VF_CHECK(!shortread==!(n==size),"string: a missing end is noticed");
      VF_CHECK(!longread==!(n==VF_PART-1 && (n==size || vf_in.d[n]!=0)),"string: an over-long string is noticed");
      VF_CHECK(n==size || n==VF_PART-1 || vf_fh[0].pos==n+1,"string: the file stands right behind it");
   }
   else
   {
      int nl;
      r=ReadCR(b,VF_PART,VF_H(0));
      for(n=0;n<VF_PART-2 && n<size && vf_in.d[n] && vf_in.d[n]!=10 && vf_in.d[n]!=13;n++) if((unsigned char)b[n]!=vf_in.d[n]) ok=0;
      nl=n<VF_PART-2 && n<size && vf_in.d[n];
      VF_CHECK(ok && (!nl || (unsigned char)b[n]==vf_in.d[n]) && b[n+nl]==0 && r==n+nl,"line: its characters with the end of line, terminated");
      VF_CHECK(!messageend==!(n<VF_PART-2 && n<size && !vf_in.d[n]),"line: the end of the message is noticed");
      VF_CHECK(!shortread==!(n<VF_PART-2 && n==size),"line: a missing end is noticed");
      VF_CHECK(vf_fh[0].pos==(n==VF_PART-2 || n==size ? n : n+1),"line: the file stands right behind it");
   }
   VF_REACH("end");
}
