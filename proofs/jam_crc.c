// @props: P14
// @functions: JAM_Crc32
// @level: bounded
// @bound: texts of up to 3 bytes (the loop body does the same for every byte)
// @target: jamlib
// @unwind: 10
// @lunwind: 12
// @desc: the checksum of names and message ids is the CRC-32 of the text in lower case, for all bytes
#include <jamlib/jam.h>
struct vf_input { unsigned char t[3]; uint8_t n; };
#include "vf.h"
static uint32_t step(uint32_t c,unsigned char b)
{ int k; if(b>='A' && b<='Z') b+=32; c^=b; for(k=0;k<8;k++) c=(c&1) ? (c>>1)^0xedb88320u : c>>1; return c; }
void vf_harness(void)
{
   VF_INPUT();
   uint32_t c=0xffffffffu; int i; char *t=(char *)vf_in.t;
   VF_ASSUME(vf_in.n<=3);
   for(i=0;i<3;i++) if(i<vf_in.n) c=step(c,vf_in.t[i]);
   VF_CHECK(JAM_Crc32(t,vf_in.n)==c,"JAM checksum: CRC-32 of the text in lower case");
   VF_REACH("end");
}
