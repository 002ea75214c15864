// @props: P13
// @functions: calcstringcrc
// @level: bounded
// @bound: texts of up to 3 bytes (the loop body does the same for every byte)
// @unwind: 6
// @hunwind: 10
// @flags: --max-field-sensitivity-array-size 16
// @desc: the checksum of an MSGID reads nothing but the text and its table, for 8-bit texts too
#include <crashmail/crashmail.h>
struct vf_input { char t[3]; };
#include "vf.h"
static char b[4];
void vf_harness(void)
{
   VF_INPUT(); int i;
   for(i=0;i<3;i++) b[i]=vf_in.t[i];
   b[3]=0;
   calcstringcrc(b);
   VF_REACH("end");
}
