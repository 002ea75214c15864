// @props: P01
// @functions: Print4D
// @unwind: 26
// @desc: the printed form of every address is the canonical text and fits 24 bytes
#include <stdint.h>
#include <string.h>
#include <shared/node4d.h>
struct vf_input { struct Node4D a; };
#include "vf.h"
#include "spec_node.h"

void vf_harness(void)
{
   VF_INPUT();
   struct Node4D a=vf_in.a;
   char buf[24],want[24];          /* 65535:65535/65535.65535 and the terminator */
   Print4D(&a,buf);
   spec_print4d(&vf_in.a,want);
   VF_CHECK(spec_same4d(&a,&vf_in.a),"Print4D: address unchanged");
   VF_CHECK(strcmp(buf,want)==0,"Print4D: canonical zone:net/node[.point] text");
   VF_REACH("end");
   if(a.Point) VF_REACH("point");
}
