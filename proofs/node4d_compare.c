// @props: P02
// @enforce: Compare4D
// @unwind: 2
// @desc: Compare4D orders addresses by zone (when both are known), net, node, point
#include <stdint.h>
#include <shared/node4d.h>
struct vf_input { struct Node4D a,b,c; };
#include "vf.h"
#include "spec_node.h"

int Compare4D(struct Node4D *node1,struct Node4D *node2)
VF_REQUIRES(__CPROVER_r_ok(node1,sizeof(*node1)) && __CPROVER_r_ok(node2,sizeof(*node2)))
VF_ENSURES(spec_cmp4d(node1,node2)==VF_RET)
VF_ASSIGNS();

void vf_harness(void)
{
   VF_INPUT();
   struct Node4D a=vf_in.a,b=vf_in.b;
   int r=Compare4D(&a,&b);
   VF_CHECK(r==spec_cmp4d(&vf_in.a,&vf_in.b),"Compare4D: result is the sign of the first differing part");
   VF_REACH("end");
}
