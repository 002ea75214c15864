// @props: P11
// @functions: HandleRescan
// @level: bounded
// @bound: two areas; any addresses, settings and outcomes
// @unwind: 6
// @hunwind: 6
// @lunwind: 8
// @desc: a rescanned message goes once to the node that asked and to nobody else, with both systems in SEEN-BY
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D aka,node; uint32_t cfg; uint8_t af1,af2,pf,sf,wf; uint16_t pn,pd; };
#include "vf.h"
bool HandleRescan(struct MemMessage *mm);
static struct MemMessage m; static struct Area a0,a1; static struct Aka k0,k1; static struct ConfigNode c; static int member,pathed,sorted,written,failed;
bool mmAddNodes2DList(struct jbList *l,uint16_t net,uint16_t node) { VF_CHECK(l==&m.SeenBy,"rescan: SEEN-BY"); if(net==vf_in.pn && node==vf_in.pd) member=1; if(vf_in.af1&1) { failed=1; return FALSE; } return TRUE; }
bool AddNodePath(struct jbList *l,struct Node4D *n) { VF_CHECK(l==&m.Path && n==&k1.Node,"rescan: path"); pathed++; if(vf_in.pf&1) { failed=1; return FALSE; } return TRUE; }
bool mmSortNodes2D(struct jbList *l) { sorted++; if(vf_in.sf&1) { failed=1; return FALSE; } return TRUE; }
bool WriteEchoMail(struct MemMessage *x,struct ConfigNode *n,struct Aka *k) { VF_CHECK(x==&m && n==&c && k==&k1,"rescan: only the node that asked gets it"); VF_CHECK(sorted==1 && member==((vf_in.aka.Point==0 && vf_in.aka.Net==vf_in.pn && vf_in.aka.Node==vf_in.pd) || (vf_in.node.Point==0 && vf_in.node.Net==vf_in.pn && vf_in.node.Node==vf_in.pd)),"rescan: both systems in SEEN-BY"); written++; if(vf_in.wf&1) { failed=1; return FALSE; } return TRUE; }
void vf_harness(void)
{
   bool res;
   VF_INPUT();
   strcpy(a0.Tagname,"ab"); strcpy(a1.Tagname,"AC"); strcpy(m.Area,"ac"); a0.Next=&a1; a1.Next=NULL; a0.Aka=&k0; a1.Aka=&k1; k1.Node=vf_in.aka; c.Node=vf_in.node; RescanNode=&c; config.AreaList.First=(struct jbNode *)&a0; config.cfg_Flags=vf_in.cfg;
   res=HandleRescan(&m);
   VF_CHECK(res==!failed,"rescan: failures are reported");
   if(res) { VF_CHECK(written==1 && pathed==(vf_in.aka.Point==0 || (vf_in.cfg & CFG_PATH3D)!=0),"rescan: sent once with the own address in the path"); VF_REACH("sent"); }
}
