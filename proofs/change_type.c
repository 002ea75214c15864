// @props: P12
// @functions: ChangeType
// @level: bounded
// @bound: three CHANGE rules, any flags
// @unwind: 5
// @hunwind: 5
// @desc: the flavour of mail changes to that of the last matching rule naming its flavour, and stays otherwise
#include <crashmail/crashmail.h>
struct vf_input { uint8_t m[3],n[3],c[3],d[3],h[3]; char p[3]; char pri; };
#include "vf.h"
static struct Change c0,c1,c2; static struct Node4D dest;
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { VF_CHECK(n==&dest,"change: rules look at the destination"); return !((p==&c0.Pattern ? vf_in.m[0] : p==&c1.Pattern ? vf_in.m[1] : vf_in.m[2])&1); }
static void set(struct Change *c,int i) { c->ChangeNormal=vf_in.n[i]&1; c->ChangeCrash=vf_in.c[i]&1; c->ChangeDirect=vf_in.d[i]&1; c->ChangeHold=vf_in.h[i]&1; c->DestPri=vf_in.p[i]; }
void vf_harness(void)
{
   char r,w; int i;
   VF_INPUT();
   VF_ASSUME(vf_in.pri>=0 && vf_in.pri<=PKTS_CRASH);
   for(i=0;i<3;i++) VF_ASSUME(vf_in.p[i]>=PKTS_HOLD && vf_in.p[i]<=PKTS_CRASH);
   set(&c0,0); set(&c1,1); set(&c2,2); c0.Next=&c1; c1.Next=&c2; c2.Next=NULL; config.ChangeList.First=(struct jbNode *)&c0;
   w=vf_in.pri;
   for(i=0;i<3;i++) if(vf_in.m[i]&1)
   {
      int names=(vf_in.pri==PKTS_ECHOMAIL || vf_in.pri==PKTS_NORMAL) ? vf_in.n[i]&1 : vf_in.pri==PKTS_CRASH ? vf_in.c[i]&1 : vf_in.pri==PKTS_DIRECT ? vf_in.d[i]&1 : vf_in.h[i]&1;
      if(names) w=(vf_in.pri==PKTS_ECHOMAIL && vf_in.p[i]==PKTS_NORMAL) ? PKTS_ECHOMAIL : vf_in.p[i];
   }
   r=ChangeType(&dest,vf_in.pri);
   VF_CHECK(r==w,"change: flavour of the last matching rule");
   VF_REACH("done");
}
