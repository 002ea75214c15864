// @props: P11
// @functions: AddArea AddTossNode MakeDirectory MatchFlags
// @level: bounded
// @bound: three configured nodes with one-letter groups, two own addresses, one group default area and one general default area with one linked node each
// @unwind: 20
// @hunwind: 40
// @lunwind: 90
// @parts: 0 1 2 3 4
// @flags: --max-field-sensitivity-array-size 420
// @desc: a new area gets the settings of its default area, is linked to the sender as feed and to all nodes that are to get new areas of the group, each once and read-only where configured
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D n[3],aka[2],node,my; char dg[3],ag[3],rg[3]; char dfl[2],db; uint16_t dtf[2]; uint32_t keep[2][2]; uint8_t active,pass,oom; };
#include "vf.h"
#define HASG (VF_PART!=0 && VF_PART!=2)      /* DEFAULT_x area there */
#define HASD (VF_PART<2 || VF_PART==4)      /* DEFAULT area there */
struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru);
extern time_t lastt;
static struct Area na,dg,dd; static struct Aka k0,k1; static struct ConfigNode c0,c1,c2; static struct TossNode x0,x1,x2,x3,x4,dt0,dt1; static struct Messagebase mb0,mb1; static int nx;
time_t time(time_t *t) { return 0x12; }
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
void *osAllocCleared(uint32_t n)
{
   if(n==sizeof(struct Area)) { if(vf_in.oom==1) return NULL; return &na; }
   VF_CHECK(n==sizeof(struct TossNode) && nx<5,"add: allocation");
   nx++; return nx==1 ? &x0 : nx==2 ? &x1 : nx==3 ? &x2 : nx==4 ? &x3 : &x4;
}
static int eq4(struct Node4D *a,struct Node4D *b) { return (a->Zone==b->Zone || !a->Zone || !b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static struct ConfigNode *cn(int i) { return i==0 ? &c0 : i==1 ? &c1 : &c2; }
void vf_harness(void)
{
   struct Area *r,*def; int i,sender=-1,cnt[3]={0,0,0}; uint16_t fl[3]={0,0,0}; struct TossNode *t; char group; char expfl; int total=0;
   VF_INPUT();
#if VF_PART == 1 || VF_PART == 4
   { struct Node4D a={1,2,3,4},b={2,2,3,4},c={1,2,3,5}; vf_in.n[0]=b; vf_in.n[1]=a; vf_in.n[2]=c; vf_in.node=a; vf_in.dg[1]=VF_PART==1 ? 'B' : 'C'; }
#endif
   config.AkaList.First=(struct jbNode *)&k0; k0.Next=&k1; k1.Next=NULL; k0.Node=vf_in.aka[0]; k1.Node=vf_in.aka[1];
   config.CNodeList.First=(struct jbNode *)&c0; c0.Next=&c1; c1.Next=&c2; c2.Next=NULL;
   for(i=0;i<3;i++) { cn(i)->Node=vf_in.n[i]; VF_ASSUME(vf_in.ag[i] && vf_in.rg[i]); cn(i)->DefaultGroup=vf_in.dg[i]; cn(i)->AddGroups[0]=vf_in.ag[i]; cn(i)->AddGroups[1]=0; cn(i)->ReadOnlyGroups[0]=vf_in.rg[i]; cn(i)->ReadOnlyGroups[1]=0; }
   VF_ASSUME(!eq4(&vf_in.n[0],&vf_in.n[1]) && !eq4(&vf_in.n[0],&vf_in.n[2]) && !eq4(&vf_in.n[1],&vf_in.n[2]));
   jbNewList(&config.AreaList); jbNewList(&config.ArealistList);
   strcpy(dg.Tagname,"Default_B"); strcpy(dd.Tagname,"DEFAULT"); strcpy(dg.Path,"p/%A"); strcpy(dd.Path,"q/%l/%8%x"); strcpy(dg.Description,"gd"); strcpy(dd.Description,"dd");
   dg.Messagebase=&mb0; dd.Messagebase=&mb1; dg.Flags=vf_in.dfl[0]; dd.Flags=vf_in.dfl[1]; dg.KeepDays=vf_in.keep[0][0]; dg.KeepNum=vf_in.keep[0][1]; dd.KeepDays=vf_in.keep[1][0]; dd.KeepNum=vf_in.keep[1][1];
   dg.TossNodes.First=(struct jbNode *)&dt0; dt0.ConfigNode=&c1; dt0.Flags=vf_in.dtf[0]; dd.TossNodes.First=(struct jbNode *)&dt1; dt1.ConfigNode=&c2; dt1.Flags=vf_in.dtf[1];
   if(HASD) jbAddNode(&config.AreaList,(struct jbNode *)&dd);
   if(HASG) jbAddNode(&config.AreaList,(struct jbNode *)&dg);
   for(i=0;i<3;i++) if(sender<0 && eq4(&vf_in.node,&vf_in.n[i])) sender=i;
   group=sender>=0 ? vf_in.dg[sender] : 0;
   r=AddArea("Ab.x",&vf_in.node,&vf_in.my,vf_in.active&1,vf_in.pass&1);
   if(vf_in.oom==1) { VF_CHECK(r==NULL && nomem,"add: out of memory is reported"); return; }
   VF_CHECK(r==&na && (void *)config.AreaList.Last==(void *)&na,"add: area configured");
   VF_CHECK(strcmp(na.Tagname,"Ab.x")==0 && na.AreaType==AREATYPE_ECHOMAIL && config.changed && na.changed,"add: tag kept, configuration to be saved");
   VF_CHECK(na.Aka==(eq4(&vf_in.aka[0],&vf_in.my) ? &k0 : eq4(&vf_in.aka[1],&vf_in.my) ? &k1 : &k0),"add: own address the mail was sent to, or the first one");
   def=HASG && sender>=0 && group=='B' ? &dg : HASD ? &dd : NULL;
   expfl=def ? (def==&dg ? vf_in.dfl[0] : vf_in.dfl[1]) & (AREA_MANDATORY|AREA_DEFREADONLY|AREA_IGNOREDUPES|AREA_IGNORESEENBY) : 0;
   VF_CHECK(na.Flags==((vf_in.active&1) ? expfl : AREA_UNCONFIRMED),"add: settings of the default area, unconfirmed unless allowed");
   VF_CHECK(strcmp(na.Path,def==&dg ? "p/Ab_x" : def==&dd ? "q/ab_x/00000012%x" : "")==0,"add: directory from the template, safe characters only");
   VF_CHECK(na.Messagebase==(def && !(vf_in.pass&1) ? def->Messagebase : NULL),"add: message base of the default area unless pass-through");
   VF_CHECK(na.KeepDays==(def ? def->KeepDays : 0) && na.KeepNum==(def ? def->KeepNum : 0),"add: limits of the default area");
   VF_CHECK(sender<0 || na.Group==group,"add: group of the sender");
   for(i=0,t=(struct TossNode *)na.TossNodes.First;i<6 && t;i++,t=t->Next) { int k=t->ConfigNode==&c0 ? 0 : t->ConfigNode==&c1 ? 1 : 2; VF_CHECK(t->ConfigNode!=NULL,"add: node"); cnt[k]++; fl[k]=t->Flags; total++; }
   VF_CHECK(t==NULL,"add: list ends");
   for(i=0;i<3;i++)
   {
      int frdef=def && ((def==&dg && i==1) || (def==&dd && i==2)), auto_=sender>=0 && vf_in.ag[i]==group, in=frdef || i==sender || auto_; uint16_t want;
      VF_CHECK(cnt[i]==in,"add: exactly the sender, the default nodes and the nodes for the group are linked, once each");
      want=frdef ? (def==&dg ? vf_in.dtf[0] : vf_in.dtf[1]) : i==sender ? TOSSNODE_FEED : ((na.Flags & AREA_DEFREADONLY) || vf_in.rg[i]==group) ? TOSSNODE_READONLY : 0;
      if(in) VF_CHECK(fl[i]==want,"add: feed and read-only marks");
   }
   VF_REACH("added");
}
