// @props: P08
// @functions: WriteNetMail WriteEchoMail CreatePkt FindPkt WriteMsgHeader WritePath WriteSeenBy WriteNull pktWrite putuword
// @level: bounded
// @bound: messages with short texts in two blocks and two PATH lines; all addresses, attributes, node settings and passwords
// @unwind: 46
// @hunwind: 62
// @lunwind: 102
// @parts: 1 2 5
// @flags: --max-field-sensitivity-array-size 420
// @assume: SEEN-BY text of a list is that of P10 (stubbed here); time and localtime answer anything
// @desc: the packet written for a message is a type 2+ packet from and to the right nodes with the node's password and the message exactly as it is in memory
#include <crashmail/crashmail.h>
struct vf_input { struct Node4D cn,aka,from,mo,md; char pw[9]; uint16_t nflags,attr,cost; uint8_t type; char tx[4]; uint8_t failat; int tmv[6]; };
#include "vf.h"
#define VF_FS_FILES 2
#define VF_FS_CAP 200
#define VF_FS_NOPRINTF
#include <time.h>
static struct tm tmb;
#include "fs_model.h"
struct Pkt { struct Pkt *Next; osFile fh; uint32_t hexnum,Len; uint16_t Type; struct Node4D Dest,Orig; };
static struct MemMessage m; static struct TextChunk c1,c2; static struct Path pa; static struct ConfigNode cn; static struct Aka aka;
static struct Pkt pk[2]; static int npk; static struct Nodes2D tiny; static int tn; static uint16_t tnet[3],tnode[3]; static int sorted_full,sorted_tiny,freed;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
time_t time(time_t *t) { if(t) *t=1000; return 1000; }
struct tm *localtime(const time_t *t) { return &tmb; }
void *osAllocCleared(uint32_t n) { VF_CHECK(n==sizeof(struct Pkt) && npk<2,"pkt: allocation"); return &pk[npk++]; }
void *osAlloc(uint32_t n) { VF_CHECK(n==sizeof(struct Nodes2D),"pkt: allocation"); return &tiny; }
void osFree(void *p) { freed++; }
bool mmAddNodes2DList(struct jbList *l,uint16_t net,uint16_t node) { VF_CHECK(l!=&m.SeenBy && tn<3,"pkt: the SEEN-BY list of the message is not changed"); tnet[tn]=net; tnode[tn++]=node; return TRUE; }
bool mmSortNodes2D(struct jbList *l) { if(l==&m.SeenBy) sorted_full++; else sorted_tiny++; return TRUE; }
static char sb1[]="SEEN-BY: 1/1\r",sb2[]="SEEN-BY: 2/2\r";
char *mmMakeSeenByBuf(struct jbList *l) { if(l==&m.SeenBy) { VF_CHECK(sorted_full,"pkt: SEEN-BY sorted before it is written"); return sb1; } VF_CHECK(sorted_tiny,"pkt: SEEN-BY sorted before it is written"); return sb2; }
static struct vf_file *F; static uint32_t at;
static int w(int o) { return F->data[o]|F->data[o+1]<<8; }
static void is(const char *s,int n) { int i,ok=1; for(i=0;i<n;i++) if((char)F->data[at+i]!=s[i]) ok=0; VF_CHECK(ok,"pkt: message texts as they are in memory"); at+=n; }
static void head(struct Node4D *o,struct Node4D *d,int pw)
{
   int i,ok=1;
   VF_CHECK(w(18)==2 && w(16)==0,"pkt header: type 2");
   VF_CHECK(w(0)==o->Node && w(20)==o->Net && w(34)==o->Zone && w(46)==o->Zone && w(50)==o->Point,"pkt header: sender");
   VF_CHECK(w(2)==d->Node && w(22)==d->Net && w(36)==d->Zone && w(48)==d->Zone && w(52)==d->Point,"pkt header: recipient");
   VF_CHECK(F->data[40]==F->data[45] && F->data[41]==F->data[44] && (w(44)&1),"pkt header: type 2+ with points");
   VF_CHECK(w(4)==(uint16_t)(tmb.tm_year+1900) && w(6)==(uint16_t)tmb.tm_mon && w(8)==(uint16_t)tmb.tm_mday && w(10)==(uint16_t)tmb.tm_hour && w(12)==(uint16_t)tmb.tm_min && w(14)==(uint16_t)tmb.tm_sec,"pkt header: date and time");
   for(i=0;i<8;i++) { char c=pw ? cn.PacketPW[i] : 0; if((char)F->data[26+i]!=c) ok=0; if(!c) pw=0; }
   VF_CHECK(ok,"pkt header: password of the node, padded with zeros");
}
static void msg(struct Node4D *o,struct Node4D *d)
{
   VF_CHECK(w(at)==2 && w(at+2)==o->Node && w(at+4)==d->Node && w(at+6)==o->Net && w(at+8)==d->Net && w(at+10)==vf_in.attr && w(at+12)==vf_in.cost,"pkt: message header");
   at+=14;
   is("01 Jan 24  00:00:00",20); is("to",3); is("me",3); is("",1);
}
void vf_harness(void)
{
   VF_INPUT();
   int i; bool r; struct Node4D *from,dest; uint8_t type;
   jbNewList(&config.CNodeList); jbNewList(&PktList); jbNewList(&m.TextChunks); jbNewList(&m.SeenBy); jbNewList(&m.Path);
   config.cfg_MaxPktSize=0; strcpy(config.cfg_PacketCreate,"q"); ioerror=FALSE;
   tmb.tm_year=vf_in.tmv[0]; tmb.tm_mon=vf_in.tmv[1]; tmb.tm_mday=vf_in.tmv[2]; tmb.tm_hour=vf_in.tmv[3]; tmb.tm_min=vf_in.tmv[4]; tmb.tm_sec=vf_in.tmv[5];
   cn.Node=vf_in.cn; cn.PktFrom=vf_in.from; cn.Flags=vf_in.nflags; for(i=0;i<8;i++) cn.PacketPW[i]=vf_in.pw[i];
   aka.Node=vf_in.aka; jbAddNode(&config.CNodeList,(struct jbNode *)&cn);
   strcpy(m.Area,"ab"); m.OrigNode=vf_in.mo; m.DestNode=vf_in.md; m.Attr=vf_in.attr; m.Cost=vf_in.cost;
   strcpy(m.DateTime,"01 Jan 24  00:00:00"); strcpy(m.To,"to"); strcpy(m.From,"me"); m.Subject[0]=0;
   c1.Length=3; for(i=0;i<3;i++) c1.Data[i]=vf_in.tx[i];
   c2.Length=1; c2.Data[0]=vf_in.tx[3];
   jbAddNode(&m.TextChunks,(struct jbNode *)&c1); jbAddNode(&m.TextChunks,(struct jbNode *)&c2);
   jbAddNode(&m.Path,(struct jbNode *)&pa); pa.Paths=2; strcpy(pa.Path[0],"1/2"); strcpy(pa.Path[1],"3/4");
   from=(vf_in.nflags & NODE_PKTFROM) ? &vf_in.from : &vf_in.aka;
   VF_ASSUME(vf_in.type==PKTS_HOLD || vf_in.type==PKTS_NORMAL || vf_in.type==PKTS_DIRECT || vf_in.type==PKTS_CRASH || vf_in.type==PKTS_ECHOMAIL);
   m.Type=vf_in.type; dest=vf_in.cn;
   if(VF_PART==5) { VF_ASSUME(vf_in.failat>=1 && vf_in.failat<=16); vf_fs_failat=vf_in.failat; }

   if(VF_PART==1) r=WriteNetMail(&m,&dest,&aka);
   else r=WriteEchoMail(&m,&cn,&aka);

   F=&vf_fs[0];
   if(VF_PART==5) VF_CHECK(!r==!!vf_fs_failed,"pkt: a message that could not be written completely is reported");
   else
   {
      type=VF_PART==1 ? (vf_in.type==PKTS_NORMAL && (vf_in.nflags & NODE_PACKNETMAIL) ? PKTS_ECHOMAIL : vf_in.type) : PKTS_ECHOMAIL;
      VF_CHECK(r && npk==1,"pkt: written to one packet");
      VF_CHECK(pk[0].Type==type && pk[0].Dest.Node==dest.Node && pk[0].Orig.Node==from->Node && PktList.First==(struct jbNode *)&pk[0],"pkt: packet kept open for further mail");
      head(from,&dest,type==PKTS_ECHOMAIL || !(vf_in.nflags & NODE_NONETMAILPASSWORD));
      at=58;
      if(VF_PART==1)
      {
         msg(&vf_in.mo,&vf_in.md); is(vf_in.tx,4); is("",1);
         VF_CHECK(cn.SentNetmails==1 && cn.SentNetmailBytes==4,"pkt: counted for the node");
      }
      else
      {
         int tinysb=vf_in.cn.Zone!=vf_in.aka.Zone || (vf_in.nflags & NODE_TINYSEENBY);
         msg(from,&vf_in.cn); is("AREA:ab\r",8); is(vf_in.tx,4);
         if(tinysb)
         {
            is(sb2,13); i=0;
            if(!vf_in.cn.Point) { VF_CHECK(tn>i && tnet[i]==vf_in.cn.Net && tnode[i]==vf_in.cn.Node,"pkt: SEEN-BY across zones names the recipient"); i++; }
            if(!vf_in.aka.Point) { VF_CHECK(tn>i && tnet[i]==vf_in.aka.Net && tnode[i]==vf_in.aka.Node,"pkt: SEEN-BY across zones names us"); i++; }
            VF_CHECK(tn==i,"pkt: SEEN-BY across zones names nobody else");
         }
         else if(!(vf_in.nflags & NODE_NOSEENBY)) is(sb1,13);
         is("\1PATH: 1/2\r",11); is("\1PATH: 3/4\r",11); is("",1);
         VF_CHECK(cn.SentEchomails==1 && cn.SentEchomailBytes==4,"pkt: counted for the node");
      }
      VF_CHECK(F->size==at && pk[0].Len==at,"pkt: nothing else is written");
   }
   VF_REACH("end");
}
