// @props: P07
// @functions: ReadPkt getuword
// @level: bounded
// @bound: one message with empty header strings and text; every packet header (58 bytes), one AKA and one configured node with any addresses and any password
// @unwind: 166
// @hunwind: 62
// @lunwind: 60
// @parts: 1 2 3
// @flags: --max-field-sensitivity-array-size 256
// @assume: sprintf and printf only format (their texts are not inspected here)
// @desc: sender and recipient of the packet, the check of its destination and of its password, for every packet header
#include <crashmail/crashmail.h>
struct vf_input { unsigned char h[58]; struct Node4D aka,cn; char pw[9]; uint16_t nflags; uint32_t cflags; uint8_t nosec,echo; uint16_t defzone; uint8_t mh[12]; };
#include "vf.h"
#define VF_FS_FILES 1
#define VF_FS_CAP 90
#define VF_FS_NOPRINTF
#include "fs_model.h"
static struct MemMessage m; static struct Aka aka; static struct ConfigNode cn; static struct osFileEntry fe;
static int handled,bad,freed; static char badwhy; static struct MemMessage got;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
struct MemMessage *mmAlloc(void) { return &m; }
void mmClear(struct MemMessage *x) { struct Node4D z={0,0,0,0}; x->OrigNode=z; x->DestNode=z; x->PktOrig=z; x->PktDest=z; x->Area[0]=0; x->Attr=0; x->Flags=0; }
void mmFree(struct MemMessage *x) { freed++; }
bool mmAddLine(struct MemMessage *x,char *b) { VF_CHECK(b[0]==0,"pkt: no text"); return TRUE; }
void BadFile(char *n,char *c) { VF_CHECK(n[0]=='p' && !n[1],"pkt: this packet is set aside"); bad++; badwhy=c[0]; }
bool handle(struct MemMessage *x) { handled++; got.OrigNode=x->OrigNode; got.DestNode=x->DestNode; got.PktOrig=x->PktOrig; got.PktDest=x->PktDest; got.Attr=x->Attr; got.Cost=x->Cost; got.Flags=x->Flags; got.Area[0]=x->Area[0]; return TRUE; }
static uint16_t w(int o) { return vf_in.h[o]|vf_in.h[o+1]<<8; }
static uint16_t mw(int o) { return vf_in.mh[o]|vf_in.mh[o+1]<<8; }
static int eq(struct Node4D *a,struct Node4D *b) { return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static int like(struct Node4D *a,struct Node4D *b) { return (!a->Zone || !b->Zone || a->Zone==b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static int up(char c) { return c>='a' && c<='z' ? c-32 : c; }
void vf_harness(void)
{
   VF_INPUT();
   int i,pos=0,pwok,pwneeded,destok; struct Node4D o,d; bool r;
   for(i=0;i<58;i++) vf_fs[0].data[pos++]=vf_in.h[i];
   vf_fs[0].data[pos++]=2; vf_fs[0].data[pos++]=0;
   for(i=0;i<12;i++) vf_fs[0].data[pos++]=vf_in.mh[i];
   for(i=0;i<4;i++) vf_fs[0].data[pos++]=0;
   if(VF_PART==3) { memcpy(&vf_fs[0].data[pos],"AREA:E\r",7); pos+=7; }
   vf_fs[0].data[pos++]=0;
   vf_fs[0].data[pos++]=0; vf_fs[0].data[pos++]=0;
   vf_fs[0].used=1; vf_fs[0].name[0]='p'; vf_fs[0].size=pos;
   if(VF_PART!=1) { VF_ASSUME(vf_in.h[16]==0 && vf_in.h[17]==0 && vf_in.h[18]==2 && vf_in.h[19]==0 && w(46)!=0); }
   jbNewList(&config.AkaList); jbNewList(&config.CNodeList);
   aka.Node=vf_in.aka; jbAddNode(&config.AkaList,(struct jbNode *)&aka);
   cn.Node=vf_in.cn; cn.Flags=vf_in.nflags; for(i=0;i<9;i++) cn.PacketPW[i]=vf_in.pw[i];
   cn.PacketPW[8]=0; if(VF_PART==1) cn.PacketPW[0]=0;
   jbAddNode(&config.CNodeList,(struct jbNode *)&cn);
   config.cfg_Flags=vf_in.cflags; config.cfg_DefaultZone=vf_in.defzone; config.cfg_BeforeToss[0]=0; no_security=vf_in.nosec&1; ctrlc=FALSE;
   strcpy(fe.Name,"p");

   r=ReadPkt("p",&fe,FALSE,handle);

   /* FTS-0001, FSC-0039/0048 (type 2+) and FSC-0045 (type 2.2) */
   o.Zone=o.Net=o.Node=o.Point=d.Zone=d.Net=d.Node=d.Point=0;
   o.Node=w(0); d.Node=w(2); o.Net=w(20); d.Net=w(22);
   if(w(16)==2) { o.Zone=w(34); d.Zone=w(36); o.Point=w(4); d.Point=w(6); }
   else
   {
      if(w(46)) { o.Zone=w(46); d.Zone=w(48); }
      else if(w(34)) { o.Zone=w(34); d.Zone=w(36); }
      if(vf_in.h[40]==vf_in.h[45] && vf_in.h[41]==vf_in.h[44])
      {
         o.Point=w(50); d.Point=w(52);
         if(w(50) && w(20)==0xffff) o.Net=w(38);
      }
   }
   destok=!(vf_in.cflags & CFG_CHECKPKTDEST) || (vf_in.nosec&1) || like(&d,&aka.Node);
   if(!o.Zone && like(&o,&cn.Node)) o.Zone=cn.Node.Zone;
   if(!d.Zone && like(&d,&aka.Node)) d.Zone=aka.Node.Zone;
   if(!o.Zone) o.Zone=vf_in.defzone;
   if(!d.Zone) d.Zone=vf_in.defzone;
   pwneeded=like(&o,&cn.Node) && cn.PacketPW[0] && !(vf_in.nosec&1) && (VF_PART==3 || !(vf_in.nflags & NODE_NONETMAILPASSWORD));
   pwok=1; for(i=0;i<8;i++) { if(up(vf_in.h[26+i])!=up(cn.PacketPW[i])) { pwok=0; break; } if(!cn.PacketPW[i]) break; }
   VF_CHECK(r && !vf_fh[0].open,"pkt: read to the end and closed");
   if(w(18)!=2 || !destok || (pwneeded && !pwok))
   {
      VF_CHECK(handled==0,"pkt: no message of a packet of the wrong type, destination or password is accepted");
      VF_CHECK(bad==1,"pkt: a packet of the wrong type, destination or password is set aside");
      if(VF_PART!=1 && destok) VF_CHECK(badwhy=='W',"pkt: set aside because of the password");
   }
   else
   {
      VF_CHECK(bad==0 && handled==1,"pkt: a good packet is tossed");
      VF_CHECK(eq(&got.PktOrig,&o),"pkt: sender of the packet");
      VF_CHECK(eq(&got.PktDest,&d),"pkt: recipient of the packet");
      VF_CHECK(got.OrigNode.Net==mw(4) && got.OrigNode.Node==mw(0) && got.DestNode.Net==mw(6) && got.DestNode.Node==mw(2),"pkt: addresses of the message");
      VF_CHECK(got.OrigNode.Zone==o.Zone && got.DestNode.Zone==d.Zone && !got.OrigNode.Point && !got.DestNode.Point,"pkt: zones of the message are those of the packet");
      VF_CHECK(got.Attr==mw(8) && got.Cost==mw(10),"pkt: attributes and cost");
      VF_CHECK(got.Flags==(MMFLAG_TOSSED | ((vf_in.nosec&1) ? MMFLAG_NOSECURITY : 0)),"pkt: marked as tossed");
      VF_CHECK(got.Area[0]==(VF_PART==3 ? 'E' : 0),"pkt: echomail and netmail");
      VF_CHECK(cn.GotEchomails==(VF_PART==3 && like(&o,&cn.Node)) && cn.GotNetmails==(VF_PART!=3 && like(&o,&cn.Node)),"pkt: counted for the sending node");
   }
   VF_REACH("end");
}
