// @props: P07 P16
// @functions: ReadPkt ReadNull ReadCR
// @level: bounded
// @bound: packets of two messages with short header strings and two text lines each, cut at 25 places (inside and at the end of every field); any addresses and attributes
// @unwind: 204
// @hunwind: 62
// @lunwind: 130
// @parts: 0 1 2 3 4 5 6 7 8
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 260
// @assume: sprintf and printf only format
// @desc: every message of a packet is handed over once, in order and as stored; damaged packets are set aside; a failing handler, a break or a missing file never makes a packet look tossed
#include <crashmail/crashmail.h>
struct vf_input { uint8_t mh[2][12]; uint8_t c1,c2; };
#include "vf.h"
#define VF_FS_FILES 1
#define VF_FS_CAP 260
#define VF_FS_NOPRINTF
#include "fs_model.h"
/* concrete texts (what is read from a file byte by byte is decided for all bytes by pkt_null) */
static const struct { char dt[2][3],to[2][3],fr[2][3],su[2][3],l[2][5]; } T={{"da","DB"},{"\xe5t","To"},{"f\xff","\x80" "F"},{"s ","\x01S"},{"abcd","\x7f\xfe\x01Z"}};
static struct MemMessage m; static struct osFileEntry fe;
static int handled,bad,nl,phase,failat,breakat; static char lines[8][6]; static int lmsg[8];
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
struct MemMessage *mmAlloc(void) { return &m; }
void mmClear(struct MemMessage *x) { struct Node4D z={0,0,0,0}; x->OrigNode=z; x->DestNode=z; x->PktOrig=z; x->PktDest=z; x->Area[0]=0; x->Attr=0; x->Flags=0; nl=0; }
void mmFree(struct MemMessage *x) {}
bool mmAddLine(struct MemMessage *x,char *b) { int i; if(nl<8) { for(i=0;i<5 && b[i];i++) lines[nl][i]=b[i]; lines[nl][i]=0; nl++; } return TRUE; }
void BadFile(char *n,char *c) { bad++; }
static int same2(const char *s,const char *t) { return s[0]==t[0] && s[1]==t[1] && s[2]==0; }
bool handle(struct MemMessage *x)
{
   int i=handled;
   handled++;
   VF_CHECK(i<2,"pkt: no more messages than the packet has");
   VF_CHECK(same2(x->DateTime,T.dt[i]) && same2(x->To,T.to[i]) && same2(x->From,T.fr[i]) && same2(x->Subject,T.su[i]),"pkt: header strings as stored");
   VF_CHECK(x->Attr==(vf_in.mh[i][8]|vf_in.mh[i][9]<<8) && x->OrigNode.Node==(vf_in.mh[i][0]|vf_in.mh[i][1]<<8) && x->DestNode.Node==(vf_in.mh[i][2]|vf_in.mh[i][3]<<8),"pkt: message header as stored");
   VF_CHECK(i==0 ? x->Area[0]==0 : (x->Area[0]=='E' && x->Area[1]==0),"pkt: area of echomail");
   VF_CHECK(nl>=2 && lines[0][0]==T.l[i][0] && lines[0][1]==T.l[i][1] && lines[0][2]==13 && !lines[0][3] && lines[1][0]==T.l[i][2] && lines[1][1]==T.l[i][3] && lines[1][2]==13 && !lines[1][3] && (nl==2 || (nl==3 && !lines[2][0])),"pkt: the text, line by line, in order");
   if(breakat && handled==breakat) ctrlc=TRUE;
   if(failat && handled==failat) return FALSE;
   return TRUE;
}
static int pos;
static void put(const char *s,int n) { int i; for(i=0;i<n;i++) vf_fs[0].data[pos++]=s[i]; }
static int end[2],total;
static void build(int longfield)
{
   int i,k; pos=0;
   for(i=0;i<58;i++) put("",1);
   vf_fs[0].data[18]=2; vf_fs[0].data[20]=1; vf_fs[0].data[46]=2; vf_fs[0].data[48]=2;
   for(i=0;i<2;i++)
   {
      put("\2",2); for(k=0;k<12;k++) put((char *)&vf_in.mh[i][k],1);
      put(T.dt[i],2); if(longfield==i*4+1) put("xxxxxxxxxxxxxxxxxx",18); put("",1);
      put(T.to[i],2); if(longfield==i*4+2) put("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",34); put("",1);
      put(T.fr[i],2); if(longfield==i*4+3) put("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",34); put("",1);
      put(T.su[i],2); if(longfield==i*4+4) { put("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",34); put("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",36); } put("",1);
      if(i) put("AREA:E\r",7);
      put(T.l[i],2); put("\r",1); put(&T.l[i][2],2); put("\r",1); put("",1);
      end[i]=pos;
   }
   put("\0",2); total=pos; vf_fs[0].size=pos; vf_fs[0].used=1; vf_fs[0].name[0]='p';
   vf_fh[0].open=0; handled=bad=nl=failat=breakat=0; ctrlc=FALSE;
}
static void cut(int t)      /* the packet ends after t bytes */
{
   bool r;
   build(0); VF_ASSUME(t<total-1); vf_fs[0].size=t;
   r=ReadPkt("p",&fe,FALSE,handle);
   VF_CHECK(r && bad==1 && !vf_fh[0].open,"pkt: a packet cut short is set aside");
   VF_CHECK(handled==(t>=end[1] ? 2 : t>=end[0] ? 1 : 0),"pkt: complete messages before the damage are handed over, others are not");
}
void vf_harness(void)
{
   VF_INPUT();
   bool r; int i,k;
   jbNewList(&config.AkaList); jbNewList(&config.CNodeList); config.cfg_Flags=0; config.cfg_BeforeToss[0]=0; no_security=FALSE; fe.Name[0]='p';
   if(VF_PART==0)
   {
      build(0); r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(r && bad==0 && handled==2 && !vf_fh[0].open,"pkt: all messages are handed over");
      build(0); vf_fs[0].size=total-1; r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(r && bad==0 && handled==2,"pkt: a single zero ends a packet too");
      build(0); vf_fs[0].data[total-2]=vf_in.c1; vf_fs[0].data[total-1]=vf_in.c2; VF_ASSUME(vf_in.c1!=0 && vf_in.c1!=2);
      r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(r && bad==1 && handled==2,"pkt: a message of unknown type makes the packet bad");
   }
   if(VF_PART==1)
   {
      build(0); failat=1; r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(!r && bad==0 && handled==1 && !vf_fh[0].open,"pkt: a message that cannot be handled stops the packet, which is not set aside");
      build(0); failat=2; r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(!r && bad==0 && handled==2,"pkt: a message that cannot be handled stops the packet, which is not set aside");
      build(0); breakat=1; r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(!r && bad==0 && handled==1 && !vf_fh[0].open,"pkt: a break stops the packet, which is not set aside");
      build(0); vf_fs[0].used=0; r=ReadPkt("p",&fe,FALSE,handle);
      VF_CHECK(!r || bad==1,"pkt: a packet that cannot be opened is not taken for tossed");
      VF_CHECK(handled==0,"pkt: nothing is handed over from a packet that cannot be opened");
   }
   if(VF_PART==2 || VF_PART==3)
   {
      for(i=VF_PART;i<=VF_PART+6;i+=2)
      {
         build(i-1); r=ReadPkt("p",&fe,FALSE,handle);
         VF_CHECK(r && bad==1 && handled==(i-1>4),"pkt: over-long header strings make the packet bad");
      }
   }
   if(VF_PART==4) { cut(0); cut(57); cut(58); cut(59); cut(65); }
   if(VF_PART==5) { cut(72); cut(74); cut(75); cut(78); cut(83); }
   if(VF_PART==6) { cut(84); cut(86); cut(87); cut(90); cut(91); }
   if(VF_PART==7) { cut(92); cut(95); cut(105); cut(112); cut(117); }
   if(VF_PART==8) { cut(119); cut(124); cut(127); cut(130); cut(131); }
   VF_REACH("end");
}
