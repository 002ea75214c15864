// @props: P14
// @functions: JAM_AddMessage JAM_ReadMsgHeader JAM_ReadMsgText JAM_ReadMBHeader JAM_WriteMBHeader JAM_LockMB JAM_UnlockMB jam_Lock JAM_NewSubPacket JAM_PutSubfield JAM_GetSubfield JAM_DelSubPacket freadjammsgheader fwritejammsgheader freadjamindex fwritejamindex freadjambaseheader fwritejambaseheader fwritejamsavesubfield getjamsubfield
// @level: bounded
// @target: jamlib
// @bound: bases with no or one message of any header, new messages with no, one or two fields of 0, 3 and 2 bytes and texts of 0 and 3 bytes; all values; every write may fail
// @unwind: 4
// @hunwind: 80
// @lunwind: 26
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17
// @srcdefs: -include /verif/vf/jam_stdio.h
// @flags: --max-field-sensitivity-array-size 1300 --slice-formula
// @desc: a stored message is found under the next number with exactly its header, fields and text, entered in the index last; earlier messages are untouched; a failed write is reported and leaves the message out of the index
#include <jamlib/jam.h>
struct vf_input { uint32_t h[16]; char t[3],f1[3],f2[2]; uint32_t base[5]; unsigned char old[76+8]; uint16_t id1,id2; };
#include "vf.h"
#define JF_CAP (76+76+8+3+8+2)
#define JF_TCAP 8
#define JF_ICAP 16
#include "jamfs_model.h"
static s_JamBase B; static s_JamMsgHeader h,r;
static uint32_t u4(unsigned char *p) { return p[0]|p[1]<<8|p[2]<<16|(uint32_t)p[3]<<24; }
static void p4(unsigned char *p,uint32_t v) { p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24; }
/* cases: old messages, fields, text length, failing write */
static const int CN[18]={0,0,0,1,1,1,1, 1,1,1,1,1,1,1,1, 1,1,1},CF[18]={0,1,2,2,0,2,1, 2,2,2,2,2,2,2,2, 2,2,2},CT[18]={3,0,3,3,0,3,0, 3,3,3,3,3,3,3,3, 3,3,3},CX[18]={0,0,0,0,0,0,0, 1,2,3,4,5,6,7,8, 0,0,0};
void vf_harness(void)
{
   VF_INPUT();
   int n=CN[VF_PART],nf=CF[VF_PART],nt=CT[VF_PART],i,rc,ok; uint32_t hoff,act; s_JamSubPacket *sp,*q; s_JamSubfield f,*g; char b[3]; uint32_t crc;
   jf_init(); for(i=0;i<4;i++) jf[i].open=1;
   B.HdrFile_PS=JFILE(0); B.TxtFile_PS=JFILE(1); B.IdxFile_PS=JFILE(2); B.LrdFile_PS=JFILE(3);
   jf[0].size=1024; jf0[0]='J'; jf0[1]='A'; jf0[2]='M'; for(i=0;i<5;i++) p4(jf0+4+4*i,vf_in.base[i]);
   if(n) { for(i=0;i<76;i++) jf0[1024+i]=vf_in.old[i]; jf[0].size=1100; for(i=0;i<8;i++) jf2[i]=vf_in.old[76+i]; jf[2].size=8; jf1[0]='o'; jf[1].size=1; }
   hoff=jf[0].size;
   jf0[24]=vf_in.f1[0]; jf0[1023]=vf_in.f1[1];
   JAM_ClearMsgHeader(&h);
   VF_CHECK(h.MsgIdCRC==JAM_NO_CRC && h.ReplyCRC==JAM_NO_CRC && h.PasswordCRC==JAM_NO_CRC && !h.Attribute && !h.TxtLen && !h.ReplyTo && !h.Reply1st && !h.ReplyNext && !h.SubfieldLen && !h.MsgNum,"JAM header: cleared");
   h.TimesRead=vf_in.h[0]; h.MsgIdCRC=vf_in.h[1]; h.ReplyCRC=vf_in.h[2]; h.ReplyTo=vf_in.h[3]; h.Reply1st=vf_in.h[4]; h.ReplyNext=vf_in.h[5]; h.DateWritten=vf_in.h[6];
   h.DateReceived=vf_in.h[7]; h.DateProcessed=vf_in.h[8]; h.Attribute=vf_in.h[9]; h.Attribute2=vf_in.h[10]; h.PasswordCRC=vf_in.h[11]; h.Cost=vf_in.h[12];
   sp=JAM_NewSubPacket(); VF_CHECK(sp!=0,"JAM: subfields");
   if(nf>=1) { f.LoID=VF_PART==3 ? JAMSFLD_RECVRNAME : vf_in.id1; f.HiID=0; f.DatLen=VF_PART==6 ? 0 : 3; f.Buffer=vf_in.f1; VF_CHECK(JAM_PutSubfield(sp,&f)==0,"JAM: subfield added"); }
   if(nf>=2) { f.LoID=VF_PART==3 ? JAMSFLD_SUBJECT : vf_in.id2; f.HiID=0; f.DatLen=2; f.Buffer=vf_in.f2; VF_CHECK(JAM_PutSubfield(sp,&f)==0,"JAM: subfield added"); }
   if(VF_PART==5) { VF_ASSUME(vf_in.id1!=JAMSFLD_RECVRNAME && vf_in.id2!=JAMSFLD_RECVRNAME); }
   if(VF_PART==2 || (VF_PART>=7)) VF_ASSUME(vf_in.id1!=JAMSFLD_RECVRNAME && vf_in.id2!=JAMSFLD_RECVRNAME);
   if(VF_PART==1 || VF_PART==6) VF_ASSUME(vf_in.id1!=JAMSFLD_RECVRNAME);
   if(VF_PART==0)
   {
      VF_CHECK(JAM_AddMessage(&B,&h,sp,vf_in.t,nt)==JAM_NOT_LOCKED && jf_writes==0,"JAM: nothing is written without the lock");
   }
   VF_CHECK(JAM_LockMB(&B,10)==0 && jf_locked && B.Locked_I,"JAM: locked");
   jf_failat=CX[VF_PART]; if(VF_PART>=15) jf_flushfail=VF_PART-14;
   rc=JAM_AddMessage(&B,&h,sp,nt ? &vf_in.t[0] : (char *)0,nt);
   VF_CHECK(!jf_unlocked_write,"JAM: written under the lock only");
   if(rc==0) { rc=JAM_UnlockMB(&B); VF_CHECK(!jf_locked,"JAM: unlocked"); }
   VF_CHECK((rc!=0)==(jf_failed!=0 || jf_flushfail!=0),"JAM: a write that failed, and only that, is reported");
   ok=1; for(i=0;i<76;i++) if(n && jf0[1024+i]!=vf_in.old[i]) ok=0; for(i=0;i<8;i++) if(n && jf2[i]!=vf_in.old[76+i]) ok=0; if(n && jf1[0]!='o') ok=0;
   if(jf0[0]!='J' || jf0[1]!='A' || jf0[2]!='M' || jf0[3]!=0 || u4(jf0+4)!=vf_in.base[0] || u4(jf0+16)!=vf_in.base[3] || u4(jf0+20)!=vf_in.base[4] || jf0[24]!=(unsigned char)vf_in.f1[0] || jf0[25]!=0 || jf0[1022]!=0 || jf0[1023]!=(unsigned char)vf_in.f1[1]) ok=0;
   VF_CHECK(ok,"JAM: earlier messages and the base header are kept");
   if(jf_failed && jf_failat<jf_writes) VF_CHECK(0,"JAM: nothing is written after a failed write");
   if(rc)
   {
#if VF_PART>=7
      if(jf_failed && jf_failat<8) VF_CHECK(jf[2].size==8*n,"JAM: a message that could not be written is not in the index");
      VF_REACH("failed");
#endif
   }
   else
   {
      VF_CHECK(jf[2].size==8*(n+1) && u4(jf2+8*n+4)==hoff,"JAM: the new index entry names the new header");
      VF_CHECK(jf_idxorder==jf_writes-1,"JAM: the message is entered in the index after it was written");
#if VF_PART==3
      { char lb[3]; crc=0; ok=1; for(i=0;i<3;i++) lb[i]=vf_in.f1[i]; VF_ASSUME(lb[0] && lb[1] && lb[2]); crc=JAM_Crc32(lb,3); VF_CHECK(u4(jf2+8*n)==crc,"JAM: index entry has the checksum of the receiver"); }
#else
      VF_CHECK(u4(jf2+8*n)==JAM_NO_CRC,"JAM: index entry without receiver");
#endif
      act=vf_in.base[2]+((vf_in.h[9] & MSG_DELETED) ? 0 : 1);
      VF_CHECK(u4(jf0+12)==act && u4(jf0+8)==vf_in.base[1]+1,"JAM: message counters of the base");
      VF_CHECK(jf[0].size==(long)hoff+76+(nf>=1 ? (VF_PART==6 ? 8 : 11) : 0)+(nf>=2 ? 10 : 0),"JAM: header and fields, nothing else");
      VF_CHECK(jf[1].size==n+nt,"JAM: text, nothing else");
      /* reading it back */
      q=0; rc=JAM_ReadMsgHeader(&B,n,&r,&q);
      VF_CHECK(rc==0 && q!=0,"JAM: the stored message can be read");
      VF_CHECK(r.TimesRead==vf_in.h[0] && r.MsgIdCRC==vf_in.h[1] && r.ReplyCRC==vf_in.h[2] && r.ReplyTo==vf_in.h[3] && r.Reply1st==vf_in.h[4] && r.ReplyNext==vf_in.h[5],"JAM: header as stored");
      VF_CHECK(r.DateWritten==vf_in.h[6] && r.DateReceived==vf_in.h[7] && r.DateProcessed==vf_in.h[8] && r.Attribute==vf_in.h[9] && r.Attribute2==vf_in.h[10] && r.PasswordCRC==vf_in.h[11] && r.Cost==vf_in.h[12],"JAM: header as stored");
      VF_CHECK(r.Revision==1 && r.Signature[0]=='J' && r.Signature[1]=='A' && r.Signature[2]=='M' && !r.Signature[3] && r.MsgNum==vf_in.base[4]+n,"JAM: signature and message number");
      VF_CHECK(r.TxtLen==nt && (!nt || r.TxtOffset==n),"JAM: place of the text");
      if(nt) { VF_CHECK(JAM_ReadMsgText(&B,r.TxtOffset,r.TxtLen,b)==0 && b[0]==vf_in.t[0] && b[1]==vf_in.t[1] && b[2]==vf_in.t[2],"JAM: text as stored"); }
      g=JAM_GetSubfield(q);
      if(nf>=1)
      {
         VF_CHECK(g && g->LoID==(VF_PART==3 ? JAMSFLD_RECVRNAME : vf_in.id1) && g->HiID==0 && g->DatLen==(VF_PART==6 ? 0 : 3),"JAM: fields as stored");
         if(VF_PART!=6) VF_CHECK(g->Buffer[0]==vf_in.f1[0] && g->Buffer[1]==vf_in.f1[1] && g->Buffer[2]==vf_in.f1[2],"JAM: fields as stored");
         g=JAM_GetSubfield(0);
      }
      if(nf>=2) { VF_CHECK(g && g->LoID==(VF_PART==3 ? JAMSFLD_SUBJECT : vf_in.id2) && g->DatLen==2 && g->Buffer[0]==vf_in.f2[0] && g->Buffer[1]==vf_in.f2[1],"JAM: fields as stored"); g=JAM_GetSubfield(0); }
      VF_CHECK(!g,"JAM: no other fields");
      JAM_DelSubPacket(q);
#if VF_PART<7
      VF_REACH("stored");
#endif
   }
   JAM_DelSubPacket(sp);
   VF_REACH("end");
}
