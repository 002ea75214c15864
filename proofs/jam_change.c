// @props: P14
// @functions: JAM_ChangeMsgHeader JAM_DeleteMessage JAM_AddEmptyMessage JAM_ReadMsgHeader JAM_ReadMBHeader JAM_WriteMBHeader freadjammsgheader fwritejammsgheader freadjamindex fwritejamindex
// @level: bounded
// @target: jamlib
// @bound: a base of two messages of any headers without fields; all values; every write may fail
// @unwind: 4
// @hunwind: 80
// @lunwind: 26
// @parts: 0 1 2 3 4 10 11 12 13 14 20 21
// @srcdefs: -include /verif/vf/jam_stdio.h
// @flags: --max-field-sensitivity-array-size 1300 --slice-formula
// @desc: changing or deleting a message touches that message only, needs the lock, keeps the count of active messages right and reports failed writes
#include <jamlib/jam.h>
struct vf_input { uint32_t h[19]; uint32_t base[5]; unsigned char old[2][76]; uint32_t crc[2]; uint8_t gone; };
#include "vf.h"
#define JF_CAP (76+76+80)
#define JF_TCAP 8
#define JF_ICAP 24
#include "jamfs_model.h"
static s_JamBase B; static s_JamMsgHeader h,r;
static uint32_t u4(unsigned char *p) { return p[0]|p[1]<<8|p[2]<<16|(uint32_t)p[3]<<24; }
static void p4(unsigned char *p,uint32_t v) { p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24; }
void vf_harness(void)
{
   VF_INPUT();
   int i,k=VF_PART%10 ? 1 : 0,o=1-k,rc,ok; uint32_t olda,newa,d;
   jf_init(); B.HdrFile_PS=JFILE(0); B.TxtFile_PS=JFILE(1); B.IdxFile_PS=JFILE(2); B.LrdFile_PS=JFILE(3);
   jf0[0]='J'; jf0[1]='A'; jf0[2]='M'; for(i=0;i<5;i++) p4(jf0+4+4*i,vf_in.base[i]);
   for(i=0;i<76;i++) { jf0[1024+i]=vf_in.old[0][i]; jf0[1100+i]=vf_in.old[1][i]; }
   jf[0].size=1176; p4(jf2,vf_in.crc[0]); p4(jf2+4,1024); p4(jf2+8,vf_in.crc[1]); p4(jf2+12,1100); jf[2].size=16;
   h.Signature[0]='J'; h.Signature[1]='A'; h.Signature[2]='M'; h.Signature[3]=0; h.Revision=1; h.ReservedWord=vf_in.h[18];
   h.SubfieldLen=vf_in.h[0]; h.TimesRead=vf_in.h[1]; h.MsgIdCRC=vf_in.h[2]; h.ReplyCRC=vf_in.h[3]; h.ReplyTo=vf_in.h[4]; h.Reply1st=vf_in.h[5]; h.ReplyNext=vf_in.h[6];
   h.DateWritten=vf_in.h[7]; h.DateReceived=vf_in.h[8]; h.DateProcessed=vf_in.h[9]; h.MsgNum=vf_in.h[10]; h.Attribute=vf_in.h[11]; h.Attribute2=vf_in.h[12]; h.TxtOffset=vf_in.h[13]; h.TxtLen=vf_in.h[14];
   h.PasswordCRC=vf_in.h[15]; h.Cost=vf_in.h[16];
   olda=u4((unsigned char *)vf_in.old[k]+52);
   if(VF_PART==0)
   {
      VF_CHECK(JAM_ChangeMsgHeader(&B,k,&h)==JAM_NOT_LOCKED && jf_writes==0,"JAM: nothing is changed without the lock");
      VF_CHECK(JAM_DeleteMessage(&B,k)==JAM_NOT_LOCKED && jf_writes==0,"JAM: nothing is changed without the lock");
      VF_CHECK(JAM_AddEmptyMessage(&B)==JAM_NOT_LOCKED && JAM_WriteMBHeader(&B,(s_JamBaseHeader *)jf0)==JAM_NOT_LOCKED && jf_writes==0,"JAM: nothing is changed without the lock");
   }
   VF_CHECK(JAM_LockMB(&B,0)==0,"JAM: locked");
   if(VF_PART>=20)
   {
      if(VF_PART==20)
      {
         VF_CHECK(JAM_AddEmptyMessage(&B)==0 && jf[2].size==24 && u4(jf2+16)==0xffffffff && u4(jf2+20)==0xffffffff && u4(jf2)==vf_in.crc[0] && u4(jf2+4)==1024 && u4(jf2+12)==1100,"JAM: an empty place is appended");
         VF_CHECK(JAM_ReadMsgHeader(&B,2,&r,NULL)==JAM_NO_MESSAGE && JAM_DeleteMessage(&B,2)==JAM_NO_MESSAGE && jf_writes==1,"JAM: an empty place is no message");
      }
      else
      {
         VF_CHECK(JAM_ReadMsgHeader(&B,2,&r,NULL)==JAM_IO_ERROR && JAM_DeleteMessage(&B,2)==JAM_IO_ERROR && JAM_ChangeMsgHeader(&B,2,&h)==JAM_IO_ERROR && jf_writes==0,"JAM: there is nothing behind the last message");
         p4(jf2+4,1176); VF_CHECK(JAM_ReadMsgHeader(&B,0,&r,NULL)==JAM_IO_ERROR && JAM_DeleteMessage(&B,0)==JAM_IO_ERROR && JAM_ChangeMsgHeader(&B,0,&h)==JAM_IO_ERROR && jf_writes==0,"JAM: an index entry outside the header file is an error");
      }
#if VF_PART>=20
      VF_REACH("other");
#endif
      return;
   }
   jf_failat=VF_PART%10>=2 ? VF_PART%10-1 : 0;
   if(VF_PART<10) { rc=JAM_ChangeMsgHeader(&B,k,&h); newa=h.Attribute; }
   else { rc=JAM_DeleteMessage(&B,k); newa=olda | MSG_DELETED; }
   VF_CHECK((rc!=0)==(jf_failed!=0),"JAM: a write that failed, and only that, is reported");
   ok=jf[0].size==1176 && jf[2].size==16 && jf[1].size==0; for(i=0;i<76;i++) if(jf0[1024+76*o+i]!=vf_in.old[o][i]) ok=0;
   if(u4(jf2+8*o)!=vf_in.crc[o] || u4(jf2+8*o+4)!=1024+76*o) ok=0;
   if(VF_PART<10 && (u4(jf2+8*k)!=vf_in.crc[k] || u4(jf2+8*k+4)!=1024+76*k)) ok=0;
   VF_CHECK(ok,"JAM: other messages are untouched");
   VF_CHECK(u4(jf0+4)==vf_in.base[0] && u4(jf0+16)==vf_in.base[3] && u4(jf0+20)==vf_in.base[4] && jf0[0]=='J' && jf0[24]==0 && jf0[1023]==0,"JAM: base header kept");
   if(!rc)
   {
      d=(newa & MSG_DELETED) && !(olda & MSG_DELETED) ? 1 : 0;
      VF_CHECK(u4(jf0+12)==vf_in.base[2]-d && u4(jf0+8)==vf_in.base[1]+1,"JAM: message counters of the base");
      if(VF_PART<10)
      {
         VF_CHECK(JAM_ReadMsgHeader(&B,k,&r,NULL)==((vf_in.crc[k]==0xffffffff && 0) ? 7 : 0),"JAM: the changed header can be read");
         VF_CHECK(r.Signature[0]=='J' && r.Signature[3]==0 && r.Revision==1 && r.ReservedWord==h.ReservedWord && r.SubfieldLen==h.SubfieldLen && r.TimesRead==h.TimesRead && r.MsgIdCRC==h.MsgIdCRC && r.ReplyCRC==h.ReplyCRC && r.ReplyTo==h.ReplyTo,"JAM: the header is the new one");
         VF_CHECK(r.Reply1st==h.Reply1st && r.ReplyNext==h.ReplyNext && r.DateWritten==h.DateWritten && r.DateReceived==h.DateReceived && r.DateProcessed==h.DateProcessed && r.MsgNum==h.MsgNum,"JAM: the header is the new one");
         VF_CHECK(r.Attribute==h.Attribute && r.Attribute2==h.Attribute2 && r.TxtOffset==h.TxtOffset && r.TxtLen==h.TxtLen && r.PasswordCRC==h.PasswordCRC && r.Cost==h.Cost,"JAM: the header is the new one");
      }
      else
      {
         ok=1; for(i=0;i<76;i++) if(!(i>=52 && i<56) && jf0[1024+76*k+i]!=vf_in.old[k][i]) ok=0;
         VF_CHECK(ok && u4(jf0+1024+76*k+52)==newa,"JAM: the deleted message is marked, nothing else");
         VF_CHECK(JAM_ReadMsgHeader(&B,k,&r,NULL)==JAM_NO_MESSAGE,"JAM: the deleted message is gone from the index");
      }
#if VF_PART<20 && VF_PART%10<2
      VF_REACH("done");
#endif
   }
#if VF_PART<20
   VF_REACH("end");
#endif
}
