// @props: P14
// @functions: JAM_ReadMsgHeader JAM_ReadMsgText JAM_GetMBSize getjamsubfield JAM_PutSubfield
// @level: bounded
// @target: jamlib
// @bound: header files ending after 0, 7, 8, 11, 19 and 24 bytes of fields with any content, any index entry
// @unwind: 5
// @hunwind: 80
// @lunwind: 26
// @parts: 0 1 2 3 4 5 6
// @srcdefs: -include /verif/vf/jam_stdio.h
// @flags: --max-field-sensitivity-array-size 1300 --slice-formula
// @desc: damaged headers, fields and index entries are refused and never read outside the file's data
#include <jamlib/jam.h>
#include <stdlib.h>
struct vf_input { unsigned char f[24]; uint32_t len,off,tl,to; char t[4]; };
#include "vf.h"
#define JF_CAP (76+24)
#define JF_TCAP 8
#define JF_ICAP 24
#include "jamfs_model.h"
static const int SZ[7]={0,7,8,11,19,24,16};
static s_JamBase B; static s_JamMsgHeader r;
static void p4(unsigned char *p,uint32_t v) { p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24; }
void vf_harness(void)
{
   VF_INPUT();
   int i,n=SZ[VF_PART],rc,cnt=0,at=0,good=1,j; s_JamSubPacket *q=0; s_JamSubfield *g; uint32_t num;
   jf_init(); B.HdrFile_PS=JFILE(0); B.TxtFile_PS=JFILE(1); B.IdxFile_PS=JFILE(2); B.LrdFile_PS=JFILE(3);
   for(i=0;i<24;i++) if(i<n) jf0[1100+i]=vf_in.f[i];
   jf[0].size=1100+n; jf[2].size=8; p4(jf2+4,1024); p4(jf0+1024+8,n);
   if(VF_PART>=4) for(i=0;i<n;i++) if(i>=5 && i<8) VF_ASSUME(vf_in.f[i]==0);
   /* what the fields say */
   while(at<n && good)
   {
      if(n-at<8) good=0;
      else { uint32_t l=vf_in.f[at+4]|vf_in.f[at+5]<<8|vf_in.f[at+6]<<16|(uint32_t)vf_in.f[at+7]<<24; if(l>(uint32_t)(n-at-8)) good=0; else { cnt++; at+=8+l; } }
   }
   rc=JAM_ReadMsgHeader(&B,0,&r,&q);
   VF_CHECK((rc==0)==good && (rc==0 || rc==JAM_CORRUPT_MSG),"JAM: fields that do not fit the header are refused, all others read");
   if(rc==0)
   {
      VF_CHECK(q!=0,"JAM: fields"); at=0;
      for(g=JAM_GetSubfield(q),j=0;g && j<3;g=JAM_GetSubfield(0),j++)
      {
         VF_CHECK(g->LoID==(vf_in.f[at]|vf_in.f[at+1]<<8) && g->DatLen==vf_in.f[at+4],"JAM: field header as stored");
         for(i=0;i<16;i++) if(i<(int)g->DatLen) VF_CHECK((unsigned char)g->Buffer[i]==vf_in.f[at+8+i],"JAM: field data as stored");
         at+=8+g->DatLen;
      }
      VF_CHECK(j==cnt && !g,"JAM: every field once"); JAM_DelSubPacket(q);
   }
   if(n==7)
   {
      /* a header that announces more than there is; any offset */
      VF_ASSUME(vf_in.len>7 && vf_in.len<1000); p4(jf0+1032,vf_in.len);
      VF_CHECK(JAM_ReadMsgHeader(&B,0,&r,&q)!=0,"JAM: a truncated message is refused");
      VF_ASSUME(vf_in.off>1031); p4(jf2+4,vf_in.off);
      VF_CHECK(JAM_ReadMsgHeader(&B,0,&r,&q)!=0,"JAM: an index entry behind the header file is refused");
      VF_CHECK(JAM_ReadMsgHeader(&B,1,&r,&q)!=0,"JAM: a message without index entry is refused");
   }
   if(n==0)
   {
      char b[4]; for(i=0;i<4;i++) jf1[i]=vf_in.t[i]; jf[1].size=4; VF_ASSUME(vf_in.tl<=4);
      rc=JAM_ReadMsgText(&B,vf_in.to,vf_in.tl,b);
      VF_CHECK((rc==0)==(!vf_in.tl || (vf_in.to<=4 && vf_in.tl<=4-vf_in.to)),"JAM: text outside the text file is refused");
      if(rc==0) for(i=0;i<4;i++) if(i<(int)vf_in.tl) VF_CHECK(b[i]==vf_in.t[vf_in.to+i],"JAM: text as stored");
      jf[2].size=23; VF_CHECK(JAM_GetMBSize(&B,&num)==0 && num==2,"JAM: number of messages");
   }
   VF_REACH("end");
}
