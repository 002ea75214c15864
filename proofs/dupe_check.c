// @props: P13
// @functions: CheckDupe AddDupeBuf adddupeindex dupecomp
// @level: bounded
// @bound: a dupe file of 3 entries in every state it can be in (so histories of any length), MSGIDs and area names of up to 3 characters
// @unwind: 12
// @hunwind: 82
// @lunwind: 102
// @parts: 0 1 2 3 4 5
// @flags: --max-field-sensitivity-array-size 420
// @assume: the checksum of an MSGID is some function of its text (stubbed by an arbitrary masking of it; the real one is decided by dupe_crc)
// @desc: from every state of the dupe database: a message is a dupe exactly when MSGID and area are recorded among the kept entries, and a new one replaces the oldest
#include <crashmail/crashmail.h>
#define CAP 80
struct vf_input { char id[4][4]; char ar[4][4]; uint32_t mask; uint8_t failat,chg; };
#include "vf.h"
#define VF_FS_FILES 1
#define VF_FS_CAP CAP
#include "fs_model.h"
struct dupeentry { uint32_t offset,crc32; };
extern struct dupeentry *dupebuf; extern uint32_t dupeentrynum,dupeentrymax; extern osFile dupefh; extern bool dupechanged;
static struct dupeentry db[3]; static struct MemMessage m;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
static int len4(const char *s) { return s[0]==0 ? 0 : s[1]==0 ? 1 : s[2]==0 ? 2 : 3; }
static uint32_t hash(const char *s) { int n=len4(s); return ((n>0 ? (uint32_t)(unsigned char)s[0] : 0)|(n>1 ? (uint32_t)(unsigned char)s[1]<<8 : 0)|(n>2 ? (uint32_t)(unsigned char)s[2]<<16 : 0))&vf_in.mask; }
uint32_t calcstringcrc(char *s) { return hash(s); }
/* lengths of the texts are those of the part: positions in the file stay concrete */
static const int ilen[6][4]={{1,2,1,1},{1,1,1,1},{2,1,2,1},{1,2,1,2},{1,1,2,1},{2,2,2,2}};
static const int alen[6][4]={{1,1,1,1},{1,1,1,1},{0,1,0,1},{2,1,2,1},{0,0,0,1},{1,1,1,0}};
static int same(const char *a,const char *b,int n) { int i; for(i=0;i<n;i++) if(a[i]!=b[i]) return 0; return 1; }
void vf_harness(void)
{
   VF_INPUT();
   static const uint32_t mx[6]={0,1,2,3,3,3},nm[6]={0,1,2,0,1,2};
   uint32_t max=mx[VF_PART],num=nm[VF_PART],i,o,offs[4],pos; int k,il,al,dup; bool r; struct dupeentry old[3]; uint16_t sz;
   unsigned char snap[CAP];
   config.cfg_DupeSize=3; dupebuf=db; dupeentrymax=max; dupeentrynum=num; dupechanged=vf_in.chg&1;
   for(i=0;i<4;i++)
   {
      il=ilen[VF_PART][i]; al=alen[VF_PART][i];
      for(k=0;k<4;k++) { if(k>=il) vf_in.id[i][k]=0; else VF_ASSUME(vf_in.id[i][k]!=0); if(k>=al) vf_in.ar[i][k]=0; else VF_ASSUME(vf_in.ar[i][k]!=0); }
   }
   /* the file: identifier, one record nobody refers to any more, then the kept records, oldest first */
   vf_fs[0].used=1; vf_fs[0].name[0]='d'; vf_fs[0].data[0]='C'; vf_fs[0].data[1]='D'; vf_fs[0].data[2]='U'; vf_fs[0].data[3]='2';
   pos=4; vf_fs[0].data[pos]=1; vf_fs[0].data[pos+1]=0; vf_fs[0].data[pos+2]='x'; pos+=3;
   for(o=0;o<max;o++)
   {
      i=max==3 ? (num+o)%3 : o;            /* entry holding the o-th oldest record */
      uint32_t h=hash(vf_in.id[i]);
      offs[i]=pos; il=ilen[VF_PART][i]; al=alen[VF_PART][i]; sz=4+il+1+al+1;
      db[i].offset=pos; db[i].crc32=h;
      vf_fs[0].data[pos++]=sz; vf_fs[0].data[pos++]=0;
      for(k=0;k<4;k++) vf_fs[0].data[pos++]=((unsigned char *)&h)[k];
      for(k=0;k<=il;k++) vf_fs[0].data[pos++]=vf_in.id[i][k];
      for(k=0;k<=al;k++) vf_fs[0].data[pos++]=vf_in.ar[i][k];
   }
   vf_fs[0].size=pos; for(k=0;k<CAP;k++) snap[k]=vf_fs[0].data[k];
   vf_fh[0].open=1; vf_fh[0].f=0; vf_fh[0].wr=1; dupefh=VF_H(0);
   for(k=0;k<4;k++) { m.MSGID[k]=vf_in.id[3][k]; m.Area[k]=vf_in.ar[3][k]; }
   for(k=0;k<3;k++) old[k]=db[k];
   VF_ASSUME(vf_in.failat<3); vf_fs_failat=vf_in.failat;

   r=CheckDupe(&m);

   dup=0; il=ilen[VF_PART][3]; al=alen[VF_PART][3];
   for(i=0;i<max;i++) if(ilen[VF_PART][i]==il && alen[VF_PART][i]==al && same(vf_in.id[i],vf_in.id[3],il) && same(vf_in.ar[i],vf_in.ar[3],al)) dup=1;
   VF_CHECK(!r==!dup,"dupes: reported exactly when MSGID and area are among the recorded ones");
   for(k=0;k<CAP;k++) if(k<pos) VF_CHECK(vf_fs[0].data[k]==snap[k],"dupes: recorded entries stay in the file");
   if(dup) VF_CHECK(vf_fs[0].size==pos && dupeentrymax==max && dupeentrynum==num && dupechanged==(vf_in.chg&1) && old[0].offset==db[0].offset && old[1].offset==db[1].offset && old[2].offset==db[2].offset,"dupes: a dupe changes nothing");
   else if(vf_fs_failed) VF_CHECK(dupeentrymax==max && dupeentrynum==num && old[0].offset==db[0].offset && old[1].offset==db[1].offset && old[2].offset==db[2].offset,"dupes: a failed write records nothing");
   else
   {
      uint32_t e=num; int j,ok=1;
      VF_CHECK(dupechanged,"dupes: a new entry makes the file be rewritten");
      VF_CHECK(db[e].offset==pos && db[e].crc32==hash(vf_in.id[3]),"dupes: the new entry takes the place of the oldest");
      for(j=0;j<3;j++) if(j!=e && (old[j].offset!=db[j].offset || old[j].crc32!=db[j].crc32)) ok=0;
      VF_CHECK(ok,"dupes: other entries are kept");
      VF_CHECK(dupeentrymax==(max<3 ? max+1 : 3) && dupeentrynum==(num==2 ? 0 : num+1),"dupes: ring position");
      VF_CHECK(vf_fs[0].size==pos+2+4+il+1+al+1 && vf_fs[0].data[pos]==4+il+1+al+1 && vf_fs[0].data[pos+1]==0,"dupes: record appended");
      for(j=0;j<=il;j++) if((char)vf_fs[0].data[pos+6+j]!=vf_in.id[3][j]) ok=0;
      for(j=0;j<=al;j++) if((char)vf_fs[0].data[pos+6+il+1+j]!=vf_in.ar[3][j]) ok=0;
      VF_CHECK(ok,"dupes: record holds MSGID and area");
   }
   VF_REACH("end");
}
