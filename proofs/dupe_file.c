// @props: P13
// @functions: OpenDupeDB CloseDupeDB copydupe adddupeindex
// @level: bounded
// @bound: dupe files of up to 5 records of up to 7 bytes with a dupe size of 3; every write may fail
// @unwind: 12
// @hunwind: 62
// @lunwind: 102
// @parts: 0 1 3 4 5 10 11 12 13 14 20 21 22
// @flags: --max-field-sensitivity-array-size 420
// @desc: the kept entries are the newest ones of the file, closing writes exactly them, oldest first, and a failed write keeps the old file
#include <crashmail/crashmail.h>
#define CAP 60
struct vf_input { unsigned char b[5][8]; unsigned char raw[12]; };
#include "vf.h"
#define VF_FS_FILES 2
#define VF_FS_CAP CAP
#include "fs_model.h"
struct dupeentry { uint32_t offset,crc32; };
extern struct dupeentry *dupebuf; extern uint32_t dupeentrynum,dupeentrymax; extern osFile dupefh; extern bool dupechanged;
static struct dupeentry db[3]; static int frees;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
void *osAlloc(uint32_t n) { VF_CHECK(n==sizeof(db),"dupes: index has room for the configured number"); return db; }
void osFree(void *p) { VF_CHECK(p==db,"dupes: only the index is freed"); frees++; }
static const int rl[5]={6,7,5,6,7};
static uint32_t at[5];
static void mkfile(int n)
{
   uint32_t pos=4; int i,k;
   vf_fs[0].used=1; strcpy(vf_fs[0].name,"d"); memcpy(vf_fs[0].data,"CDU2",4);
   for(i=0;i<n;i++)
   {
      at[i]=pos; vf_fs[0].data[pos++]=rl[i]; vf_fs[0].data[pos++]=0;
      for(k=0;k<rl[i];k++) vf_fs[0].data[pos++]=vf_in.b[i][k];
   }
   vf_fs[0].size=pos;
}
static void closing(int v,int fa)      /* the fa-th write fails; 9: the new file cannot be opened */
{
   int i,k,n,ok; uint32_t pos,sz;
      static const int mx[5]={1,2,3,3,3},nm[5]={1,2,0,1,2}; int max=mx[v],num=nm[v],e; struct vf_file *f;
      unsigned char snap[CAP];
      n=max+1; mkfile(n); sz=vf_fs[0].size; for(k=0;k<CAP;k++) snap[k]=vf_fs[0].data[k];
      for(i=1;i<n;i++) { e=max==3 ? (num+i-1)%3 : i-1; db[e].offset=at[i]; memcpy(&db[e].crc32,vf_in.b[i],4); }
      dupebuf=db; dupeentrymax=max; dupeentrynum=num; dupechanged=TRUE;
      vf_fh[0].open=1; vf_fh[0].f=0; vf_fh[0].wr=1; dupefh=VF_H(0);
      vf_fs[1].used=0; vf_fh[1].open=0; frees=0; vf_fs_writes=0; vf_fs_failed=0; vf_fs_failat=fa; vf_fs_noopen=fa==9;
      CloseDupeDB();
      VF_CHECK(!vf_fh[0].open && !vf_fh[1].open && frees==1,"dupe file: everything closed");
      if(vf_fs_failed || vf_fs_noopen)
      {
         ok=vf_fs[0].used && vf_fs[0].size==sz && vf_fs[0].name[0]=='d' && !vf_fs[0].name[1];
         for(k=0;k<CAP;k++) if(k<sz && vf_fs[0].data[k]!=snap[k]) ok=0;
         VF_CHECK(ok,"dupe file: kept when the new one cannot be written");
      }
      else
      {
         VF_CHECK(!vf_fs[0].used && vf_fs[1].used && strcmp(vf_fs[1].name,"d")==0,"dupe file: replaced by the new one");
         f=&vf_fs[1]; pos=4; ok=memcmp(f->data,"CDU2",4)==0;
         for(i=1;i<n;i++)
         {
            if(f->data[pos]!=rl[i] || f->data[pos+1]!=0) ok=0;
            for(k=0;k<rl[i];k++) if(f->data[pos+2+k]!=vf_in.b[i][k]) ok=0;
            pos+=2+rl[i];
         }
         VF_CHECK(ok && f->size==pos,"dupe file: exactly the kept entries, oldest first");
      }
   }
void vf_harness(void)
{
   VF_INPUT();
   int i,k,n,fa; uint32_t sz; bool r;
   config.cfg_DupeSize=3; strcpy(config.cfg_DupeFile,"d");
   if(VF_PART<10)
   {
      n=VF_PART; mkfile(n); sz=vf_fs[0].size;
      if(n==0) vf_fs[0].size=0;
      r=OpenDupeDB();
      VF_CHECK(r,"dupe file: a good file is opened");
      VF_CHECK(vf_fs[0].size==sz && memcmp(vf_fs[0].data,"CDU2",4)==0,"dupe file: left as it is, or started with the identifier");
      VF_CHECK(dupeentrymax==(n<3 ? n : 3) && dupeentrynum==n%3,"dupe file: the newest entries are kept");
      for(i=n<3 ? 0 : n-3;i<n;i++)
      {
         uint32_t c; memcpy(&c,vf_in.b[i],4);
         VF_CHECK(db[i%3].offset==at[i] && db[i%3].crc32==c,"dupe file: index entry");
      }
      VF_CHECK(!dupechanged,"dupe file: not changed by opening");
      CloseDupeDB();
      VF_CHECK(vf_fs[0].used && vf_fs[0].size==sz && frees==1 && !vf_fh[0].open,"dupe file: unchanged when nothing was added");
   }
   else if(VF_PART<20) for(fa=0;fa<10;fa++) closing(VF_PART-10,fa);
   else
   {
      static const int len[3]={3,9,12};
      vf_fs[0].used=1; strcpy(vf_fs[0].name,"d"); vf_fs[0].size=len[VF_PART-20];
      for(k=0;k<12;k++) vf_fs[0].data[k]=vf_in.raw[k];
      if(VF_PART!=20) memcpy(vf_fs[0].data,"CDU2",4);
      r=OpenDupeDB();
      if(VF_PART==20) VF_CHECK(!r,"dupe file: a file of another kind is refused");
      sz=vf_in.raw[4]+256*vf_in.raw[5];
      if(VF_PART==21 && (sz==0 || sz>3)) VF_CHECK(!r,"dupe file: a damaged file is refused");
      VF_CHECK(r || !vf_fh[0].open,"dupe file: closed when refused");
      VF_CHECK(vf_fs[0].used && vf_fs[0].size==len[VF_PART-20],"dupe file: a damaged file is not overwritten");
   }
   VF_REACH("end");
}
