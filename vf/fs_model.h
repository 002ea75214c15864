/* Ghost file system: the contract of the oslib file layer (src/oslib), used by
   proofs in place of the operating system.  The same text runs under cbmc and
   in the native replay.  A proof may define, before including this file,
     VF_FS_FILES  number of files            VF_FS_CAP  bytes per file
     VF_FS_NAME   bytes per file name
   vf_fs_failat: number of the write that fails (0: none), counted over all files. */
#ifndef VF_FS_MODEL_H
#define VF_FS_MODEL_H
#include <stdarg.h>
#include <stdio.h>
#ifndef VF_FS_FILES
#define VF_FS_FILES 3
#endif
#ifndef VF_FS_CAP
#define VF_FS_CAP 200
#endif
#ifndef VF_FS_NAME
#define VF_FS_NAME 24
#endif
struct vf_file { char name[VF_FS_NAME]; int used; uint32_t size; unsigned char data[VF_FS_CAP]; };
struct vf_handle { int f; uint32_t pos; int open,wr; };       /* f: index of the file */
static struct vf_file vf_fs[VF_FS_FILES];
static struct vf_handle vf_fh[VF_FS_FILES];
static char vf_hbase[VF_FS_FILES];                              /* an open file is the address of a byte here */
#define VF_H(i) ((osFile)&vf_hbase[i])
static uint32_t vf_fs_writes,vf_fs_failat; static int vf_fs_failed;   /* failed: a write has failed */
static uint32_t vf_fs_opens;
static int vf_fs_noopen;                                                /* opening for writing fails */

static int vf_fs_same(const char *a,const char *b)
{ int i; for(i=0;i<VF_FS_NAME;i++) { if(a[i]!=b[i]) return 0; if(!a[i]) return 1; } return 1; }
static int vf_fs_find(const char *n)
{ int i; for(i=0;i<VF_FS_FILES;i++) if(vf_fs[i].used && vf_fs_same(vf_fs[i].name,n)) return i; return -1; }
static int vf_fs_make(const char *n)
{
   int i,j;
   for(i=0;i<VF_FS_FILES;i++) if(!vf_fs[i].used)
   {
      vf_fs[i].used=1; vf_fs[i].size=0;
      for(j=0;j<VF_FS_NAME-1 && n[j];j++) vf_fs[i].name[j]=n[j];
      vf_fs[i].name[j]=0;
      return i;
   }
   VF_CHECK(0,"file model: too many files");
   return 0;
}
osFile osOpen(char *name,uint32_t mode)
{
   int f=vf_fs_find(name),i;
   vf_fs_opens++;
   if(mode==MODE_OLDFILE && f<0) return NULL;
   if(mode!=MODE_OLDFILE && vf_fs_noopen) return NULL;
   if(mode==MODE_NEWFILE && f>=0) vf_fs[f].size=0;
   if(f<0) f=vf_fs_make(name);
   for(i=0;i<VF_FS_FILES;i++) if(!vf_fh[i].open)
   { vf_fh[i].open=1; vf_fh[i].f=f; vf_fh[i].pos=0; vf_fh[i].wr=mode!=MODE_OLDFILE; return VF_H(i); }
   VF_CHECK(0,"file model: too many open files");
   return NULL;
}
static int vf_fs_h(osFile os)
{
   int h;
   VF_CHECK(os!=NULL,"files: only open files are used");
   h=(char *)os-vf_hbase;
   VF_CHECK(h>=0 && h<VF_FS_FILES && vf_fh[h].open,"files: only open files are used");
   return h;
}
void osClose(osFile os) { int h=vf_fs_h(os); vf_fh[h].open=0; }
int osGetChar(osFile os)
{ int h=vf_fs_h(os),f=vf_fh[h].f; if(vf_fh[h].pos>=vf_fs[f].size) return -1; return vf_fs[f].data[vf_fh[h].pos++]; }
uint32_t osRead(osFile os,void *buf,uint32_t bytes)
{
   int h=vf_fs_h(os),f=vf_fh[h].f; uint32_t i;
   for(i=0;i<bytes && vf_fh[h].pos<vf_fs[f].size;i++) ((unsigned char *)buf)[i]=vf_fs[f].data[vf_fh[h].pos++];
   return i;
}
static int vf_fs_mayfail(void)
{ vf_fs_writes++; if(vf_fs_failat && vf_fs_writes==vf_fs_failat) { vf_fs_failed=1; return 1; } return 0; }
static void vf_fs_byte(int h,unsigned char c)
{
   int f=vf_fh[h].f;
   VF_CHECK(vf_fh[h].wr,"files: only files open for writing are written");
   VF_CHECK(vf_fh[h].pos<VF_FS_CAP,"file model: file larger than the model");
   vf_fs[f].data[vf_fh[h].pos++]=c;
   if(vf_fh[h].pos>vf_fs[f].size) vf_fs[f].size=vf_fh[h].pos;
}
bool osPutChar(osFile os,char ch) { int h=vf_fs_h(os); if(vf_fs_mayfail()) return FALSE; vf_fs_byte(h,ch); return TRUE; }
bool osWrite(osFile os,const void *buf,uint32_t bytes)
{
   int h=vf_fs_h(os); uint32_t i;
   if(vf_fs_mayfail()) return FALSE;
   for(i=0;i<bytes;i++) vf_fs_byte(h,((const unsigned char *)buf)[i]);
   return TRUE;
}
bool osPuts(osFile os,char *str)
{
   int h=vf_fs_h(os); uint32_t i;
   if(vf_fs_mayfail()) return FALSE;
   for(i=0;str[i];i++) vf_fs_byte(h,str[i]);
   return TRUE;
}
uint32_t osFGets(osFile os,char *str,uint32_t max)
{
   int h=vf_fs_h(os),f=vf_fh[h].f; uint32_t i=0;
   while(i+1<max && vf_fh[h].pos<vf_fs[f].size)
   { str[i++]=vf_fs[f].data[vf_fh[h].pos++]; if(str[i-1]==10) break; }
   if(i) str[i]=0;
   if(i>=2 && str[i-1]==10 && str[i-2]==13) { str[i-2]=10; str[i-1]=0; i--; }
   return i;
}
off_t osFTell(osFile os) { return vf_fh[vf_fs_h(os)].pos; }
void osSeek(osFile os,off_t offset,short mode)
{ int h=vf_fs_h(os); vf_fh[h].pos=mode==OFFSET_END ? vf_fs[vf_fh[h].f].size+offset : offset; }
#ifndef VF_FS_NOPRINTF
bool osVFPrintf(osFile os,char *fmt,va_list args)
{
   char b[VF_FS_CAP]; int n;
   n=vsnprintf(b,VF_FS_CAP,fmt,args);
   VF_CHECK(n<VF_FS_CAP,"file model: long line");
   return osWrite(os,b,n);
}
bool osFPrintf(osFile os,char *fmt,...)
{ va_list a; bool r; va_start(a,fmt); r=osVFPrintf(os,fmt,a); va_end(a); return r; }
#endif
#ifndef VF_FS_NOEXISTS
bool osExists(char *file) { return vf_fs_find(file)>=0; }
#endif
bool osDelete(char *file) { int f=vf_fs_find(file); if(f<0) return FALSE; vf_fs[f].used=0; return TRUE; }
bool osRename(char *o,char *n)
{
   int f=vf_fs_find(o),g=vf_fs_find(n),j;
   if(f<0) return FALSE;
   if(g>=0) vf_fs[g].used=0;
   for(j=0;j<VF_FS_NAME-1 && n[j];j++) vf_fs[f].name[j]=n[j];
   vf_fs[f].name[j]=0;
   return TRUE;
}
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return "error"; }
#endif
