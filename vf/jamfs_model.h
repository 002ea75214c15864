/* Ghost files of a JAM base: header (0), text (1), index (2), lastread (3).
   JF_CAP: size of the byte arrays behind the 1024 byte base header of file 0. */
#include <string.h>
struct jf { unsigned char *d; long size,cap,pos; int eof,open; };
static unsigned char jf0[1024+JF_CAP],jf1[JF_TCAP],jf2[JF_ICAP],jf3[16];
static struct jf jf[4];
static int jf_writes,jf_failat,jf_failed,jf_locked,jf_lockfail,jf_idxorder,jf_opens,jf_openfail,jf_unlocked_write,jf_time,jf_flushfail;
static void jf_init(void) { jf[0].d=jf0; jf[0].cap=sizeof(jf0); jf[1].d=jf1; jf[1].cap=sizeof(jf1); jf[2].d=jf2; jf[2].cap=sizeof(jf2); jf[3].d=jf3; jf[3].cap=16; }
#define JF(f) ((struct jf *)(f))
#define JFILE(i) ((FILE *)&jf[i])
size_t vf_fread(void *b,size_t s,size_t n,FILE *fp)
{
   struct jf *f=JF(fp);
   VF_CHECK(n==1,"JAM: records are read one at a time");
   if(f->pos<0 || (size_t)f->size<s || (size_t)f->pos>(size_t)f->size-s) { f->pos=f->size; f->eof=1; return 0; }
   memcpy(b,f->d+f->pos,s); f->pos+=s; return 1;
}
size_t vf_fwrite(const void *b,size_t s,size_t n,FILE *fp)
{
   struct jf *f=JF(fp);
   VF_CHECK(n==1,"JAM: records are written one at a time");
   jf_writes++;
   if(!jf_locked) jf_unlocked_write=1;
   if(jf_writes==jf_failat) { jf_failed=1; return 0; }
   if(jf_failed) return 0;
   VF_CHECK(f->pos>=0 && f->pos+(long)s<=f->cap,"JAM: writing at a place of the file format");
   VF_ASSUME(f->pos>=0 && f->pos+(long)s<=f->cap);
   memcpy(f->d+f->pos,b,s); f->pos+=s; if(f->pos>f->size) f->size=f->pos;
   if(fp==JFILE(2)) jf_idxorder=jf_writes;
   return 1;
}
int vf_fseek(FILE *fp,long o,int w) { struct jf *f=JF(fp); VF_CHECK(f==&jf[0] || f==&jf[1] || f==&jf[2] || f==&jf[3],"JAM: file of this base"); f->eof=0; f->pos=w==SEEK_END ? f->size+o : o; return 0; }
long vf_ftell(FILE *fp) { return JF(fp)->pos; }
int vf_fflush(FILE *fp) { return jf_failed || (jf_flushfail && JF(fp)==&jf[jf_flushfail-1]) ? -1 : 0; }
int vf_feof(FILE *fp) { return JF(fp)->eof; }
int vf_fclose(FILE *fp) { VF_CHECK(JF(fp)->open,"JAM: an open file is closed"); JF(fp)->open=0; return 0; }
int vf_fileno(FILE *fp) { return fp==JFILE(0) ? 3 : 4; }
int vf_lock(int fd,int cmd,struct flock *l)
{
   VF_CHECK(fd==3 && cmd==F_SETLK && l->l_whence==SEEK_SET && l->l_start==0 && l->l_len==1,"JAM: the first byte of the header file is the lock");
   if(l->l_type==F_WRLCK) { if(jf_lockfail) { jf_lockfail--; return -1; } jf_locked=1; }
   else jf_locked=0;
   return 0;
}
time_t vf_time(time_t *t) { if(t) *t=jf_time,jf_flushfail; return jf_time,jf_flushfail; }
unsigned vf_sleep(unsigned n) { jf_time+=n; return 0; }
int vf_getpid(void) { return 77; }
#ifndef JF_OWNOPEN
FILE *vf_fopen(const char *n,const char *m) { VF_CHECK(0,"JAM: no file is opened here"); return 0; }
#endif
