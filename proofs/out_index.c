// @props: P15
// @functions: WriteIndex ReadIndex
// @level: bounded
// @bound: two nodes; index written by the program, and index files with damaged, unknown, long and duplicate lines
// @unwind: 40
// @hunwind: 100
// @lunwind: 204
// @parts: 0 1 2 3 4
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @desc: the bundle name of each node survives from run to run and no two nodes share one
#include <crashmail/crashmail.h>
struct vf_input { char a; };
#include "vf.h"
#define VF_FS_FILES 2
#define VF_FS_CAP 130
#define VF_FS_NAME 24
#define VF_FS_NOPRINTF
#include "fs_model.h"
void ReadIndex(void); void WriteIndex(void);
static struct ConfigNode n0,n1;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
bool osFPrintf(osFile os,char *fmt,...)
{
   va_list a; int h=vf_fs_h(os),k; char *s; 
   va_start(a,fmt);
   for(k=0;fmt[k];k++) { if(fmt[k]=='%' && fmt[k+1]=='s') { k++; for(s=va_arg(a,char *);*s;s++) vf_fs_byte(h,*s); } else vf_fs_byte(h,fmt[k]); }
   va_end(a); return TRUE;
}
static const struct { const char *l0,*l1,*file,*e0,*e1; } C[5]={
 {"12345678.mo0","0abcdef0.sa9",NULL,"12345678.mo0","0abcdef0.sa9"}, {"","0abcdef0.sa9",NULL,"","0abcdef0.sa9"},
 {"","","2:30/4.0 12345678.mo0\nx\n2:30/5.6 12345678.tu1\n","12345678.mo0",""},
 {"","","9:9/9 11111111.mo0\n2:30/4 12345678.mo0\n2:30/4\n2:30/5.6 123456789abcdef0\n","","123456789abc"},
 {"","","\n2:30/5.6 0abcdef0.mo0\r\n2:30/4.0 0ABCDEF0.tu0\r\n","0ABCDEF0.tu0",""} };
void vf_harness(void)
{
   int i,f; struct Node4D a={2,30,4,0},b={2,30,5,6};
   VF_INPUT();
   strcpy(config.cfg_PacketDir,"p"); jbNewList(&config.CNodeList); jbAddNode(&config.CNodeList,(struct jbNode *)&n0); jbAddNode(&config.CNodeList,(struct jbNode *)&n1); n0.Node=a; n1.Node=b;
   strcpy(n0.LastArcName,C[VF_PART].l0); strcpy(n1.LastArcName,C[VF_PART].l1);
   if(!C[VF_PART].file) { WriteIndex(); n0.LastArcName[0]=0; n1.LastArcName[0]=0; }
   else { f=vf_fs_make("p/cmindex"); for(i=0;C[VF_PART].file[i];i++) vf_fs[f].data[i]=C[VF_PART].file[i]; vf_fs[f].size=i; }
   ReadIndex();
   VF_CHECK(strcmp(n0.LastArcName,C[VF_PART].e0)==0 && strcmp(n1.LastArcName,C[VF_PART].e1)==0,"index: bundle names survive and are not shared");
   for(i=0;i<VF_FS_FILES;i++) VF_CHECK(!vf_fh[i].open,"index: files are closed");
   VF_REACH("end");
}
