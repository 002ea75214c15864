// @props: P15
// @functions: AddFlow doAddFlow LockBasename UnlockBasename MakeOrphan HandleOrphan
// @level: bounded
// @bound: ten cases of flavour, mode and previous content of the flow file; a busy node, a flow file that cannot be opened and a failing write
// @unwind: 40
// @hunwind: 62
// @lunwind: 204
// @parts: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @modeldefs: -DVF_DEC_DIV -DVF_MEMMOVE
// @srcdefs: -include /verif/vf/arrays.h
// @desc: a file to send is entered once, in the flow file of its node and flavour, or else an orphan file keeps the order and the next run enters it
#include <crashmail/crashmail.h>
struct vf_input { uint8_t dummy; };
#include "vf.h"
#define CASE (VF_PART/3)
#define BUSY (VF_PART%3==1)
#define FAIL (VF_PART%3==2)
#define VF_FS_FILES 6
#define VF_FS_CAP 60
#define VF_FS_NAME 24
#define VF_FS_NOPRINTF
#include "fs_model.h"
bool HandleOrphan_(char *n); void HandleOrphan(char *name);
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
int printf(const char *f,...) { return 0; }
void MakeBaseName(struct Node4D *n,char *b) { VF_CHECK(n->Zone==2 && n->Net==30 && n->Node==4 && n->Point==5,"flow: node"); strcpy(b,"ob/n"); }
bool osFPrintf(osFile os,char *fmt,...)
{
   va_list a; int h=vf_fs_h(os),k; char *s; 
   if(vf_fs_mayfail()) return FALSE;
   va_start(a,fmt);
   for(k=0;fmt[k];k++)
   {
      if(fmt[k]=='%' && fmt[k+1]=='s') { k++; for(s=va_arg(a,char *);*s;s++) vf_fs_byte(h,*s); }
      else vf_fs_byte(h,fmt[k]);
   }
   va_end(a);
   return TRUE;
}
static int is(const char *n,const char *t)
{ int f=vf_fs_find(n),i; if(f<0) return 0; for(i=0;t[i];i++) if(vf_fs[f].size<=i || vf_fs[f].data[i]!=t[i]) return 0; return vf_fs[f].size==i; }
static void put(const char *n,const char *t) { int f=vf_fs_make(n),i; for(i=0;t[i];i++) vf_fs[f].data[i]=t[i]; vf_fs[f].size=i; }
static const struct { int type,mode,crlf; const char *flow,*old,*new_,*orph; } C[10]={
 {PKTS_NORMAL,FLOW_NONE,0,"ob/n.flo",NULL,"p/x.tu0\n","Normal 2:30/4.5\n"},
 {PKTS_ECHOMAIL,FLOW_DELETE,0,"ob/n.flo","p/y\n","p/y\n^p/x.tu0\n","Normal 2:30/4.5 Delete\n"},
 {PKTS_HOLD,FLOW_TRUNC,1,"ob/n.hlo","^p/y\r\n","^p/y\r\n#p/x.tu0\r\n","Hold 2:30/4.5 Truncate\n"},
 {PKTS_DIRECT,FLOW_DELETE,1,"ob/n.dlo",NULL,"^p/x.tu0\r\n","Direct 2:30/4.5 Delete\n"},
 {PKTS_CRASH,FLOW_NONE,0,"ob/n.clo","#p/x.tu\n","#p/x.tu\np/x.tu0\n","Crash 2:30/4.5\n"},
 {PKTS_NORMAL,FLOW_DELETE,0,"ob/n.flo","^P/X.TU0\n","^P/X.TU0\n","Normal 2:30/4.5 Delete\n"},
 {PKTS_HOLD,FLOW_NONE,0,"ob/n.hlo","a\n#p/x.tu0\nb\n","a\n#p/x.tu0\nb\n","Hold 2:30/4.5\n"},
 {PKTS_CRASH,FLOW_DELETE,0,"ob/n.clo","a\n-p/x.tu0\n","a\n-p/x.tu0\n","Crash 2:30/4.5 Delete\n"},
 {PKTS_DIRECT,FLOW_TRUNC,0,"ob/n.dlo","~p/x.tu0\r\n","~p/x.tu0\r\n","Direct 2:30/4.5 Truncate\n"},
 {PKTS_NORMAL,FLOW_NONE,1,"ob/n.flo","p/x.tu00\nxp/x.tu0\n","p/x.tu00\nxp/x.tu0\np/x.tu0\r\n","Normal 2:30/4.5\n"},
};
static void check(int c,int entered,int busy)
{
   if(entered) { VF_CHECK(is(C[c].flow,C[c].new_),"flow: file entered once in the flow file of its flavour, other entries kept"); VF_CHECK(vf_fs_find("p/x.tu0.orphan")<0,"flow: no orphan for an entered file"); }
   else { VF_CHECK(C[c].old ? is(C[c].flow,C[c].old) : vf_fs_find(C[c].flow)<0 || is(C[c].flow,""),"flow: other entries kept"); VF_CHECK(is("p/x.tu0.orphan",C[c].orph),"flow: file that cannot be entered gets an orphan file"); }
   VF_CHECK(vf_fs_find("p/x.tu0")>=0,"flow: the file to send is kept");
   VF_CHECK((vf_fs_find("ob/n.bsy")>=0)==busy,"flow: busy mark of another program is kept, own one is removed");
}
void vf_harness(void)
{
   struct Node4D n={2,30,4,5}; int c=CASE,ent,i; bool r;
   VF_INPUT();
   put("p/x.tu0","z");
   if(C[c].old) put(C[c].flow,C[c].old);
   config.cfg_Flags=C[c].crlf ? CFG_FLOWCRLF : 0;
   ent=1;
   if(FAIL && strcmp(C[c].old ? C[c].old : "",C[c].new_)!=0) { vf_fs_failat=1; ent=0; }
   if(BUSY) { put("ob/n.bsy",""); ent=0; vf_fs_failat=0; }
   r=AddFlow("p/x.tu0",&n,C[c].type,C[c].mode);
   check(c,ent,BUSY);
   VF_CHECK(!r || !BUSY,"flow: busy node is reported");
   if(!ent)
   {
      /* retries of the next runs */
      char o[20]; strcpy(o,"p/x.tu0.orphan");
      if(BUSY) { HandleOrphan(o); check(c,0,1); osDelete("ob/n.bsy"); }
      vf_fs_writes=0; vf_fs_failat=!BUSY && strcmp(C[c].old ? C[c].old : "",C[c].new_)!=0 ? 1 : 0;
      HandleOrphan(o);
      check(c,vf_fs_failat==0,0);
      vf_fs_failat=0;
      HandleOrphan(o);
      check(c,1,0);
      
   }
   for(i=0;i<VF_FS_FILES;i++) VF_CHECK(!vf_fh[i].open,"flow: files are closed");
   VF_REACH("end");
}
