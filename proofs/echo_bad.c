// @props: P11
// @functions: WriteBad
// @level: bounded
// @bound: messages of no or two text blocks; any area type assignment of three areas; concrete addresses
// @unwind: 12
// @hunwind: 120
// @lunwind: 130
// @parts: 0 1 2
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=300
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 320
// @assume: the message base answers anything its contract allows
// @desc: bad mail goes to the BAD area once, with its reason and sender in front of the unchanged text, and the message is as before afterwards
#include <crashmail/crashmail.h>
struct vf_input { uint8_t type[3]; uint8_t impfail,oom; uint32_t len; };
#include "vf.h"
bool WriteBad(struct MemMessage *mm,char *reason);
static struct MemMessage m; static struct Area a0,a1,a2; static struct Messagebase mb; static struct TextChunk c0,c1,cx; static int imps,allocs,frees; static struct Area *want;
static const char *exp_=VF_PART==1 ? "DEST:1:2/3.4\rORIG:5:6/7.8\rPKTORIG:9:10/11.0\rPKTDEST:12:13/65535.1\rERROR:why not\r" : "AREA:Some.Area\rPKTORIG:9:10/11.0\rPKTDEST:12:13/65535.1\rERROR:why not\r";
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
void *osAlloc(uint32_t n) { allocs++; VF_CHECK(n==sizeof(struct TextChunk) && allocs==1,"bad: one block"); return (vf_in.oom&1) ? NULL : (void *)&cx; }
void osFree(void *p) { VF_CHECK(p==(void *)&cx,"bad: only the added block is freed"); frees++; }
static bool imp(struct MemMessage *x,struct Area *a)
{
   struct TextChunk *f=(struct TextChunk *)x->TextChunks.First; uint32_t i;
   VF_CHECK(x==&m && a==want,"bad: stored in the BAD area");
   VF_CHECK(f==&cx,"bad: information first");
   for(i=0;exp_[i];i++) VF_CHECK(cx.Data[i]==exp_[i],"bad: origin and reason as documented");
   VF_CHECK(cx.Length==i,"bad: nothing else added");
   VF_CHECK(VF_PART==2 ? (cx.Next==NULL && (void *)x->TextChunks.Last==(void *)&cx) : (cx.Next==&c0 && c0.Next==&c1 && c1.Next==NULL && (void *)x->TextChunks.Last==(void *)&c1 && c0.Length==vf_in.len),"bad: followed by the text of the message");
   imps++;
   return !(vf_in.impfail&1);
}
void vf_harness(void)
{
   bool res; uint32_t n; struct Node4D d={1,2,3,4},o={5,6,7,8},po={9,10,11,0},pd={12,13,65535,1};
   VF_INPUT();
   mb.importfunc=imp; a0.Messagebase=&mb; a1.Messagebase=&mb; a2.Messagebase=&mb;
   a0.Next=&a1; a1.Next=&a2; a2.Next=NULL; config.AreaList.First=(struct jbNode *)&a0;
   a0.AreaType=vf_in.type[0]; a1.AreaType=vf_in.type[1]; a2.AreaType=vf_in.type[2];
   want=a0.AreaType==AREATYPE_BAD ? &a0 : a1.AreaType==AREATYPE_BAD ? &a1 : a2.AreaType==AREATYPE_BAD ? &a2 : NULL;
   m.DestNode=d; m.OrigNode=o; m.PktOrig=po; m.PktDest=pd;
   if(VF_PART!=1) strcpy(m.Area,"Some.Area");
   if(VF_PART!=2) { m.TextChunks.First=(struct jbNode *)&c0; m.TextChunks.Last=(struct jbNode *)&c1; c0.Next=&c1; c1.Next=NULL; c0.Length=vf_in.len; }
   res=WriteBad(&m,"why not");
   if(!want) { VF_CHECK(res && !imps && !allocs,"bad: without a BAD area nothing is stored"); VF_REACH("none"); return; }
   if(vf_in.oom&1) { VF_CHECK(!res && !imps && nomem,"bad: out of memory is reported"); return; }
   VF_CHECK(imps==1 && res==!(vf_in.impfail&1),"bad: stored once, failures reported");
   if(res)
   {
      VF_CHECK(frees==1 && (VF_PART==2 ? (m.TextChunks.First==NULL && m.TextChunks.Last==NULL) : ((void *)m.TextChunks.First==(void *)&c0 && (void *)m.TextChunks.Last==(void *)&c1)),"bad: message text as before");
      VF_CHECK(want->NewTexts==1 && a0.NewTexts+a1.NewTexts+a2.NewTexts==1,"bad: counted once");
      VF_REACH("stored");
   }
}
