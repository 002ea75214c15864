// @props: P17
// @functions: Filter_Copy mmAddBuf
// @level: bounded
// @bound: a message of one text block of three characters, all byte values
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=16
// @unwind: 14
// @lunwind: 30
// @hunwind: 30
// @parts: 0 1
// @flags: --max-field-sensitivity-array-size 80
// @desc: COPY stores the message with its area name in front and leaves the message itself as it was, even when storing fails
#include <crashmail/crashmail.h>
struct vf_input { uint8_t ok; char t[3]; };
#include "vf.h"
bool Filter_Copy(struct MemMessage *mm,char *tagname);
static struct MemMessage m; static struct TextChunk ch; static struct Area area; static struct Messagebase mb; static int imports;
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
static bool import(struct MemMessage *mm,struct Area *a)
{
   struct TextChunk *t=(struct TextChunk *)mm->TextChunks.First;
   VF_CHECK(mm==&m && a==&area,"COPY: this message into the named area");
   if(VF_PART) VF_CHECK(t && t->Length==10 && t->Data[0]=='A' && t->Data[5]=='E' && t->Data[6]==13 && t->Data[7]==vf_in.t[0] && t->Data[8]==vf_in.t[1] && t->Data[9]==vf_in.t[2] && t->Next==NULL,"COPY: text with its area name in front");
   else VF_CHECK(t && t->Length==3 && t->Data[0]==vf_in.t[0] && t->Data[1]==vf_in.t[1] && t->Data[2]==vf_in.t[2] && t->Next==NULL,"COPY: the message's text");
   imports++; return vf_in.ok&1;
}
void vf_harness(void)
{
   VF_INPUT();
   int i; bool r;
   jbNewList(&config.AreaList); mb.importfunc=import; area.Messagebase=&mb; area.NewTexts=7; strcpy(area.Tagname,"COPIES"); jbAddNode(&config.AreaList,(struct jbNode *)&area);
   jbNewList(&m.TextChunks); jbAddNode(&m.TextChunks,(struct jbNode *)&ch); ch.Length=3; for(i=0;i<3;i++) ch.Data[i]=vf_in.t[i];
   m.Area[0]=VF_PART ? 'E' : 0;
   r=Filter_Copy(&m,"copies");
   VF_CHECK(imports==1 && !!r==(vf_in.ok&1),"COPY: stored once, failure reported");
   VF_CHECK(area.NewTexts==7+(vf_in.ok&1),"COPY: counted if stored");
   VF_CHECK(m.TextChunks.First==(struct jbNode *)&ch && m.TextChunks.Last==(struct jbNode *)&ch && ch.Length==3 && ch.Data[0]==vf_in.t[0] && ch.Data[1]==vf_in.t[1] && ch.Data[2]==vf_in.t[2],"COPY: the message itself is unchanged");
   VF_REACH("end");
}
