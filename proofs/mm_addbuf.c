// @props: P09
// @functions: mmAddBuf jbAddNode
// @level: bounded
// @bound: text chunks of 4 bytes (10000 in production, same code), any last chunk, additions of up to 9 bytes; all byte values
// @defs: -DC=4 -DL=9
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=4
// @unwind: 6
// @hunwind: 15
// @lunwind: 11
// @modeldefs: -DVF_MEMLOOP
// @desc: adding text to a message appends exactly that text, whatever the fill of the chunks, and never overruns a chunk
#include <crashmail/crashmail.h>
struct vf_input { char old[C]; uint32_t oldlen,len,q; char buf[L]; unsigned char has; };
#include "vf.h"
void vf_harness(void)
{
   VF_INPUT();
   struct jbList list; struct TextChunk *ch; uint32_t i,old,off=0,chunks=0,q=vf_in.q; int found=0; char want;
   static struct TextChunk first; struct TextChunk *last=NULL;
   VF_ASSUME(vf_in.oldlen<=C && vf_in.len<=L);
   jbNewList(&list);
   old=(vf_in.has&1) ? vf_in.oldlen : 0;
   if(vf_in.has&1)
   {
      first.Length=vf_in.oldlen; first.Next=NULL;
      for(i=0;i<C;i++) first.Data[i]=vf_in.old[i];
      list.First=list.Last=(struct jbNode *)&first;
   }
   VF_ASSUME(q<old+vf_in.len);                       /* any position of the resulting text */
   want=q<old ? vf_in.old[q] : vf_in.buf[q-old];
   VF_CHECK(mmAddBuf(&list,vf_in.buf,vf_in.len),"mmAddBuf: succeeds while memory lasts");
   for(ch=(struct TextChunk *)list.First,i=0;ch && i<5;ch=ch->Next,i++)
   {
      VF_CHECK(ch->Length<=C,"mmAddBuf: no chunk longer than its buffer");
      if(ch->Length>C) return;
      if(q>=off && q-off<ch->Length) { VF_CHECK(ch->Data[q-off]==want,"mmAddBuf: the text is the old text followed by the new text"); found=1; }
      off+=ch->Length; chunks++; last=ch;
   }
   VF_CHECK(ch==NULL && (struct jbNode *)last==list.Last,"mmAddBuf: chunk list stays well formed");
   VF_CHECK(found && off==old+vf_in.len,"mmAddBuf: nothing lost, nothing added");
   if(chunks==1) VF_REACH("one chunk");
   if(chunks>=3) VF_REACH("three chunks");
}
