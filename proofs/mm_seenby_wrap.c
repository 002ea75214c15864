// @props: P10
// @functions: mmMakeSeenByBuf
// @level: bounded
// @bound: three fixed SEEN-BY lists of 12, 14 and 30 entries that need several lines
// @parts: 12 14 30
// @unwind: 32
// @hunwind: 400
// @lunwind: 400
// @modeldefs: -DVF_DEC_DIV
// @flags: --max-field-sensitivity-array-size 1000
// @desc: SEEN-BY lines are wrapped before 80 characters and every line repeats the net, so that each can be read alone
#include <crashmail/crashmail.h>
struct vf_input { char dummy; };
#include "vf.h"
static struct Nodes2D b1;
static char vf_text[700];
/* the text block: exactly as large as asked for, at the end of the array */
void *osAlloc(uint32_t size) { VF_CHECK(size<=700,"SEEN-BY text: modest size"); return &vf_text[700-size]; }
void osFree(void *p) {}
void vf_harness(void)
{
   VF_INPUT();
   struct jbList l; uint32_t i,p=0,line=0,e=0,net=0; char *t;
   jbNewList(&l); jbAddNode(&l,(struct jbNode *)&b1); b1.Nodes=VF_PART;
   for(i=0;i<VF_PART;i++)
   {
      b1.Net[i]=VF_PART==12 ? 10001+i : VF_PART==14 ? 65535 : 200+i/10;
      b1.Node[i]=VF_PART==12 ? 65535-i : VF_PART==14 ? 60000+i : i*37;
   }
   t=mmMakeSeenByBuf(&l);
   VF_CHECK(t!=NULL,"SEEN-BY text: made");
   while(t[p])
   {
      /* one line */
      uint32_t start=p; line++;
      VF_CHECK(strncmp(&t[p],"SEEN-BY:",8)==0,"SEEN-BY text: every line starts with SEEN-BY:");
      p+=8; net=0;
      while(t[p]==' ')
      {
         uint32_t v=0; p++;
         while(t[p]>='0' && t[p]<='9') v=v*10+t[p++]-'0';
         if(t[p]=='/') { net=v; p++; v=0; while(t[p]>='0' && t[p]<='9') v=v*10+t[p++]-'0'; }
         VF_CHECK(e<VF_PART && net==b1.Net[e] && v==b1.Node[e],"SEEN-BY text: exactly the listed nodes in order");
         e++;
      }
      VF_CHECK(t[p]==13,"SEEN-BY text: lines end with a carriage return");
      VF_CHECK(p-start<80,"SEEN-BY text: lines of at most 79 characters");
      if(t[p]!=13) break;
      p++;
   }
   VF_CHECK(e==VF_PART && line>=2,"SEEN-BY text: no node lost");
   VF_REACH("end");
}
