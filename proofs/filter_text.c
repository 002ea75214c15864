// @props: P17
// @functions: filter_evalfunc filter_comparetext bminit bmfind
// @level: bounded
// @bound: message texts of two chunks of 4 characters, all byte values, one search text
// @parts: 1 2
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=6
// @unwind: 8
// @lunwind: 102
// @hunwind: 30
// @unwindset: bminit.0:258 bminit.1:258 bminit.2:258 strlen.0:14
// @flags: --max-field-sensitivity-array-size 257
// @desc: TEXT| searches the text lines of a message and KLUDGES| its kludge lines
#include <crashmail/crashmail.h>
#define N 4
struct vf_input { char t[2][N]; };
#include "vf.h"
int filter_evalfunc(char *str,int *errpos,char **errstr);
extern struct MemMessage *filter_mm;
static struct MemMessage m; static struct TextChunk c1,c2;
static int low(char c) { return c>='A' && c<='Z' ? c+32 : c; }
void vf_harness(void)
{
   VF_INPUT();
   int i,j,k,r,ep=0,want=0; char *es="";
   jbNewList(&config.AkaList); jbNewList(&config.CNodeList); jbNewList(&m.TextChunks);
   jbAddNode(&m.TextChunks,(struct jbNode *)&c1); jbAddNode(&m.TextChunks,(struct jbNode *)&c2);
   c1.Length=N; c2.Length=N;
   for(i=0;i<N;i++) { c1.Data[i]=vf_in.t[0][i]; c2.Data[i]=vf_in.t[1][i]; }
   filter_mm=&m;
   r=filter_evalfunc(VF_PART==1 ? "TEXT|aB" : "KLUDGES|\"aB\"",&ep,&es);
   for(k=0;k<2;k++)
      for(i=0;i+1<N;i++)
         if(low(vf_in.t[k][i])=='a' && low(vf_in.t[k][i+1])=='b')
         {
            /* the line the match is in: a kludge line has its 1 between the last line end and the match */
            int kl=0;
            for(j=0;j<=i;j++) { if(vf_in.t[k][j]==13) kl=0; if(vf_in.t[k][j]==1) kl=1; }
            if(kl==(VF_PART==2)) want=1;
         }
   VF_CHECK(r==want,"TEXT and KLUDGES: true exactly if the text occurs, case ignored, in a line of that kind");
   VF_REACH("end");
}
