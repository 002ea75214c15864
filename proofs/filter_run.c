// @props: P17
// @functions: Filter Filter_Kill Filter_Twit Filter_WriteBad
// @level: bounded
// @bound: two filters with two commands each in every combination of the ten commands
// @unwind: 30
// @lunwind: 102
// @hunwind: 30
// @parts: 1 2
// @unwindset: expr_eval:6
// @flags: --max-field-sensitivity-array-size 420
// @desc: commands run in order for every matching filter and only for those; KILL ends the processing
#include <crashmail/crashmail.h>
struct vf_input { uint8_t cmd[2][2]; uint16_t attr; uint8_t echo; uint8_t okbad; char t[3]; };
#include "vf.h"
static struct MemMessage m; static struct TextChunk ch; static struct Filter f[2]; static struct Command c[2][2];
static int nrec; static char rec[8];
static void put(char x) { if(nrec<8) rec[nrec++]=x; }
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
bool WriteBad(struct MemMessage *mm,char *reason) { VF_CHECK(mm==&m && strcmp(reason,"why")==0,"WRITEBAD: this message, this reason"); put('B'); return vf_in.okbad&1; }
bool Filter_Copy(struct MemMessage *mm,char *tag) { VF_CHECK(mm==&m && strcmp(tag,"copies")==0,"COPY: this message, this area"); put('C'); return TRUE; }
bool Filter_Execute(struct MemMessage *mm,char *s) { put('X'); return TRUE; }
bool Filter_WriteLog(struct MemMessage *mm,char *s) { put('L'); return TRUE; }
bool Filter_Bounce(struct MemMessage *mm,char *s,bool h) { put(h ? 'h' : 'H'); return TRUE; }
bool Filter_Remap(struct MemMessage *mm,char *n,struct Node4DPat *p) { put('R'); return TRUE; }
bool Filter_Masquerade(struct MemMessage *mm,char *n,struct Node4DPat *p) { put('M'); return TRUE; }
void vf_harness(void)
{
   VF_INPUT();
   int i,j; int match[2]; int kill=0,fail=0,twit=0,n=0; char want[8]; bool r;
   static const int cmds[]={COMMAND_KILL,COMMAND_TWIT,COMMAND_WRITEBAD,COMMAND_COPY,COMMAND_EXECUTE,COMMAND_WRITELOG,COMMAND_BOUNCEMSG,COMMAND_BOUNCEHEADER,COMMAND_REMAPMSG,COMMAND_MASQUERADE};
   jbNewList(&config.FilterList); jbNewList(&config.AkaList); jbNewList(&config.CNodeList); jbNewList(&config.AreaList);
   strcpy(f[0].Filter,"FILEATTACH"); strcpy(f[1].Filter,"NOT FILEATTACH"); if(VF_PART==2) strcpy(f[1].Filter,"TYPE=NETMAIL");
   for(i=0;i<2;i++)
   {
      jbAddNode(&config.FilterList,(struct jbNode *)&f[i]);
      jbNewList(&f[i].CommandList);
      for(j=0;j<2;j++)
      {
         VF_ASSUME(vf_in.cmd[i][j]<10);
         c[i][j].Cmd=cmds[vf_in.cmd[i][j]]; c[i][j].string=c[i][j].Cmd==COMMAND_COPY ? "copies" : "why";
         jbAddNode(&f[i].CommandList,(struct jbNode *)&c[i][j]);
      }
   }
   jbNewList(&m.TextChunks); jbAddNode(&m.TextChunks,(struct jbNode *)&ch); ch.Length=3; for(i=0;i<3;i++) ch.Data[i]=vf_in.t[i];
   m.Attr=vf_in.attr; m.Area[0]=vf_in.echo&1 ? 'E' : 0;
   r=Filter(&m);
   match[0]=(vf_in.attr&FLAG_FILEATTACH)!=0; match[1]=VF_PART==2 ? !(vf_in.echo&1) : !match[0];
   for(i=0;i<2;i++) for(j=0;j<2;j++)
      if(match[i] && !kill && !fail)
         switch(vf_in.cmd[i][j])
         {
            case 0: kill=1; break;
            case 1: twit=1; break;
            case 2: want[n++]='B'; if(!(vf_in.okbad&1)) fail=1; break;
            default: want[n++]="   CXLHhRM"[vf_in.cmd[i][j]]; break;
         }
   VF_CHECK(nrec==n && (n<1 || rec[0]==want[0]) && (n<2 || rec[1]==want[1]) && (n<3 || rec[2]==want[2]) && (n<4 || rec[3]==want[3]),"filters: exactly the commands of matching filters, in order, until the message is killed");
   VF_CHECK(r==!fail,"filters: a failing command is reported");
   VF_CHECK(m.Flags==((kill ? MMFLAG_KILL : 0) | (twit ? MMFLAG_TWIT : 0)),"filters: KILL and TWIT mark the message, nothing else does");
   VF_CHECK(m.TextChunks.First==(struct jbNode *)&ch && ch.Length==3 && ch.Data[0]==vf_in.t[0] && ch.Data[1]==vf_in.t[1] && ch.Data[2]==vf_in.t[2],"filters: the message text is unchanged");
   VF_REACH("end");
}
