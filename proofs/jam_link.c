// @props: P14
// @functions: jam_afterfunc jam_linkmb jam_CompareMsgIdReply jam_setreply jam_getarea
// @level: bounded
// @bound: bases of three messages in six situations (two answers, ids that collide or name themselves, all new or only the last, earlier links, links outside the base), any message ids behind the checksums; quick and complete linking; every outcome of locking
// @unwind: 6
// @hunwind: 12
// @lunwind: 30
// @parts: 0 1 2 3 4 5 6 7
// @flags: --max-field-sensitivity-array-size 420 --slice-formula
// @assume: the JAM library behaves as jam_store, jam_change and jam_damaged establish
// @desc: new messages are linked as answers to the messages they name and to nothing else, links already there are kept, only link fields change and only under the lock, and damaged links are never followed outside the base
#include <crashmail/crashmail.h>
#include <stdlib.h>
struct vf_input { uint8_t idv[3],rev[3]; uint8_t lf; };
#include "vf.h"
#define B 5u
#define N 0xffffffff
struct lk { uint32_t id,re,to,first,next; };
static const struct lk T[6][3]={
 {{1,N,0,0,0},{2,1,0,0,0},{3,1,0,0,0}},          /* two answers */
 {{1,2,0,0,0},{2,1,0,0,0},{1,2,0,0,0}},          /* crossing, colliding */
 {{1,N,0,B+1,0},{2,1,B,0,0},{3,1,0,0,0}},        /* second answer to an old message */
 {{1,N,0,B+70,0},{2,3,B+99,0,N},{3,1,0,0,0}},    /* damaged links */
 {{1,3,0,0,0},{2,3,0,0,0},{3,N,0,0,0}},          /* answers came before */
 {{1,N,0,1,0},{N,N,0,0,0},{1,1,0,0,0}},          /* own id, link before the base */
};
#define CASE (VF_PART<6 ? VF_PART : VF_PART-6)
#define M(i) T[CASE][i]
#define JS_TEXT 8
static int sized;
#define js_size (sized++ ? 3 : NOLD)
#define js_base B
#define js_off 0
#define P(x) (VF_PART==(x))
#define NOLD (CASE<2 || CASE==4 ? 0 : 2)
#define QUICK (VF_PART>=6)
#include "jam_stub.h"
static struct Area area; static struct MemMessage mm; static struct { uint32_t to,first,next; } L[3]; static int changes[3],dead;
int JAM_CreateMB(char *n,uint32_t b,s_JamBase **p) { return 1; }
static s_JamSubPacket pk[3][2]; static int uses; static s_JamSubfield fd[3][2]; static char idb[3][2],reb[3][2];
static int live[3];
int JAM_ReadMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h,s_JamSubPacket **p)
{
   VF_CHECK(b==jb[0] && n<3,"JAM link: a message of the base");
   if(n>=3) return JAM_IO_ERROR;
   memset(h,0,sizeof(*h)); h->MsgIdCRC=M(n).id; h->ReplyCRC=M(n).re; h->ReplyTo=M(n).to; h->Reply1st=M(n).first; h->ReplyNext=M(n).next; h->Cost=42+n; h->Attribute=7;
   if(p) { *p=&pk[n][0]; live[n]++; }
   return 0;
}
int JAM_DelSubPacket(s_JamSubPacket *p) { int n; for(n=0;n<3;n++) if(p==&pk[n][0]) live[n]--; return 0; }
static int gn,gk;
s_JamSubfield *JAM_GetSubfield(s_JamSubPacket *p)
{
   int n;
   if(p) { gk=0; for(n=0;n<3;n++) if(p==&pk[n][0]) gn=n; }
   if(gk>=2) return NULL;
   VF_CHECK(live[gn]>0,"JAM link: fields are not used after they are freed");
   return &fd[gn][gk++];
}
int JAM_ChangeMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h)
{
   VF_CHECK(b==jb[0] && n<3 && locked,"JAM link: changed under the lock");
   VF_CHECK(h->MsgIdCRC==M(n).id && h->ReplyCRC==M(n).re && h->Cost==42+n && h->Attribute==7,"JAM link: only links are changed");
   L[n].to=h->ReplyTo; L[n].first=h->Reply1st; L[n].next=h->ReplyNext; changes[n]++; return 0;
}
/* importing one message, so that the area counts as changed */
s_JamSubPacket *JAM_NewSubPacket(void) { static s_JamSubPacket p; return &p; }
int JAM_PutSubfield(s_JamSubPacket *p,s_JamSubfield *f) { return 0; }
int JAM_AddMessage(s_JamBase *b,s_JamMsgHeader *h,s_JamSubPacket *p,char *t,uint32_t n) { return 0; }
time_t FidoToTime(char *d) { return 0; }
uint32_t JAM_Crc32(char *b,uint32_t n) { return 0; }
extern bool jam_beforefunc(void),jam_afterfunc(bool ok),jam_importfunc(struct MemMessage *mm,struct Area *area);
static int answers(int a,int q)      /* message a answers message q */
{
   if(M(a).re==0xffffffff || M(q).id==0xffffffff) return 0;
   if(M(a).re!=M(q).id) return 0;
   return QUICK || vf_in.rev[a]==vf_in.idv[q];
}
void vf_harness(void)
{
   VF_INPUT();
   int i,k,ok;
   VF_ASSUME(vf_in.lf<2);
   for(i=0;i<3;i++)
   {
      idb[i][0]=vf_in.idv[i]; idb[i][1]='x'; reb[i][0]=vf_in.rev[i]; reb[i][1]='x';
      VF_ASSUME(vf_in.idv[i] && vf_in.rev[i]);
      fd[i][0].LoID=JAMSFLD_REPLYID; fd[i][0].DatLen=2; fd[i][0].Buffer=reb[i]; fd[i][1].LoID=JAMSFLD_MSGID; fd[i][1].DatLen=2; fd[i][1].Buffer=idb[i];
      L[i].to=M(i).to; L[i].first=M(i).first; L[i].next=M(i).next;
   }
   config.cfg_jam_MaxOpen=1; config.cfg_jam_Flags=CFG_JAM_LINK|(QUICK ? CFG_JAM_QUICKLINK : 0); strcpy(area.Path,"b");
   jbNewList(&mm.TextChunks); jbNewList(&mm.SeenBy); jbNewList(&mm.Path);
   VF_CHECK(jam_beforefunc(),"JAM: started");
   VF_CHECK(jam_importfunc(&mm,&area),"JAM: imported");
   lockres=vf_in.lf;
   VF_CHECK(jam_afterfunc(TRUE),"JAM: finished");
   VF_CHECK(!locked,"JAM link: unlocked afterwards");
   for(i=0;i<3;i++) VF_CHECK(live[i]==0,"JAM link: fields freed");
   if(vf_in.lf) { VF_CHECK(!changes[0] && !changes[1] && !changes[2],"JAM link: nothing is changed without the lock"); }
   else for(i=0;i<3;i++)
   {
      VF_CHECK(changes[i]<=1,"JAM link: each header is written at most once");
      if(M(i).to) VF_CHECK(L[i].to==M(i).to,"JAM link: a link that is there is kept");
      else if(L[i].to)
      {
         k=L[i].to-B; VF_CHECK(k>=0 && k<3 && answers(i,k) && (i>=NOLD || k>=NOLD),"JAM link: a message is linked only to the message it answers");
      }
      else { ok=1; for(k=0;k<3;k++) if((i>=NOLD || k>=NOLD) && answers(i,k)) ok=0; VF_CHECK(ok,"JAM link: every answer to or among the new messages is linked"); }
      if(M(i).first) VF_CHECK(L[i].first==M(i).first,"JAM link: the first answer is kept");
      else if(L[i].first) { k=L[i].first-B; VF_CHECK(k>=0 && k<3 && L[k].to==B+i,"JAM link: the first answer answers this message"); }
      if(M(i).next) VF_CHECK(L[i].next==M(i).next,"JAM link: the next answer is kept");
      else if(L[i].next && NOLD==0) { k=L[i].next-B; VF_CHECK(k>=0 && k<3 && k!=i && L[k].to==L[i].to,"JAM link: the next answer answers the same message"); }
   }
   if(!vf_in.lf && NOLD==0) for(i=0;i<3;i++)
   {  /* the chain of a message names all its answers */
      int c[3],x; uint32_t a=L[i].first; for(k=0;k<3;k++) c[k]=0;
      for(x=0;x<3 && a;x++) { k=a-B; if(k<0 || k>2) break; c[k]++; a=L[k].next; }
      for(k=0;k<3;k++) VF_CHECK((c[k]>0)==(L[k].to==B+i) && c[k]<=1,"JAM link: the answers of a message can be followed, each once");
   }
   VF_REACH("end");
}
