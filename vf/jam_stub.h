/* Contract stubs of the JAM library for proofs about mb_jam.c: recording
   subfields and the stored message.  The library itself is verified in
   jam_store, jam_change and jam_damaged.                                   */
#include <jamlib/jam.h>
#define RMAX 12
#define RPOOL 260
static int rec_id[RMAX],rec_len[RMAX],rec_at[RMAX],nrec,rec_n; static char rec_d[RPOOL];
static s_JamBase *jb[2]; static int jopen,locked,lockres,unlockres,nlocks,nunlocks,added,addres,delpk,crcbad; static s_JamMsgHeader ah; static char at_[JS_TEXT]; static int atl; static s_JamSubPacket *curpk;
int JAM_OpenMB(char *n,s_JamBase **p) { VF_CHECK(jopen<2,"JAM: base opened once"); *p=malloc(sizeof(s_JamBase)); VF_ASSUME(*p!=0); jb[jopen++]=*p; return 0; }
int JAM_CloseMB(s_JamBase *b) { return 0; }
int JAM_GetMBSize(s_JamBase *b,uint32_t *n) { *n=js_size; return 0; }
int JAM_ReadMBHeader(s_JamBase *b,s_JamBaseHeader *h) { h->BaseMsgNum=js_base; return 0; }
int JAM_LockMB(s_JamBase *b,int t) { VF_CHECK(b==jb[0] && !locked && t!=0,"JAM: the area's base is locked"); nlocks++; if(lockres) return JAM_LOCK_FAILED; locked=1; return 0; }
int JAM_UnlockMB(s_JamBase *b) { VF_CHECK(b==jb[0] && locked,"JAM: a locked base is unlocked"); locked=0; nunlocks++; return unlockres; }
time_t time(time_t *t) { if(t) *t=1000; return 1000; }
static struct tm js_tm;
struct tm *gmtime(const time_t *t) { return &js_tm; }
time_t mktime(struct tm *t) { return (time_t)1000+js_off; }
void LogWrite(uint32_t p,uint32_t cat,char *s,...) {}
