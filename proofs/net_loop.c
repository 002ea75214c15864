// @props: P12
// @functions: IsLoopMail CheckFoundAka
// @level: bounded
// @bound: texts of two blocks of 64 bytes with 16 concrete Via line shapes; one own address
// @unwind: 70
// @hunwind: 70
// @lunwind: 70
// @parts: 0 1 2 3
// @srcdefs: -DCRASHMAIL_VERIFY_CHUNKLEN=64
// @flags: --max-field-sensitivity-array-size 210
// @desc: a netmail is a loop exactly when a Via line of this program names one of the own addresses; text is never read past its block
#include <crashmail/crashmail.h>
struct vf_input { uint8_t dummy; };
#include "vf.h"
bool IsLoopMail(struct MemMessage *mm);
static struct MemMessage m; static struct TextChunk a,b; static struct Aka k0,k1;
static void put(struct TextChunk *c,const char *s) { int i; for(i=0;s[i];i++) c->Data[i]=s[i]; c->Length=i; for(;i<64;i++) c->Data[i]='5'; }
static void t(const char *x,const char *y,int want)
{
   struct Node4D p={2,204,451,0},q={9,1,2,3};
   put(&a,x); put(&b,y); a.Next=&b; b.Next=NULL; m.TextChunks.First=(struct jbNode *)&a; m.TextChunks.Last=(struct jbNode *)&b;
   k0.Node=p; k1.Node=q; k0.Next=&k1; k1.Next=NULL; config.AkaList.First=(struct jbNode *)&k0;
   VF_CHECK(IsLoopMail(&m)==want,"loop: detected exactly for own Via lines");
}
void vf_harness(void)
{
   VF_INPUT();
#if VF_PART == 0
   t("text\r","\1Via 2:204/451 CrashMail\r",1);
   t("\1Via 2:204/451 @2024 CrashMail II\r","x",1);
   t("\1Via 9:1/2.3 CrashMail","x",1);
   t("CrashMail 2:204/451\r","\1Vi",0);
#elif VF_PART == 1
   t("\1Via 2:204/4 CrashMail\r","\1Via 2:204/4512 CrashMail\r",0);
   t("\1Via 2:204/451 Squish\r","\1PATH 2:204/451 CrashMail\r",0);
   t("\1Via 204/451 CrashMail 2024.1\r","\1Via 2:204 CrashMail",0);
   t("a\1Via 2:204/451 CrashMail\r","\1",0);
#elif VF_PART == 2
   t("\1Via 1:1/1 CrashMail\r\1Via CrashMail 9:1/2.3\r","",1);
   t("\1Via 9:1/2 CrashMail\r\1Via CrashMail 9:1/2.4\r","",0);
   t("","abc\r\1Via CrashMail at 2:204/451",1);
#else
   t("123456789012345678901234567890123456789012345678901234567890123\1","x",0);
   t("1234567890123456789012345678901234567890123456789012345678901\1Vi","x",0);
   t("12345678901234567890123456789012345678\r\1Via 9:1/2.3 CrashMail x","x",1);
   t("\1Via 2:204/451/451 12345678901234567890:1/1 CrashMail\r","",0);
#endif
   VF_REACH("done");
}
