// @props: P17
// @functions: expr_makeexpr expr_eval expr_get expr_getrest expr_free
// @level: bounded
// @bound: the listed expressions with any truth value of each term
// @parts: 1 2 3 4 13
// @unwind: 30
// @lunwind: 30
// @hunwind: 30
// @flags: --max-field-sensitivity-array-size 128
// @unwindset: expr_eval:6
// @desc: AND, OR, NOT and parentheses of filter expressions mean what the documentation says; errors are reported, never guessed
#include <crashmail/crashmail.h>
struct vf_input { int8_t v[5]; };
#include "vf.h"
static const char *ex[]={ "",
 "a", "NOT a", "a and b", "a OR b", "(a or b) and c", "a and (b or c)", "NOT (a or b)", "NOT a or b", "a and NOT (b or c)", "(a)",
 "NOT (a and b) or c", "x\"p and q\" and b", "a or b and c",
 "a and", "a b", "(a or b", "a xor b", "((a and b) or c) and d" };
static int val(int i) { return vf_in.v[i]; }
static int evals,cur;
static int ev(char *s,int *ep,char **es)
{
   int i=-2,r;
   evals++;
   if(s[0]>='a' && s[0]<='d' && s[1]==0) i=s[0]-'a';
   if(cur==12 && strcmp(s,"x\"p and q\"")==0) i=0;
   VF_CHECK(i>=0,"filter expression: terms are passed on as written");
   r=val(i<0 ? 4 : i);
   if(r==-1) { *ep=0; *es="bad"; }
   return r;
}
static void one(int v)
{
   struct expr *e; int i,r,ep=0,want=0,err=0; char *es="";
   int a,b,c,d; 
   cur=v;
   for(i=0;i<5;i++) VF_ASSUME(vf_in.v[i]>=-1 && vf_in.v[i]<=1);
   VF_ASSUME(vf_in.v[4]==0);
   a=val(0); b=val(1); c=val(2); d=val(3);
   e=expr_makeexpr((char *)ex[v]);
   r=expr_eval(e,ev,&ep,&es);
   expr_free(e);
   switch(v)
   {
      case 1: case 10: want=a; err=a<0; break;
      case 2: want=!a; err=a<0; break;
      case 3: want=a&&b; err=a<0||b<0; break;
      case 4: want=a||b; err=a<0||b<0; break;
      case 5: want=(a||b)&&c; err=a<0||b<0||c<0; break;
      case 6: want=a&&(b||c); err=a<0||b<0||c<0; break;
      case 7: want=!(a||b); err=a<0||b<0; break;
      case 8: want=(!a)||b; err=a<0||b<0; break;
      case 9: want=a&&!(b||c); err=a<0||b<0||c<0; break;
      case 11: want=!(a&&b)||c; err=a<0||b<0||c<0; break;
      case 12: want=a&&b; err=a<0||b<0; break;
      case 13: want=(a||b)&&c; err=a<0||b<0||c<0; break;
      case 18: want=((a&&b)||c)&&d; err=a<0||b<0||c<0||d<0; break;
      default: err=1; break;
   }
   if(v==13) { VF_CHECK(r==(err ? -1 : !!want),"filter expression: 'A or B and C' is evaluated from left to right");
      VF_CHECK(err ? r==-1 : r==!!want || r==(a||(b&&c)),"filter expression: value by NOT, AND, OR and parentheses, -1 for anything malformed"); }
   else VF_CHECK(r==(err ? -1 : !!want),"filter expression: value by NOT, AND, OR and parentheses, -1 for anything malformed");
}
void vf_harness(void)
{
   VF_INPUT();
#if VF_PART==1
   one(1); one(2); one(3); one(4); one(5);
#elif VF_PART==2
   one(6); one(7); one(8); one(9);
#elif VF_PART==3
   one(10); one(11); one(12); one(18);
#elif VF_PART==4
   one(14); one(15); one(16); one(17);
#else
   one(13);
#endif
   VF_REACH("end");
}
