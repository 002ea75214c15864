#ifndef SPEC_NODE_H
#define SPEC_NODE_H
/* Specification of the 4D address order: zones take part only when both are
   known (non-zero), then net, node and point decide, in that order. */
static int spec_sign(long d) { return d>0 ? 1 : d<0 ? -1 : 0; }
static int spec_cmp4d(struct Node4D *a,struct Node4D *b)
{
   if(a->Zone && b->Zone && a->Zone!=b->Zone) return spec_sign((long)a->Zone-(long)b->Zone);
   if(a->Net!=b->Net)   return spec_sign((long)a->Net-(long)b->Net);
   if(a->Node!=b->Node) return spec_sign((long)a->Node-(long)b->Node);
   return spec_sign((long)a->Point-(long)b->Point);
}
static int spec_same4d(struct Node4D *a,struct Node4D *b)
{ return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
#endif
#ifndef SPEC_PRINT4D
#define SPEC_PRINT4D
#ifndef VF_NATIVE
/* digits as functions of the value: shared with the model of sprintf, pinned down by their weighted sum */
unsigned char __CPROVER_uninterpreted_dec0(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec1(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec2(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec3(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec4(uint32_t v);
#endif
/* decimal text of v (<= 65535): the digits are the unique ones whose weighted sum is v */
static int spec_putnum(unsigned v,char *d,int p)
{
   unsigned char g0,g1,g2,g3,g4; int n=1;
#ifdef VF_NATIVE
   g0=v%10; g1=v/10%10; g2=v/100%10; g3=v/1000%10; g4=v/10000%10;
#else
   g0=__CPROVER_uninterpreted_dec0(v); g1=__CPROVER_uninterpreted_dec1(v); g2=__CPROVER_uninterpreted_dec2(v);
   g3=__CPROVER_uninterpreted_dec3(v); g4=__CPROVER_uninterpreted_dec4(v);
   VF_ASSUME(g0<10 && g1<10 && g2<10 && g3<10 && g4<10 && g0+g1*10u+g2*100u+g3*1000u+g4*10000u==v);
#endif
#ifdef SPEC_DEC_FIXED
   n=SPEC_DEC_FIXED;
#else
   if(g1) n=2;
   if(g2) n=3;
   if(g3) n=4;
   if(g4) n=5;
#endif
   if(n>=5) d[p++]='0'+g4;
   if(n>=4) d[p++]='0'+g3;
   if(n>=3) d[p++]='0'+g2;
   if(n>=2) d[p++]='0'+g1;
   d[p++]='0'+g0;
   return p;
}
static void spec_print4d(struct Node4D *a,char *d)
{
   int p=0;
   p=spec_putnum(a->Zone,d,p); d[p++]=':';
   p=spec_putnum(a->Net,d,p);  d[p++]='/';
   p=spec_putnum(a->Node,d,p);
   if(a->Point) { d[p++]='.'; p=spec_putnum(a->Point,d,p); }
   d[p]=0;
}
#endif
