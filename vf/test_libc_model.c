/* Compares the formatting engine of libc_model.c with the real libc (random
   formats of the kinds crashmail uses and random arguments). */
#define VF_MODEL_TEST
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { const void *p; size_t z; } A[4]; static int cur;
static uint64_t vf_arg(const void *p,int sgn)
{
   size_t s=A[cur].z;
   if(s==8) return *(const uint64_t *)p;
   if(s==4) return sgn ? (uint64_t)(int64_t)*(const int32_t *)p : (uint64_t)*(const uint32_t *)p;
   if(s==2) return *(const uint16_t *)p;
   return sgn ? (uint64_t)(int64_t)*(const signed char *)p : (uint64_t)*(const signed char *)p;
}
#define PEEK(ap) (A[cur].p)
#define SKIP(ap) ((void)cur++)
#define VF_SIZE(p) (A[cur].z)
#define DECLEN(z) ((z)<=2 ? 5 : (z)<=4 ? 10 : 20)
#define VF_UNMODELLED() abort()
#include "libc_model.c"
static int model(char *d,size_t lim,const char *f,...) { va_list ap; int r; va_start(ap,f); cur=0; r=vf_fmt(d,lim,f,ap); va_end(ap); return r; }
int main(void)
{
   int n,bad=0;
   srand(1);
   for(n=0;n<300000;n++)
   {
      static const char *fl[]={"","-","0","2","02","5","08","-8","-20","10"};
      static const char *cv[]={"u","d","x","X","lu","s","c",".3s","04x","03u"};
      const char *c=cv[rand()%10]; char f[64],x[256],y[256]; int rx,ry; size_t lim;
      const char *w=(c[0]>='0' && c[0]<='9') ? "" : fl[rand()%10];
      uint32_t u=(uint32_t)rand()>>(rand()%31); if(rand()%4==0) u=-u; uint16_t h=(uint16_t)u; uint64_t l=u; char ch='A'+rand()%50;
      char sb[16]; const char *s=sb; int i,k=rand()%15; int kind=c[strlen(c)-1];
      for(i=0;i<k;i++) sb[i]='a'+rand()%26; sb[k]=0;
      if((kind=='s' || kind=='c') && (w[0]=='0')) w="";
      if(kind=='c') w="";
      snprintf(f,sizeof(f),"<%%%s%s|%%%%>",w,c);
      memset(x,0,256); memset(y,0,256); lim=rand()%3 ? 250 : (size_t)(rand()%12);
      if(kind=='s') { A[0].p=&s; A[0].z=8; ry=snprintf(y,lim+1,f,s); }
      else if(kind=='c') { A[0].p=&ch; A[0].z=1; ry=snprintf(y,lim+1,f,ch); }
      else if(c[0]=='l') { A[0].p=&l; A[0].z=8; ry=snprintf(y,lim+1,f,l); }
      else if(rand()%2 && kind!='d') { A[0].p=&h; A[0].z=2; ry=snprintf(y,lim+1,f,h); }
      else { A[0].p=&u; A[0].z=4; ry=snprintf(y,lim+1,f,u); }
      rx=model(x,lim,f);
      if(rx!=ry || strcmp(x,y)!=0) { printf("DIFFERENT %s: model \"%s\" (%d), libc \"%s\" (%d)\n",f,x,rx,y,ry); if(++bad>5) return 1; }
   }
   if(!bad) printf("libc model: 300000 formats agree\n");
   return bad!=0;
}
