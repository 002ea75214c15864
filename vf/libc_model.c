/* Trusted model of the libc formatted-output functions used by crashmail,
   linked only into the cbmc program (cbmc ships no body for them).  It is
   differentially tested against the real libc by vf/test_libc_model.c.

   cbmc hands variadic arguments over unpromoted (a uint16_t argument is a
   two byte object), so arguments are fetched by the size of the object.     */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#ifndef VF_MODEL_TEST
unsigned char __CPROVER_uninterpreted_dec0(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec1(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec2(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec3(uint32_t v);
unsigned char __CPROVER_uninterpreted_dec4(uint32_t v);

static uint64_t vf_arg(const void *p,int sgn)
{
   size_t s=__CPROVER_OBJECT_SIZE(p);
   if(s==8) return *(const uint64_t *)p;
   if(s==4) return sgn ? (uint64_t)(int64_t)*(const int32_t *)p : (uint64_t)*(const uint32_t *)p;
   if(s==2) return *(const uint16_t *)p;      /* every two byte argument in crashmail is a uint16_t */
   return sgn ? (uint64_t)(int64_t)*(const signed char *)p : (uint64_t)*(const signed char *)p;
}
#define PEEK(ap) (*(const void **)(ap))
#define SKIP(ap) ((void)va_arg(ap,char))
#define VF_SIZE(p) __CPROVER_OBJECT_SIZE(p)
#define DECLEN(z) ((z)<=2 ? 5 : (z)<=4 ? 10 : 20)
#define VF_UNMODELLED() __CPROVER_assert(0,"libc model: conversion not modelled")
#endif

static void vf_put(char *d,size_t lim,size_t *n,char ch)
{ if(*n<lim) d[*n]=ch; (*n)++; }

/* decimal digits, least significant first; returns their number */
static int vf_dec(uint64_t v,char *t,size_t sz)
{
#if !defined(VF_MODEL_TEST) && !defined(VF_DEC_DIV)   /* VF_DEC_DIV: plain division, for concrete numbers */
   /* the digits are the unique ones whose weighted sum is v */
   if(sz<=2)
   {
      uint32_t w=(uint32_t)v; int k=1;
      unsigned char a=__CPROVER_uninterpreted_dec0(w),b=__CPROVER_uninterpreted_dec1(w),c=__CPROVER_uninterpreted_dec2(w),
                    e=__CPROVER_uninterpreted_dec3(w),g=__CPROVER_uninterpreted_dec4(w);
      __CPROVER_assume(a<10 && b<10 && c<10 && e<10 && g<7);
      __CPROVER_assume(a+b*10u+c*100u+e*1000u+g*10000u==w);
#ifdef VF_DEC_FIXED
      /* the harness only uses numbers of this many digits: keeps text positions constant */
      { static const uint32_t lo[6]={0,0,10,100,1000,10000}; static const uint32_t hi[6]={0,9,99,999,9999,65535};
        __CPROVER_assert(w>=lo[VF_DEC_FIXED] && w<=hi[VF_DEC_FIXED],"libc model: number outside the fixed width of this proof"); }
      t[0]='0'+a; t[1]='0'+b; t[2]='0'+c; t[3]='0'+e; t[4]='0'+g;
      return VF_DEC_FIXED;
#endif
      t[0]='0'+a; t[1]='0'+b; t[2]='0'+c; t[3]='0'+e; t[4]='0'+g;
      if(b) k=2;
      if(c) k=3;
      if(e) k=4;
      if(g) k=5;
      return k;
   }
   if(sz<=4)
   {
      int k=1; uint64_t sum=0; int i; uint64_t q=1;
      for(i=0;i<10;i++) { unsigned char x; __CPROVER_assume(x<10); t[i]='0'+x; if(x) k=i+1; sum+=x*q; q*=10; }
      __CPROVER_assume(sum==v);
      return k;
   }
#endif
   { int k=0; do { t[k++]=(char)('0'+v%10); v/=10; } while(v!=0 && k<20); return k; }
}

static int vf_hex(uint64_t v,char *t,int up)
{
   int k=1,i;
   for(i=0;i<16;i++) { unsigned q=(unsigned)((v>>(4*i))&15); t[i]=(char)(q<10?'0'+q:(up?'A':'a')+(q-10)); if(q) k=i+1; }
   return k;
}

/* maxk: most digits the argument's type can have; all loop bounds are constants of the call */
static void vf_num(char *d,size_t lim,size_t *n,char *t,int k,int maxk,int neg,int width,int zero,int left)
{
   int p=width-k-(neg?1:0),j;
   if(neg && zero) vf_put(d,lim,n,'-');
   if(!left) for(j=0;j<width;j++) if(j<p) vf_put(d,lim,n,zero?'0':' ');
   if(neg && !zero) vf_put(d,lim,n,'-');
   for(j=maxk-1;j>=0;j--) if(j<k) vf_put(d,lim,n,t[j]);
   if(left) for(j=0;j<width;j++) if(j<p) vf_put(d,lim,n,' ');
}

static int vf_fmt(char *d,size_t lim,const char *f,va_list ap)
{
   size_t n=0; size_t i=0;
   while(f[i])
   {
      if(f[i]!='%') { vf_put(d,lim,&n,f[i]); i++; continue; }
      i++;
      { int left=0,zero=0,width=0,prec=-1; char t[22];
        if(f[i]=='-') { left=1; i++; }
        if(f[i]=='0') { zero=1; i++; }
        while(f[i]>='0' && f[i]<='9') { width=width*10+(f[i]-'0'); i++; }
        if(f[i]=='.') { i++; prec=0; while(f[i]>='0' && f[i]<='9') { prec=prec*10+(f[i]-'0'); i++; } }
        while(f[i]=='l' || f[i]=='z' || f[i]=='h') i++;
        switch(f[i])
        {
           case '%': vf_put(d,lim,&n,'%'); break;
           case 'c': { char c=*(const char *)PEEK(ap); SKIP(ap); vf_put(d,lim,&n,c); break; }
           case 'u': { size_t z=VF_SIZE(PEEK(ap)); uint64_t v=vf_arg(PEEK(ap),0); int k; SKIP(ap); k=vf_dec(v,t,z); vf_num(d,lim,&n,t,k,DECLEN(z),0,width,zero,left); break; }
           case 'x':
           case 'X': { size_t z=VF_SIZE(PEEK(ap)); uint64_t v=vf_arg(PEEK(ap),0); int k; SKIP(ap); k=vf_hex(v,t,f[i]=='X'); vf_num(d,lim,&n,t,k,z==1?8:2*z,0,width,zero,left); break; }
           case 'd':
           case 'i': { size_t z=VF_SIZE(PEEK(ap)); int64_t v=(int64_t)vf_arg(PEEK(ap),1); int k; SKIP(ap);
                     k=vf_dec(v<0 ? 0-(uint64_t)v : (uint64_t)v,t,z); vf_num(d,lim,&n,t,k,DECLEN(z),v<0,width,zero,left); break; }
           case 's': { const char *s=*(const char *const *)PEEK(ap); int k=0,l=0; SKIP(ap);
                     if(width!=0 && !left) { while((prec<0 || l<prec) && s[l]) l++; for(;l<width;l++) vf_put(d,lim,&n,' '); }
                     while((prec<0 || k<prec) && s[k]) { vf_put(d,lim,&n,s[k]); k++; }
                     if(left) for(;k<width;k++) vf_put(d,lim,&n,' ');
                     break; }
           default: VF_UNMODELLED(); break;
        }
        i++;
      }
   }
   return (int)n;
}

#ifndef VF_MODEL_TEST
int sprintf(char *d,const char *f,...)
{ va_list ap; int r; va_start(ap,f); r=vf_fmt(d,(size_t)-1,f,ap); va_end(ap); d[r]=0; return r; }
int vsprintf(char *d,const char *f,va_list ap)
{ int r=vf_fmt(d,(size_t)-1,f,ap); d[r]=0; return r; }
int vsnprintf(char *d,size_t m,const char *f,va_list ap)
{ int r=vf_fmt(d,m?m-1:0,f,ap); if(m) d[(size_t)r<m-1?(size_t)r:m-1]=0; return r; }
int snprintf(char *d,size_t m,const char *f,...)
{ va_list ap; int r; va_start(ap,f); r=vsnprintf(d,m,f,ap); va_end(ap); return r; }
int printf(const char *f,...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }

/* cbmc's own strcpy/strcat refuse any copy inside one object; the standard
   forbids only overlapping ranges, and crashmail copies between members. */
static int vf_apart(const char *d,size_t dn,const char *s,size_t sn)
{
   if(__CPROVER_POINTER_OBJECT(d)!=__CPROVER_POINTER_OBJECT(s)) return 1;
   { size_t a=__CPROVER_POINTER_OFFSET(d),b=__CPROVER_POINTER_OFFSET(s); return a+dn<=b || b+sn<=a; }
}
char *strcpy(char *d,const char *s)
{
   size_t n=0; char c;
   do { c=s[n]; d[n]=c; n++; } while(c);
   __CPROVER_assert(vf_apart(d,n,s,n),"strcpy: source and destination do not overlap");
   return d;
}
char *strcat(char *d,const char *s)
{
   size_t i=0,n=0; char c;
   while(d[i]) i++;
   do { c=s[n]; d[i+n]=c; n++; } while(c);
   __CPROVER_assert(vf_apart(d,i+n,s,n),"strcat: source and destination do not overlap");
   return d;
}
char *strncpy(char *d,const char *s,size_t m)
{
   size_t n; int end=0;
   for(n=0;n<m;n++) { char c=0; if(!end) { c=s[n]; if(!c) end=1; } d[n]=c; }
   return d;
}
char *strncat(char *d,const char *s,size_t m)
{
   size_t i=0,n=0;
   while(d[i]) i++;
   for(;n<m && s[n];n++) d[i+n]=s[n];
   d[i+n]=0;
   return d;
}
size_t strspn(const char *s,const char *set)
{ size_t n=0; for(;s[n];n++) { size_t k=0; while(set[k] && set[k]!=s[n]) k++; if(!set[k]) break; } return n; }
size_t strcspn(const char *s,const char *set)
{ size_t n=0; for(;s[n];n++) { size_t k=0; while(set[k] && set[k]!=s[n]) k++; if(set[k]) break; } return n; }
char *strpbrk(const char *s,const char *set)
{ size_t n=strcspn(s,set); return s[n] ? (char *)s+n : (char *)0; }
char *strstr(const char *h,const char *n)
{ size_t i=0; for(;;i++) { size_t k=0; while(n[k] && h[i+k]==n[k]) k++; if(!n[k]) return (char *)h+i; if(!h[i]) return (char *)0; } }
void *memmem(const void *h,size_t hl,const void *n,size_t nl)
{ size_t i=0; for(;i+nl<=hl;i++) { size_t k=0; while(k<nl && ((const char *)h)[i+k]==((const char *)n)[k]) k++; if(k==nl) return (char *)h+i; } return (void *)0; }
size_t strnlen(const char *s,size_t m) { size_t n=0; while(n<m && s[n]) n++; return n; }

#ifdef VF_MEMLOOP
/* byte-wise copies: cheaper than cbmc's array copies when lengths are symbolic and small */
void *memcpy(void *d,const void *s,size_t n)
{
   size_t i; char *a=(char *)d; const char *b=(const char *)s;
   __CPROVER_assert(n==0 || vf_apart(a,n,b,n),"memcpy: source and destination do not overlap");
   for(i=0;i<n;i++) a[i]=b[i];
   return d;
}
void *memmove(void *d,const void *s,size_t n)
{
   size_t i; char *a=(char *)d; const char *b=(const char *)s;
   if(__CPROVER_POINTER_OBJECT(a)==__CPROVER_POINTER_OBJECT(b) && __CPROVER_POINTER_OFFSET(a)>__CPROVER_POINTER_OFFSET(b))
      for(i=n;i>0;i--) a[i-1]=b[i-1];
   else
      for(i=0;i<n;i++) a[i]=b[i];
   return d;
}
#endif

/* insertion sort: one of the orders the standard allows */
void qsort(void *base,size_t n,size_t size,int (*cmp)(const void *,const void *))
{
   size_t i,j,k; char *b=(char *)base;
   for(i=1;i<n;i++)
      for(j=i;j>0 && cmp(b+(j-1)*size,b+j*size)>0;j--)
         for(k=0;k<size;k++) { char t=b[(j-1)*size+k]; b[(j-1)*size+k]=b[j*size+k]; b[j*size+k]=t; }
}
#endif

#include "ctype_table.h"
static const unsigned short *vf_ctype_b_ptr=&vf_ctype_b[128];
const unsigned short **__ctype_b_loc(void) { return &vf_ctype_b_ptr; }

#ifdef VF_MEMMOVE   /* byte loop instead of cbmc's array copy of symbolic size */
void *memmove(void *d,const void *s,__CPROVER_size_t n)
{
   char *p=d; const char *q=s; __CPROVER_size_t i;
   if(p==q) return d;
   if(p<q) for(i=0;i<n;i++) p[i]=q[i];
   else for(i=n;i>0;i--) p[i-1]=q[i-1];
   return d;
}
#endif
