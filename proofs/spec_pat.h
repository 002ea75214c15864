#ifndef SPEC_PAT_H
#define SPEC_PAT_H
#include "spec_node.h"
/* One part of a node pattern (NUL terminated, at most 9 characters) against a
   number: an empty pattern matches anything, '*' the rest of the number, '?'
   one digit, any other character itself. */
static int spec_part(const char *pat,unsigned num)
{
   char t[6]; int i,n=spec_putnum(num,t,0); t[n]=0;
   if(pat[0]==0) return 1;
   for(i=0;i<10;i++)
   {
      if(pat[i]=='*') return 1;
      if(pat[i]==0) return i==n;
      if(i>=n) return 0;
      if(pat[i]!='?' && pat[i]!=t[i]) return 0;
   }
   return 0;
}
#endif
