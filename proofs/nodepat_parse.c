// @props: P03
// @functions: Parse4DPat Parse4DDestPat rawParse4DPat Parse2DPat
// @level: bounded
// @bound: pattern texts of up to 9 characters after the keyword (quick) / 13 (thorough), all byte values
// @defs: -DN=9
// @parts: 0 1 2 3 4 5 6 7 8
// @unwind: 19
// @thorough_defs: -UN -DN=13
// @thorough_unwind: 23
// @desc: reading a pattern text stays inside the pattern, accepts the grammar, and stores each part where it belongs
#include <crashmail/crashmail.h>
struct vf_input { char s[N+1]; unsigned char caps; };
#include "vf.h"

/* Segment k (0 zone, 1 net, 2 node, 3 point) of a well-formed text. */
static int zp,np,pp,len;
static int shape(const char *s)
{
   int i; zp=np=pp=-1;
   for(i=0;i<N && s[i];i++)
   {
      if(s[i]==':')      { if(zp>=0 || np>=0 || pp>=0) return 0; zp=i; }
      else if(s[i]=='/') { if(np>=0 || pp>=0) return 0; np=i; }
      else if(s[i]=='.') { if(pp>=0) return 0; pp=i; }
      else if(!((s[i]>='0' && s[i]<='9') || s[i]=='*' || s[i]=='?')) return 0;
   }
   len=i;
   return 1;
}
/* no part of the text is empty and none is longer than a pattern part can be */
static int wellformed(void)
{
   int b=0;
   if(len==0) return 0;
   if(zp>=0) { if(zp==0 || zp>9) return 0; b=zp+1; }
   if(np>=0) { if(np==b || np-b>9) return 0; b=np+1; }
   if(pp>=0) { if(pp==b || pp-b>9) return 0; b=pp+1; }
   return len>b && len-b<=9;
}
static int is_seg(const char *f,const char *s,int from,int to)
{
   int i;
   for(i=0;i<10;i++)
   {
      if(from+i>=to) return f[i]==0;
      if(f[i]!=s[from+i]) return 0;
   }
   return 0;
}
static int is_const(const char *f,char c) { return f[0]==c && (c==0 || f[1]==0); }
static int has_nul(const char *f) { int i; for(i=0;i<10;i++) if(f[i]==0) return 1; return 0; }

void vf_harness(void)
{
   VF_INPUT();
   static const char *kw[9]={ "","ZONE ","REGION ","NET ","HUB ","NODE ","ZONE","","" };
   static const int ty[6]={ PAT_PATTERN,PAT_ZONE,PAT_REGION,PAT_NET,PAT_HUB,PAT_NODE };
   char s[8+N+1]; char t[N+1]; int i,k=0,r; struct { struct Node4DPat p; char guard; } g; struct { struct Node2DPat p; char guard; } g2;
   for(i=0;i<N;i++) t[i]=vf_in.s[i];
   t[N]=0;
#if VF_PART<=5
   for(k=0;kw[VF_PART][k];k++) s[k]=(vf_in.caps&1) ? (kw[VF_PART][k]==' ' ? ' ' : kw[VF_PART][k]+32) : kw[VF_PART][k];
   for(i=0;i<=N;i++) s[k+i]=t[i];
 #if VF_PART==0
   /* texts that are not keyword forms */
   VF_ASSUME((t[0]<'A' || t[0]>'Z') && (t[0]<'a' || t[0]>'z'));
 #endif
   g.guard=77;
   r=Parse4DPat(s,&g.p);
   VF_CHECK(g.p.Type==ty[VF_PART],"Parse4DPat: the keyword decides the pattern type");
   int ok=shape(t);
   int star=t[0]=='*' && t[1]==0;
   VF_CHECK(!!r==(!!ok),"Parse4DPat: accepts exactly digits, wildcards and ordered separators");
   if(ok && wellformed() && !star)
   {
      /* where the last, unseparated number goes: net after a bare zone, point after '.', node otherwise */
      int b=pp>=0 ? pp+1 : np>=0 ? np+1 : zp>=0 ? zp+1 : 0;
      int lastnet=zp>=0 && np<0 && pp<0;
 #if VF_PART==0
      VF_CHECK(zp>=0 ? is_seg(g.p.Zone,t,0,zp) : is_const(g.p.Zone,'*'),"Parse4DPat: zone part");
      if(!(zp>=0 && np<0 && pp>=0))
      {
         VF_CHECK(np>=0 ? is_seg(g.p.Net,t,zp+1,np) : lastnet ? is_seg(g.p.Net,t,b,len) : is_const(g.p.Net,'*'),"Parse4DPat: net part");
         VF_CHECK(lastnet ? is_const(g.p.Node,'*') : pp>=0 ? is_seg(g.p.Node,t,(np>=0?np:zp)+1,pp) : is_seg(g.p.Node,t,b,len),"Parse4DPat: node part");
         VF_CHECK(lastnet ? is_const(g.p.Point,'*') : pp>=0 ? is_seg(g.p.Point,t,b,len) : is_const(g.p.Point,'0'),"Parse4DPat: point part, 0 when absent");
      }
      VF_REACH("pattern");
 #elif VF_PART==1
      if(zp<0 && np<0 && pp<0) { VF_CHECK(is_seg(g.p.Zone,t,0,len),"Parse4DPat: ZONE number"); VF_REACH("zone"); }
 #elif VF_PART==2 || VF_PART==3
      if(np<0 && pp<0 && zp>=0) { VF_CHECK(is_seg(g.p.Zone,t,0,zp) && is_seg(g.p.Net,t,zp+1,len),"Parse4DPat: REGION/NET zone and net"); VF_REACH("net"); }
 #else
      if(pp<0 && np>=0) { VF_CHECK((zp>=0 ? is_seg(g.p.Zone,t,0,zp) : is_const(g.p.Zone,'*')) && is_seg(g.p.Net,t,zp+1,np) && is_seg(g.p.Node,t,np+1,len),"Parse4DPat: HUB/NODE zone, net and node"); VF_REACH("node"); }
 #endif
   }
 #if VF_PART==0
   if(star) { VF_CHECK(is_const(g.p.Zone,'*') && is_const(g.p.Net,'*') && is_const(g.p.Node,'*') && is_const(g.p.Point,'*'),"Parse4DPat: * alone matches every address"); VF_REACH("star"); }
 #endif
   VF_CHECK(g.guard==77 && has_nul(g.p.Zone) && has_nul(g.p.Net) && has_nul(g.p.Node) && has_nul(g.p.Point),"Parse4DPat: stays inside the pattern");
#elif VF_PART==6
   static const char *dk[5]={ "ZONE","REGION","NET","HUB","NODE" }; static const int dt[5]={ PAT_ZONE,PAT_REGION,PAT_NET,PAT_HUB,PAT_NODE };
   int j;
   for(j=0;j<5;j++)
   {
      for(k=0;dk[j][k];k++) s[k]=(vf_in.caps&1) ? dk[j][k]+32 : dk[j][k];
      s[k]=0;
      VF_CHECK(Parse4DDestPat(s,&g.p) && g.p.Type==dt[j],"Parse4DDestPat: keyword decides the destination type");
   }
#elif VF_PART==7
   VF_ASSUME((t[0]<'A' || t[0]>'Z') && (t[0]<'a' || t[0]>'z'));
   g.guard=77;
   r=Parse4DDestPat(t,&g.p);
   int ok=shape(t),star=t[0]=='*' && t[1]==0;
   VF_CHECK(g.p.Type==PAT_PATTERN && !!r==!!ok,"Parse4DDestPat: accepts exactly digits, wildcards and ordered separators");
   if(ok && wellformed() && !star && np>=0)
   {
      VF_CHECK((zp>=0 ? is_seg(g.p.Zone,t,0,zp) : is_const(g.p.Zone,'*')) && is_seg(g.p.Net,t,zp+1,np) &&
               (pp>=0 ? is_seg(g.p.Node,t,np+1,pp) && is_seg(g.p.Point,t,pp+1,len) : is_seg(g.p.Node,t,np+1,len) && is_const(g.p.Point,'0')),"Parse4DDestPat: every part where it belongs");
      VF_REACH("dest");
   }
   VF_CHECK(g.guard==77 && has_nul(g.p.Zone) && has_nul(g.p.Net) && has_nul(g.p.Node) && has_nul(g.p.Point),"Parse4DDestPat: stays inside the pattern");
#else
   g2.guard=77;
   r=Parse2DPat(t,&g2.p);
   int ok=shape(t) && zp<0 && pp<0,star=t[0]=='*' && t[1]==0;
   VF_CHECK(!!r==!!ok,"Parse2DPat: accepts exactly digits, wildcards and one slash");
   if(ok && wellformed() && !star)
   { VF_CHECK((np>=0 ? is_seg(g2.p.Net,t,0,np) : is_const(g2.p.Net,'*')) && is_seg(g2.p.Node,t,np+1,len),"Parse2DPat: net and node"); VF_REACH("2d"); }
   VF_CHECK(g2.guard==77 && has_nul(g2.p.Net) && has_nul(g2.p.Node),"Parse2DPat: stays inside the pattern");
#endif
   VF_REACH("end");
}
