// @props: P01
// @functions: Parse4DTemplate Parse4D Copy4D
// @level: bounded
// @bound: address texts of up to 7 characters (quick) / 9 characters (thorough), all byte values
// @defs: -DN=7
// @unwind: 10
// @thorough_defs: -UN -DN=9
// @thorough_unwind: 12
// @desc: Parse4D/Parse4DTemplate accept exactly the address grammar and deliver exactly the named parts
#include <stdint.h>
#include <string.h>
#include <shared/node4d.h>
struct vf_input { char s[N+1]; struct Node4D tpl; struct Node4D junk; unsigned char zero; };
#include "vf.h"
#include "spec_node.h"

/* Independent statement of the grammar:  [zone ':'] [net '/'] [node] ['.' point]
   in which every number may be missing; a lone number is a node, a number
   after "zone:" with no '/' is a net.  Parts that are not named come from tpl. */
static int spec_parse(const char *s,const struct Node4D *tpl,struct Node4D *out)
{
   int len=0,zp=-1,np=-1,pp=-1,i;
   for(i=0;i<N && s[i];i++)
   {
      if(s[i]==':')      { if(zp>=0 || np>=0 || pp>=0) return 0; zp=i; }
      else if(s[i]=='/') { if(np>=0 || pp>=0) return 0; np=i; }
      else if(s[i]=='.') { if(pp>=0) return 0; pp=i; }
      else if(s[i]<'0' || s[i]>'9') return 0;
   }
   len=i;
   uint32_t v=0; int digits=0; int end;
   *out=*tpl;
   /* walk the fields left to right */
   int field_end_is_zone=zp,field_end_is_net=np,field_end_is_node=pp;
   for(i=0;i<=len && i<=N;i++)
   {
      if(i==len || i==zp || i==np || i==pp)
      {
         if(digits)
         {
            if(i<len && i==zp)      out->Zone=(uint16_t)v;
            else if(i<len && i==np) out->Net=(uint16_t)v;
            else if(i<len && i==pp) out->Node=(uint16_t)v;
            else if(zp>=0 && np<0)  out->Net=(uint16_t)v;
            else if(pp>=0)          out->Point=(uint16_t)v;
            else                    out->Node=(uint16_t)v;
         }
         v=0; digits=0;
      }
      else { v=v*10+(uint32_t)(s[i]-'0'); digits=1; }
   }
   return 1;
}

void vf_harness(void)
{
   VF_INPUT();
   char s[N+1]; struct Node4D tpl=vf_in.tpl,out=vf_in.junk,want,z={0,0,0,0}; int i,r,w;
   for(i=0;i<N;i++) s[i]=vf_in.s[i];
   s[N]=0;
   if(vf_in.zero & 1)
   {
      r=Parse4D(s,&out); w=spec_parse(s,&z,&want);
      VF_CHECK(!!r==!!w,"Parse4D: accepts exactly the address grammar");
      if(w) { VF_CHECK(spec_same4d(&out,&want),"Parse4D: every part has the value the text gives it, 0 if absent"); VF_REACH("parse4d ok"); }
   }
   else
   {
      r=Parse4DTemplate(s,&out,&tpl); w=spec_parse(s,&vf_in.tpl,&want);
      VF_CHECK(!!r==!!w,"Parse4DTemplate: accepts exactly the address grammar");
      if(w) { VF_CHECK(spec_same4d(&out,&want),"Parse4DTemplate: named parts from the text, others from the template"); VF_REACH("template ok"); }
      VF_CHECK(spec_same4d(&tpl,&vf_in.tpl),"Parse4DTemplate: template unchanged");
   }
   VF_REACH("end");
}
