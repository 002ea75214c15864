From d501f867e3e3a46357ba8f36105c8823ae310d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 01/63] fix: node patterns: an empty first part was copied from
 an uninitialised buffer

---
 src/crashmail/node4dpat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..3028c11 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -3,7 +3,7 @@
 bool rawParse4DPat(char *buf, struct Node4DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
    strcpy(node->Zone,"*");
@@ -315,7 +315,7 @@ bool Check4DPatNodelist(struct Node4DPat *pat)
 bool Parse2DPat(char *buf, struct Node2DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotNet=FALSE;
 
    strcpy(node->Net,"*");
-- 
2.43.0


From 1708341159a5b013bc20efff66c6318fb5b020b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:40 +0000
Subject: [PATCH 02/63] fix: expanding packer and filter commands could write
 past the end of the buffer

---
 src/crashmail/misc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..8546171 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -23,10 +23,10 @@ void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
@@ -120,10 +120,10 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
-- 
2.43.0


From 6db3806cca7e4faec0860a1300269318c93fa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:40 +0000
Subject: [PATCH 03/63] fix: striptrail read before empty strings and removed
 trailing 8-bit characters

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 8546171..c0e33c4 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From bc05a92a50d24ac6503ce5f28910caaef9e2d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:30 +0000
Subject: [PATCH 04/63] hook: CRASHMAIL_VERIFY_CHUNKLEN lets the proofs use
 small text chunks

---
 src/crashmail/memmessage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crashmail/memmessage.h b/src/crashmail/memmessage.h
index 118bb5c..f2360c2 100644
--- a/src/crashmail/memmessage.h
+++ b/src/crashmail/memmessage.h
@@ -1,7 +1,11 @@
 #ifndef MEMMESSAGE_H
 #define MEMMESSAGE_H
 
+#ifdef CRASHMAIL_VERIFY_CHUNKLEN   /* smaller chunks for the proofs */
+#define PKT_CHUNKLEN  CRASHMAIL_VERIFY_CHUNKLEN
+#else
 #define PKT_CHUNKLEN  10000
+#endif
 #define PKT_NUM2D        50
 #define PKT_NUMPATH      10
 
-- 
2.43.0


From 56c190b1f05f1ca50fe2cc17601a3b0d570e3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:30 +0000
Subject: [PATCH 05/63] fix: removing a node from the SEEN-BY list compared its
 node number with the list index

---
 src/crashmail/memmessage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..4f92dd2 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -49,7 +49,7 @@ void mmRemNodes2DList(struct jbList *list,uint16_t net,uint16_t node)
 
    for(tmplist=(struct Nodes2D *)list->First;tmplist;tmplist=tmplist->Next)
       for(num=0;num<tmplist->Nodes;num++)
-         if(tmplist->Net[num]==net && tmplist->Node[num]==num)
+         if(tmplist->Net[num]==net && tmplist->Node[num]==node)
          {
             tmplist->Net[num]=0;
             tmplist->Node[num]=0;
-- 
2.43.0


From 55f4343ae7e959eaa531099fd4990db2e5913746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 06/63] fix: extracting the address of an origin line read past
 the end of the line

---
 src/crashmail/misc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index c0e33c4..c4acbf4 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -589,12 +589,15 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=0 && origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
+   if(origin[pos]==0)
+      return(FALSE);
+
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=0 && origin[pos]!=')' && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From 2ef95e4e9cebd2d5fc45a24e5b35b6b1af45f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 07/63] fix: control lines without a value were read past their
 end

---
 src/crashmail/memmessage.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 4f92dd2..f5db62e 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -372,7 +372,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01MSGID:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
+      for(d=0,c=(kludge[7] ? 8 : 7);d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
          mm->MSGID[d]=kludge[c];
          
       mm->MSGID[d]=0;
@@ -380,7 +380,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01REPLY:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
+      for(d=0,c=(kludge[7] ? 8 : 7);d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
          mm->REPLY[d]=kludge[c];
          
       mm->REPLY[d]=0;
@@ -389,20 +389,19 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    if(mm->Area[0]==0)
    {
       if(strncmp(kludge,"\x01" "FMPT",5)==0)
-         mm->OrigNode.Point=atoi(&kludge[6]);
+         mm->OrigNode.Point=atoi(&kludge[kludge[5] ? 6 : 5]);
 
       if(strncmp(kludge,"\x01TOPT",5)==0)
-          mm->DestNode.Point=atoi(&kludge[6]);
+          mm->DestNode.Point=atoi(&kludge[kludge[5] ? 6 : 5]);
 
       if(strncmp(kludge,"\x01INTL",5)==0)
       {
-         if(kludge[5]==':')
-            c=7;
+         c=5;
 
-         else
-            c=6;
+         if(kludge[c]==':') c++;
+         if(kludge[c]!=0)   c++;
 
-         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0;c++,d++)
+         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0 && kludge[c]!=13;c++,d++)
             buf[d]=kludge[c];
 
          buf[d]=0;
@@ -435,10 +434,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 bool mmAddLine(struct MemMessage *mm,char *buf)
 {
    if(mm->Area[0] && strncmp(buf,"SEEN-BY:",8)==0)
-      return AddSeenby(&buf[9],&mm->SeenBy);
+      return AddSeenby(&buf[8],&mm->SeenBy);
 
    else if(mm->Area[0] && strncmp(buf,"\x01PATH:",6)==0)
-      return mmAddPath(&buf[7],&mm->Path);
+      return mmAddPath(&buf[buf[6] ? 7 : 6],&mm->Path);
 
  	else if(mm->Area[0] && strncmp(buf," * Origin: ",11)==0)
 	{
-- 
2.43.0


From dd98f5cd5fb6ecd08f95842914760b6c59cb0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:52 +0000
Subject: [PATCH 08/63] fix: filter substring search skipped matches and
 indexed its table with negative characters

---
 src/crashmail/filter.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..d70e446 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=len;
 
-   for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
+   for(i=0;i<len-1;i++)
+      bmstep[tolower((unsigned char)pat[i])]=len-i-1;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
@@ -37,7 +34,7 @@ long bmfind(char *pat,char *text,long textlen,long start)
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      i+=bmstep[tolower((unsigned char)text[i+len-1])];
    }
 
    return(-1);
-- 
2.43.0


From 5bb9d2900f277c793832934e5158dd2b87f1231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:52 +0000
Subject: [PATCH 09/63] fix: NOT before parentheses only negated the first term
 in filter expressions

---
 src/shared/expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..a14789e 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -72,10 +72,13 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          res->buf[0]=0;
 
          if(hasnot)
-            strcat(res->buf,"NOT ");
+            strcat(res->buf,"NOT (");
 
          strncat(res->buf,&expr->buf[start],len);
 
+         if(hasnot)
+            strcat(res->buf,")");
+
          expr->parsepos=d;
 
          return(res);
@@ -258,7 +261,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From 39df47f70121c26b885a5fab7bcebde1d0a396cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 10/63] fix: error texts of filter expressions could overflow
 their buffer

---
 src/crashmail/filter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index d70e446..ecdd100 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -55,7 +55,7 @@ int filter_nllookup(struct Node4D *node)
 
 int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct Node4DPat pat;
 
    if(operator[0]==0)
@@ -98,7 +98,7 @@ int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,i
 
 int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -143,7 +143,7 @@ int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,i
 
 int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -187,7 +187,7 @@ int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int d
 
 int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct TextChunk *chunk;
    long start,pos,c;
 
@@ -232,7 +232,7 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 int filter_evalfunc(char *str,int *errpos,char **errstr)
 {
    char type[20],source[20];
-   static char errbuf[100];
+   static char errbuf[200];
    struct Aka *aka;
    struct ConfigNode *cnode;
    bool fileattach,tolocalaka,fromlocalaka,tolocalpoint,fromlocalpoint;
-- 
2.43.0


From 63b6376a80f55013d880dbade783a5bfd80b6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:41 +0000
Subject: [PATCH 11/63] fix: long filter expressions with syntax errors were
 accepted

---
 src/crashmail/filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index ecdd100..7ad713c 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -1112,9 +1112,9 @@ bool CheckFilter(char *filter,char *cfgerr)
    	   strcat(cfgerr,"\n");
          strcat(cfgerr," ");
          strcat(cfgerr,errstr);
-
-	      return(FALSE);
 		}
+
+      return(FALSE);
    }
 
    return(TRUE);
-- 
2.43.0


From a3f15ce77a89be0e81bc5bb845e0152432a51733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:34 +0000
Subject: [PATCH 12/63] fix: a last text line without line end was read past
 the end of its text block

---
 src/crashmail/filter.c | 4 ++--
 src/crashmail/handle.c | 8 ++++----
 src/crashmail/mb_jam.c | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 7ad713c..1a7655a 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -781,7 +781,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-         if(tmp->Data[d]==13) d++;
+         if(d<tmp->Length && tmp->Data[d]==13) d++;
 
 			skip=FALSE;
 
@@ -896,7 +896,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		while(c<tmp->Length)
 	  	{
 			for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-		 	if(tmp->Data[d]==13) d++;
+		 	if(d<tmp->Length && tmp->Data[d]==13) d++;
 
 			skip=FALSE;
 
diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..3a25189 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -785,7 +785,7 @@ bool IsLoopMail(struct MemMessage *mm)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-         if(tmp->Data[d]==13) d++;
+         if(d<tmp->Length && tmp->Data[d]==13) d++;
 
          if(strncmp(&tmp->Data[c],"\x01Via",4)==0)
          {
@@ -1264,8 +1264,8 @@ bool HandleNetmail(struct MemMessage *mm)
                if(chunk->Data[c]!=1)
                   istext=TRUE;
 
-               while(chunk->Data[c]!=13 && c<chunk->Length) c++;
-               if(chunk->Data[c]==13) c++;
+               while(c<chunk->Length && chunk->Data[c]!=13) c++;
+               if(c<chunk->Length) c++;
             }
       }
 
@@ -1445,7 +1445,7 @@ bool HandleNetmail(struct MemMessage *mm)
                   while(c<tmp->Length)
                   {
                      for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-                     if(tmp->Data[d]==13) d++;
+                     if(d<tmp->Length && tmp->Data[d]==13) d++;
 
                      if(tmp->Data[c]==1)
                      {
diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..4c61286 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -448,7 +448,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
       {
 			linebegin=msgpos;
 			
-         while(chunk->Data[c]!=13 && c<chunk->Length)
+         while(c<chunk->Length && chunk->Data[c]!=13)
 			{ 
 				if(chunk->Data[c]!=10)
 					msgtext[msgpos++]=chunk->Data[c];
@@ -456,7 +456,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 				c++;
 			}
 
-         if(chunk->Data[c]==13 && c<chunk->Length)
+         if(c<chunk->Length && chunk->Data[c]==13)
 				msgtext[msgpos++]=chunk->Data[c++];
 
 			linelen=msgpos-linebegin;
-- 
2.43.0


From d420f7ad2c80eecca99c1581c5606909e0a53450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 13/63] fix: writing RFC files read past the end of text blocks
 and cut kludges without line end

---
 src/crashmail/misc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index c4acbf4..9844e78 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -676,7 +676,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
    char *domain;
    struct Aka *aka;
    struct TextChunk *tmp;
-   uint32_t c,d,lastspace;
+   uint32_t c,d,l,lastspace;
    char buffer[100],fromaddr[100],toaddr[100];
 
    for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
@@ -751,14 +751,15 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13 && tmp->Data[d]!=10;d++);
-         if(tmp->Data[d]==13 || tmp->Data[d]==10) d++;
+         l=d-c;
+         if(d<tmp->Length) d++;
 
-         if(tmp->Data[c]==1 && d-c-2!=0)
+         if(tmp->Data[c]==1 && l>1)
          {
 				if(!osPuts(fh,"X-Fido-"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
-				if(!osWrite(fh,&tmp->Data[c+1],d-c-2))
+				if(!osWrite(fh,&tmp->Data[c+1],l-1))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
             if(!osPuts(fh,"\n"))
@@ -784,7 +785,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          lastspace=0;
          c=0;
 
-         while(tmp->Data[d+c]==10) d++;
+         while(d+c<tmp->Length && tmp->Data[d+c]==10) d++;
 
          while(c<78 && d+c<tmp->Length && tmp->Data[d+c]!=13)
          {
@@ -802,7 +803,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          {
             strncpy(buffer,&tmp->Data[d],c);
             buffer[c]=0;
-            if(tmp->Data[d+c]==13) c++;
+            if(d+c<tmp->Length && tmp->Data[d+c]==13) c++;
             d+=c;
          }
 
-- 
2.43.0


From 4dfe1329bbc98718709ff4afcc32c86fa26f551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 14/63] fix: remapping wrote past its line buffer and left the
 last control line without line end

---
 src/crashmail/filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 1a7655a..18a6ff3 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -719,7 +719,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[200];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
@@ -812,7 +812,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
-- 
2.43.0


From c9e1490a2002469ea6ce12831c5a4702ec22eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:36 +0000
Subject: [PATCH 15/63] fix: long names in REMAPMSG and MASQUERADE overflowed
 the name buffers

---
 src/crashmail/filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 18a6ff3..8eaf5eb 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -737,7 +737,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -844,7 +844,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
-- 
2.43.0


From f099e6e0f28061a4975c13efa4c0526faa3b5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 16/63] fix: a failed filter copy left the message with the
 text of the copy

---
 src/crashmail/filter.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 8eaf5eb..01b4c6e 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -537,6 +537,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct TextChunk *tmp;
    struct jbList oldlist;
    char buf[200];
+   bool res;
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
 
@@ -560,17 +561,15 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
-
-   area->NewTexts++;
+   if((res=(*area->Messagebase->importfunc)(mm,area)))
+      area->NewTexts++;
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
-   return(TRUE);
+   return(res);
 }
 
 bool Filter_WriteBad(struct MemMessage *mm,char *reason)
-- 
2.43.0


From 8dadb6cfc445fcbec3a47600a0f0b10bcaa629fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 17/63] fix: the checksum of an MSGID with 8-bit characters
 read outside the table

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..ff3ec65 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ (unsigned char)str[c]];
 
    return(crc);
 }
-- 
2.43.0


From 677751bb87f6fed027cc64bdf21e37293df55eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 18/63] fix: a failed or very large rewrite of the dupe file
 lost dupe entries

---
 src/crashmail/dupe.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index ff3ec65..b364127 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+bool copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
@@ -84,17 +84,17 @@ void copydupe(uint16_t c,osFile oldfh,osFile newfh)
    osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
 
    if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+      return(TRUE);
 
    if(osRead(oldfh,buf,size) != size)
-      return;
+      return(TRUE);
 
    if(!osWrite(newfh,&size,sizeof(uint16_t)))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    if(!osWrite(newfh,buf,size))
@@ -102,8 +102,10 @@ void copydupe(uint16_t c,osFile oldfh,osFile newfh)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
+
+   return(TRUE);
 }
 
 bool OpenDupeDB(void)
@@ -186,10 +188,12 @@ void CloseDupeDB(void)
    osFile newfh;
    uint32_t c;
    char duptemp[200];
+   bool ok;
 
    if(!dupechanged)
    {
       osClose(dupefh);
+      osFree(dupebuf);
       return;
    }
 
@@ -208,13 +212,13 @@ void CloseDupeDB(void)
       return;
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   ok=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=dupeentrynum;ok && c<dupeentrymax;c++)
+      ok=copydupe(c,dupefh,newfh);
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=0;ok && c<dupeentrynum;c++)
+      ok=copydupe(c,dupefh,newfh);
 
    osClose(dupefh);
    osClose(newfh);
@@ -222,6 +226,14 @@ void CloseDupeDB(void)
 
    dupechanged=FALSE;
 
+   if(!ok)
+   {
+      /* Keep the old dupe file, it is still complete */
+
+      osDelete(duptemp);
+      return;
+   }
+
    osDelete(config.cfg_DupeFile);
    osRename(duptemp,config.cfg_DupeFile);
 
-- 
2.43.0


From a420adaab4b38252894c5431fe4505051bd6458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 19/63] fix: a dupe file size of 0 made the dupe check write
 outside its buffer

---
 src/crashmail/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..60f00df 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1000,6 +1000,13 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
          }
 
          cfg->cfg_DupeSize=atoi(buf2);
+
+         if(cfg->cfg_DupeSize == 0)
+         {
+            sprintf(cfgerr,"Invalid dupe file size \"%s\"",buf2);
+            osClose(cfgfh);
+            return(FALSE);
+         }
       }
       else if(stricmp(cfgword,"DUPEMODE")==0)
       {
-- 
2.43.0


From 88714d664b5a6dbe73c431c56a65f4c60006416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 20/63] fix: formatted writing reported failed writes as
 success

---
 src/oslib_linux/osfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..97a880f 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -111,7 +111,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +123,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
-- 
2.43.0


From 801b826ae1dcd9365c69be8023d6e793f98fbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:50 +0000
Subject: [PATCH 21/63] fix: messages from packets got the sender's zone as
 zone of the recipient

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..cadf233 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -337,7 +337,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 510ecb7281f87a1e4eb667aa0997a30b16f62bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:50 +0000
Subject: [PATCH 22/63] fix: addresses of type 2.2 (FSC-0045) packets were read
 from the wrong fields

---
 src/crashmail/pkt.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cadf233..e910e6a 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -152,15 +152,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    {
       /* PktOrig och PktDest */
 
-      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);
-      PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);
-      PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);
-      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);
-
-      PktDest.Zone  = getuword(PktHeader,PKTHEADER_DESTZONE);
-      PktDest.Net   = getuword(PktHeader,PKTHEADER_DESTNET);
-      PktDest.Node  = getuword(PktHeader,PKTHEADER_DESTNODE);
-      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);
+      PktOrig.Zone  = getuword(PktHeader,PKTHEADER45_ORIGZONE);
+      PktOrig.Net   = getuword(PktHeader,PKTHEADER45_ORIGNET);
+      PktOrig.Node  = getuword(PktHeader,PKTHEADER45_ORIGNODE);
+      PktOrig.Point = getuword(PktHeader,PKTHEADER45_ORIGPOINT);
+
+      PktDest.Zone  = getuword(PktHeader,PKTHEADER45_DESTZONE);
+      PktDest.Net   = getuword(PktHeader,PKTHEADER45_DESTNET);
+      PktDest.Node  = getuword(PktHeader,PKTHEADER45_DESTNODE);
+      PktDest.Point = getuword(PktHeader,PKTHEADER45_DESTPOINT);
 
 
       pkt_5d=TRUE;
-- 
2.43.0


From 33d1d049eb8facf1f6b571542fe561a00b8a9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:50 +0000
Subject: [PATCH 23/63] fix: a packet that could not be opened was deleted
 unread

---
 src/crashmail/pkt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index e910e6a..3fbc1eb 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,6 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
+      BadFile(pkt,"Unable to open packet");
       return(TRUE);
    }
 
-- 
2.43.0


From 38eddab9efe135b2ffbfbf53f014cc3e19c626f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:50 +0000
Subject: [PATCH 24/63] fix: a break while tossing turned the packet into a bad
 file

---
 src/crashmail/pkt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3fbc1eb..6635c86 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -500,6 +500,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
-- 
2.43.0


From a5a623549d2f0d1640853968c70266df5c77bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 25/63] fix: inbound files were deleted although the outgoing
 packets could not be written

---
 src/crashmail/crashmail.c | 9 +++++++--
 src/crashmail/pkt.c       | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..f5f570e 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,10 +152,15 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   if(ioerror)
+      success=FALSE; /* The packets are not complete */
+
    if(success)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      /* Only delete what has been tossed when the result is in the outbound */
+
+      if(ArchiveOutbound())
+         ProcessSafeDelete();
    }
 
    for(i=0;AvailMessagebases[i].name;i++)
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 6635c86..271c6af 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -905,6 +905,9 @@ bool WriteEchoMail(struct MemMessage *mm,struct ConfigNode *node, struct Aka *ak
 
    pktWrite(pkt,(uint8_t *)"",1);
 
+   if(ioerror)
+      return(FALSE);
+
    return(TRUE);
 }
 
@@ -969,6 +972,9 @@ bool WriteNetMail(struct MemMessage *mm,struct Node4D *dest,struct Aka *aka)
 
    pktWrite(pkt,(uint8_t *)"",1);
 
+   if(ioerror)
+      return(FALSE);
+
    return(TRUE);
 }
 
-- 
2.43.0


From d074f269fd8d1aa61084f6ec364192158a83d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 26/63] fix: tossed files with long paths were not deleted and
 tossed again

---
 src/crashmail/safedel.c | 2 +-
 src/oslib/osdir.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/safedel.c b/src/crashmail/safedel.c
index 24e720c..0af0217 100644
--- a/src/crashmail/safedel.c
+++ b/src/crashmail/safedel.c
@@ -7,7 +7,7 @@ bool SafeDelete(char *file)
    if(!(fe=osAllocCleared(sizeof(struct osFileEntry))))
       return(FALSE);
 
-   mystrncpy(fe->Name,file,100);
+   mystrncpy(fe->Name,file,200);
    jbAddNode(&DeleteList,(struct jbNode *)fe);
 
 	return(TRUE);
diff --git a/src/oslib/osdir.h b/src/oslib/osdir.h
index ba6bccb..4b9a967 100644
--- a/src/oslib/osdir.h
+++ b/src/oslib/osdir.h
@@ -8,7 +8,7 @@
 struct osFileEntry
 {
    struct osFileEntry *Next;
-   char Name[100];
+   char Name[200];
    time_t Date;
    uint32_t Size;
 };
-- 
2.43.0


From 2aa12acf9b188fa66907d3d6c25679dd15b4ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 27/63] fix: bundle names were stored without room for the
 terminator

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 074b3fe7f621976437ab58b87ed47bb7f591b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 28/63] fix: an echomail packet for a node no longer configured
 crashed the packing

---
 src/crashmail/outbound.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..6b2dd07 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -740,10 +740,10 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
          if(!movefile(file,pktname))
          {
@@ -753,8 +753,10 @@ bool PackFile(char *file)
          }
          else
          {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+            char pri=(cnode ? cnode->EchomailPri : PKTS_NORMAL);
+
+            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
+               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
          }
       }
    }
-- 
2.43.0


From 6dda7f6a7d0c3646c9b892a547f6ffbcec36ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 29/63] fix: a netmail packet was deleted although it could not
 be added to the outbound

---
 src/crashmail/outbound.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 6b2dd07..8ed18cd 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -609,6 +609,9 @@ bool PackFile(char *file)
    char type;
 	char letter;
 	osFile ifh,ofh;
+	bool success;
+
+	success=TRUE;
 
    /* Parse filename */
 
@@ -836,25 +839,23 @@ bool PackFile(char *file)
 			}
 		}
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+		while(success && (readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
 		{
 			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+				{ ioerror=TRUE; ioerrornum=osError(); success=FALSE; }
 		}
 				
 		osClose(ifh);
 		osClose(ofh);
 		osFree(copybuf);
 
-		osDelete(file);
+		if(success)
+			osDelete(file);
    }
 
 	UnlockBasename(basename);
 	
-	if(ioerror)
-		return(FALSE);
-	
-	return(TRUE);
+	return(success);
 }
 
 bool ArchiveOutbound(void)
-- 
2.43.0


From b2dd5a9e52db8237429e0ec21fe0fe4f9dcfc1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 30/63] fix: areas with IGNORESEENBY were not sent to nodes in
 the SEEN-BY of an earlier message

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 3a25189..0b6983f 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -717,7 +717,7 @@ bool HandleEchomail(struct MemMessage *mm)
                /* is not write-only */
                if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                   /* is not already in seen-by */
-                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)))
+                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY)))
                   {
                      if(!WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
                         return(FALSE);
-- 
2.43.0


From ceab894ff80f6a44e96c8ed3983ba4f9cddff2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 31/63] fix: receipts were not marked as generated and could be
 bounced or read by AreaFix

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 0b6983f..1a95a15 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1012,7 +1012,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 482797405dc71da142f4e0e48dca4ddf36a084ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 32/63] fix: the Via line was appended to an unfinished last
 line of long netmails

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 1a95a15..34fc952 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1165,7 +1165,7 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
 
    if(chunk && chunk->Length!=0)
    {
-- 
2.43.0


From 70d31e09226961ea8c276aa766f84c2183862adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 33/63] fix: long bounce texts were not terminated

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 34fc952..90be607 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -891,7 +891,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
-- 
2.43.0


From 43a26b79268dfd8e3b061da64e3a0e75e0b3b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 34/63] fix: stripping Re: looked behind the end of short
 subjects

---
 src/crashmail/handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 90be607..06b691a 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -501,12 +501,12 @@ char *StripRe(char *str)
          str += 3;
          if (*str == ' ') str++;
       }
-      else if(strnicmp (str, "Re^", 3)==0 && str[4]==':')
+      else if(strnicmp (str, "Re^", 3)==0 && str[3] && str[4]==':')
       {
          str += 5;
          if (*str == ' ') str++;
       }
-      else if(strnicmp (str, "Re[", 3)==0 && str[4]==']' && str[5]==':')
+      else if(strnicmp (str, "Re[", 3)==0 && str[3] && str[4]==']' && str[5]==':')
       {
          str += 6;
          if (*str == ' ') str++;
-- 
2.43.0


From 6169ac93aa4bb1dd3c20ac223ce888576c0d20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 35/63] fix: the loop mail check read past the end of text
 blocks

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 06b691a..9bf2fbe 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -787,7 +787,7 @@ bool IsLoopMail(struct MemMessage *mm)
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
          if(d<tmp->Length && tmp->Data[d]==13) d++;
 
-         if(strncmp(&tmp->Data[c],"\x01Via",4)==0)
+         if(d-c>=4 && strncmp(&tmp->Data[c],"\x01Via",4)==0)
          {
             /* Is ^aVia line */
 
-- 
2.43.0


From cfffc2a5baa30477eaa7d9ef2d689918f9111f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 36/63] fix: attached files that could not be copied were
 queued under the name of the missing copy

---
 src/crashmail/handle.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 9bf2fbe..b899410 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1607,12 +1607,15 @@ bool HandleNetmail(struct MemMessage *mm)
 					if(osExists(buf))
                {
 						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
 
-						if(nomem || ioerror)
-							return(FALSE);
+                  if(copyfile(buf,buf2))
+                     AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
 
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+                  else if(nomem || ioerror)
+                     return(FALSE);
+
+                  else
+                     AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
                }
                else
                {
-- 
2.43.0


From cda978eec0b0bf90cf7bc61415cff83ed41f47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 37/63] fix: received netmails were counted twice in the
 statistics

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b899410..c81ebd2 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1119,42 +1119,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From 56b24231acfd650c349c196602722ebcd3d3b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:11 +0000
Subject: [PATCH 38/63] fix: files whose flow file entry could not be written
 were never sent

---
 src/crashmail/outbound.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 8ed18cd..b7e68ba 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -479,6 +479,7 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
    char buf[200],letter,*prefix;
    osFile fh;
+   bool res;
 
    switch(type)
    {
@@ -530,12 +531,12 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(mode == FLOW_DELETE)
       prefix="^";
 
-   if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
-   else                         osFPrintf(fh,"%s%s\n",prefix,filename);
+   if(config.cfg_Flags & CFG_FLOWCRLF) res=osFPrintf(fh,"%s%s\r\n",prefix,filename);
+   else                         res=osFPrintf(fh,"%s%s\n",prefix,filename);
 
    osClose(fh);
 
-   return(TRUE);
+   return(res);
 }
 
 /* Handles locking and MakeOrphan() */
-- 
2.43.0


From d2f9f321f65ac303f7bc4332805cfe9981875fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:48 +0000
Subject: [PATCH 39/63] fix: netmail appended to a truncated outbound packet
 lost its packet header

---
 src/crashmail/outbound.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index b7e68ba..c2c5632 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -823,8 +823,18 @@ bool PackFile(char *file)
 				return(FALSE);
 			}
 
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
+			osSeek(ofh,0,OFFSET_END);
+
+			if(osFTell(ofh) < SIZE_PKTHEADER+2)
+			{
+				/* No packet there yet, probably truncated by the mailer */
+				osSeek(ofh,0,OFFSET_BEGINNING);
+			}
+			else
+			{
+				osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
+				osSeek(ofh,-2,OFFSET_END);
+			}
 		}
 		else
 		{
-- 
2.43.0


From 49a4d8fcf518ef7fe45ab40669b2647bc500e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:48 +0000
Subject: [PATCH 40/63] fix: damaged bundle names in the index led to memory
 accesses out of bounds

---
 src/crashmail/outbound.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index c2c5632..a720a16 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -263,15 +263,18 @@ void MakeArcName(struct ConfigNode *cnode,char *dest)
 	{
 		basenum=hextodec(cnode->LastArcName);
 
-      strncpy(ext,&cnode->LastArcName[strlen(cnode->LastArcName)-3],3);
-      ext[2]=0;
-
-		for(i=0;i<7;i++)
+		if(IsArc(cnode->LastArcName) && cnode->LastArcName[11]>='0' && cnode->LastArcName[11]<='9')
 		{
-         if(stricmp(ext,daynames[i])==0)
+	      strncpy(ext,&cnode->LastArcName[9],2);
+   	   ext[2]=0;
+
+			for(i=0;i<7;i++)
 			{
-				suffix=i*10;
-				suffix+=cnode->LastArcName[strlen(cnode->LastArcName)-1]-'0';
+      	   if(stricmp(ext,daynames[i])==0)
+				{
+					suffix=i*10;
+					suffix+=cnode->LastArcName[11]-'0';
+				}
 			}
 		}
    }
-- 
2.43.0


From 21d0a086df7e3bbbb28e5d164574146f9221bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 41/63] fix: AreaFix lines of 100 characters overflowed the
 line buffer

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..bf37dac 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,7 +120,7 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
+         for(d=0;d<99 && c+d<chunk->Length && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10;d++)
             buf[d]=chunk->Data[c+d];
 
          buf[d]=0;
-- 
2.43.0


From 766e492eb8132b70ce7e60ddc157140375fe6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 42/63] fix: AreaFix crashed when a forwarded area could not be
 added

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index bf37dac..7b7e0ba 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -628,12 +628,12 @@ bool AreaFix(struct MemMessage *mm)
                                     RemoteAreafixAdd(areaname,arealist->Node);
 
                                     area=AddArea(areaname,&arealist->Node->Node,&tmproute->Aka->Node,TRUE,config.cfg_Flags & CFG_FORWARDPASSTHRU);
-                                    area->Group=arealist->Group;
 
                                     if(area)
                                     {
                                        uint16_t flags;
 
+                                       area->Group=arealist->Group;
                                        flags=0;
 
                                        if(CheckFlags(area->Group,cnode->ReadOnlyGroups))
-- 
2.43.0


From d126fc3ce276a378b9eeae9f52ad3c63c7a369a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 43/63] fix: area names in AreaFix commands were copied between
 overlapping strings

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 7b7e0ba..2953211 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -326,19 +326,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From 0ab70f56722666ce67c6d2c8349fda59fbe79239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 44/63] fix: JAM checksums used memory in front of the checksum
 table

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..036a9dc 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(Crc_I ^ (uint32_t)tolower((unsigned char)Buffer_PC[c])) & 0xff];
 
    return(Crc_I);
 }
-- 
2.43.0


From e453f58f199983c040e1adb83e873492be347a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 45/63] fix: truncated JAM subfields were read past the end of
 the header

---
 src/jamlib/message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..4859ba7 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -142,6 +142,12 @@ int JAM_ReadMsgHeader( s_JamBase* 	Base_PS,
 
 	    int		  Status_I;
 
+            if(Roof_PC - Ptr_PC < SIZE_JAMSAVESUBFIELD) {
+                JAM_DelSubPacket( SubPacket_PS );
+	        free (Buf_PC);
+                return JAM_CORRUPT_MSG;
+            }
+
             getjamsubfield(Ptr_PC,&Subfield_S);
 
             if((char *)Subfield_S.Buffer + Subfield_S.DatLen > Roof_PC) {
-- 
2.43.0


From 7a75524c140c16f7960f359f05bc90934fc90283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 46/63] fix: long receiver names in JAM messages overflowed a
 buffer

---
 src/jamlib/message.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 4859ba7..3cb2c30 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -430,8 +430,13 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 
 	   /* store username for index file */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      memcpy( User_AC, Subfield_PS->Buffer, Subfield_PS->DatLen );
-	      User_AC[ Subfield_PS->DatLen ] = 0;
+	      uint32_t UserLen_I = Subfield_PS->DatLen;
+
+	      if( UserLen_I > sizeof( User_AC ) - 1 )
+	         UserLen_I = sizeof( User_AC ) - 1;
+
+	      memcpy( User_AC, Subfield_PS->Buffer, UserLen_I );
+	      User_AC[ UserLen_I ] = 0;
 	   }
 	}
 
-- 
2.43.0


From 4d1a3cbd733cafe72806c6f44eb1c983809e51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 47/63] fix: long fields in JAM messages overflowed buffers
 when exported

---
 src/crashmail/mb_jam.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4c61286..8f65fd3 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -741,7 +741,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -754,7 +754,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
 
             if(hasaddr)
             {
@@ -774,12 +774,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -792,7 +792,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -802,7 +802,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,MIN(Field_PS->DatLen,199)+1);
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -835,7 +835,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(Field_PS->DatLen,100)+1);
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From b3c187bcb910bfd571d93ee93943de8a01f2eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 48/63] fix: FLAGS lines of exported JAM messages were lost

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 8f65fd3..54d669a 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -871,7 +871,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From 48b0e2bc3387b560556040d88c7391d9515140fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 49/63] fix: importing a message ending in an unfinished kludge
 line crashed or lost a character

---
 src/crashmail/mb_jam.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 54d669a..56fe524 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -465,28 +465,28 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
+               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-4));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
 
                jbcpos=0;
@@ -531,7 +531,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
+               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
 					msgpos=linebegin;
-- 
2.43.0


From 8b88b82e58d7e2be0bc1e0ed62101768c76d89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 50/63] fix: long FLAGS lines overflowed a buffer when imported

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 56fe524..9df8f6d 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -302,7 +302,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],newflags[110],flag[10];
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
-- 
2.43.0


From d2b3ca8fcbdb5bf1b3da5b5f6d2fbcce98646af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 51/63] fix: quick linking took messages without MSGID for
 answers to each other

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 9df8f6d..af8da4c 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1103,14 +1103,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
-- 
2.43.0


From 3e7314103ef9a85031adc7d77ea5acb05fe6bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 52/63] fix: a JAM messagebase stayed locked when a header
 could not be read for linking

---
 src/crashmail/mb_jam.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index af8da4c..57ee3a2 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1329,8 +1329,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From bcfb225e3948245cd085d1f88204326a11ee43a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 53/63] fix: messages in a recreated JAM messagebase were not
 exported until it reached its old size

---
 src/crashmail/mb_jam.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 57ee3a2..abd0666 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1054,6 +1054,9 @@ bool jam_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm))
 
    end   = ja->BaseNum + ja->OldNum;
 
+	if(start > end)
+		start=ja->BaseNum; /* Messagebase has been recreated */
+
    while(start < end && !ctrlc)
    {
       if(!jam_ExportJAMNum(area,start,handlefunc,FALSE))
-- 
2.43.0


From daf774d54a8c08dccea0493c490221eb6dfa94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 54/63] fix: the check for truncated JAM subfields could
 overflow

---
 src/jamlib/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 3cb2c30..99d848d 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -150,7 +150,7 @@ int JAM_ReadMsgHeader( s_JamBase* 	Base_PS,
 
             getjamsubfield(Ptr_PC,&Subfield_S);
 
-            if((char *)Subfield_S.Buffer + Subfield_S.DatLen > Roof_PC) {
+            if(Subfield_S.DatLen > (uint32_t)(Roof_PC - (char *)Subfield_S.Buffer)) {
                 JAM_DelSubPacket( SubPacket_PS );
 	        free (Buf_PC);
                 return JAM_CORRUPT_MSG;
-- 
2.43.0


From a0e828eb7412a9b172105b6f96d4930fe2bbef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 55/63] fix: empty messages imported to JAM got a zero byte as
 text

---
 src/crashmail/mb_jam.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index abd0666..2a4d925 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -595,10 +595,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    }
 
    if(msgsize == 0)
-   {
       msgtext="";
-      msgpos=1;
-   }
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-- 
2.43.0


From 664f9097bfa57bef99e87418d1667b4d9e2cbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 56/63] fix: zero bytes in the text of JAM messages damaged the
 packets they were exported to

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2a4d925..1b473aa 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -953,7 +953,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-      if(!(mmAddBuf(&mm->TextChunks,msgtext,Header_S.TxtLen)))
+      if(!(mmAddBuf(&mm->TextChunks,msgtext,strlen(msgtext))))
       {
          JAM_DelSubPacket(SubPacket_PS);
          osFree(msgtext);
-- 
2.43.0


From b108a202af9130727428829937d1b1f19fe49724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 57/63] fix: a truncated JAM highwater file was used

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 1b473aa..7e8c55f 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -156,7 +156,7 @@ void jam_gethighwater(struct jam_Area *ja)
 
    if((fh=osOpen(buf,MODE_OLDFILE)))
    {
-      if(osRead(fh,&num,sizeof(uint32_t)))
+      if(osRead(fh,&num,sizeof(uint32_t)) == sizeof(uint32_t))
       {
          ja->HighWater=num;
          ja->OldHighWater=num;
-- 
2.43.0


From c79a67c69284472e28caec3682c1a43c3d0516d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 58/63] fix: failed writes to JAM messagebases were not noticed
 when the buffers were flushed

---
 src/crashmail/mb_jam.c |  4 +++-
 src/jamlib/mbase.c     | 21 +++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 7e8c55f..56cd9ef 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -599,7 +599,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   if(JAM_UnlockMB(ja->Base_PS) && !res)
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..f192448 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -332,12 +332,18 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Status_I = 0;
 
-    return jam_Lock( Base_PS, 0 );
+    if ( fflush( Base_PS->TxtFile_PS ) | fflush( Base_PS->HdrFile_PS ) |
+	 fflush( Base_PS->IdxFile_PS ) | fflush( Base_PS->LrdFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+
+    if ( jam_Lock( Base_PS, 0 ) )
+	return JAM_LOCK_FAILED;
+
+    return Status_I;
 }
 
 /***********************************************************************
@@ -391,7 +397,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
-- 
2.43.0


From 3f6114d978c4db554e890e547c4b02ef28758c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:54 +0000
Subject: [PATCH 59/63] fix: a *.msg area that could not be scanned was used as
 if it were empty

---
 src/crashmail/mb_msg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..50572e3 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -38,11 +38,15 @@ struct msg_Area *msg_getarea(struct Area *area)
       return(FALSE);
    }
 
-   jbAddNode(&msg_AreaList,(struct jbNode *)ma);
    ma->area=area;
 
    if(!msg_GetHighLowMsg(ma))
+   {
+      osFree(ma);
       return(FALSE);
+   }
+
+   jbAddNode(&msg_AreaList,(struct jbNode *)ma);
 
    return(ma);
 }
-- 
2.43.0


From 4f03d63b3d169605c099f2072829d595aab51f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:54 +0000
Subject: [PATCH 60/63] fix: memory was lost for every *.msg message that was
 not exported

---
 src/crashmail/mb_msg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 50572e3..f13d907 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -191,6 +191,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
       /* Message doesn't exist */
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -198,6 +199,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
       osClose(fh);
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -207,6 +209,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		{
 			/* Don't touch if the message is sent or not local */
 			osClose(fh);
+			mmFree(mm);
    	   return(TRUE);
 		}
    }
-- 
2.43.0


From 3789056c74e437f5c6fa8bf217266b34c09e86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:54 +0000
Subject: [PATCH 61/63] fix: *.msg messages ending in an unfinished control
 line were exported without zones and damaged

---
 src/crashmail/mb_msg.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index f13d907..11d2f8b 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -242,7 +242,18 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    do
    {
-      msg_ReadCR(buf,200,fh);
+      if(msg_messageend || msg_shortread)
+      {
+         buf[0]=0;
+      }
+      else
+      {
+         msg_ReadCR(buf,200,fh);
+
+         /* Finish the last control line */
+         if(buf[0]==1 && (msg_messageend || msg_shortread))
+            strcat(buf,"\x0d");
+      }
 
       if(buf[0]!=1 && buf[0]!=10 && !kludgeadd)
       {
@@ -291,7 +302,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-   } while(!msg_messageend && !msg_shortread);
+   } while((!msg_messageend && !msg_shortread) || !kludgeadd);
 
    osClose(fh);
 
-- 
2.43.0


From 49114a58f681a99cba86bd12ab1eabe79f9001e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:14 +0000
Subject: [PATCH 62/63] fix: packets were replaced when more than 256 were made
 within a second

---
 src/crashmail/pkt.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 271c6af..59307ee 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -581,9 +581,17 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
    do
    {
       t=time(NULL);
+
+      /* All numbers of this second are used, wait for the next one */
+
+      while(t == lastt && serial == 255)
+      {
+         osSleep(1);
+         t=time(NULL);
+      }
+
       if(t == lastt) serial++;
       else serial=0;
-      if(serial == 256) serial=0;
       lastt=t; 
       num = (t<<8) + serial;
       sprintf(buf2,"%08x.newpkt",num);
-- 
2.43.0


From 91357edfc2fec4b354f5f09dec218ef27f6a6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:14 +0000
Subject: [PATCH 63/63] fix: unpacked echomail replaced a packet of the same
 name waiting in the outbound

---
 src/crashmail/outbound.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index a720a16..8a54faa 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -607,7 +607,7 @@ void UpdateFile(char *name)
 bool PackFile(char *file)
 {
    char basename[200],arcname[200],pktname[200],buf[200],buf2[200],*copybuf;
-   uint32_t jbcpos,readlen;
+   uint32_t jbcpos,readlen,num;
    int c,res;
    struct Node4D n4d;
    char type;
@@ -743,8 +743,14 @@ bool PackFile(char *file)
 
          MakeFullPath(config.cfg_PacketDir,GetFilePart(file),pktname,200);
          GetFilePart(pktname)[8]=0;
+         num=hextodec(GetFilePart(pktname));
          strcat(pktname,".pkt");
 
+         /* Don't replace a packet that has not been sent yet */
+
+         while(osExists(pktname))
+            sprintf(GetFilePart(pktname),"%08x.pkt",++num);
+
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
 				n4d.Zone,
-- 
2.43.0

