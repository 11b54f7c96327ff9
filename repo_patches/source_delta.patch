From 87ec2817dc8b32665f1cdd784cede88acfcdf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:24 +0000
Subject: [PATCH 01/34] fix: node patterns with an omitted part used
 uninitialised or stale text

---
 src/crashmail/node4dpat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..214af8d 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -6,6 +6,8 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
    char temp[10];
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
+   temp[0]=0;
+
    strcpy(node->Zone,"*");
    strcpy(node->Net,"*");
    strcpy(node->Node,"*");
@@ -22,6 +24,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Zone,temp);
          GotZone=TRUE;
 			tempc=0;
+         temp[0]=0;
 	   }
 		else if(buf[c]=='/')
 		{
@@ -29,6 +32,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+         temp[0]=0;
 		}
 		else if(buf[c]=='.')
 		{
@@ -37,6 +41,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          node->Point[0]=0;
          GotNode=TRUE;
 			tempc=0;
+         temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
@@ -318,6 +323,8 @@ bool Parse2DPat(char *buf, struct Node2DPat *node)
    char temp[10];
    bool GotNet=FALSE;
 
+   temp[0]=0;
+
    strcpy(node->Net,"*");
    strcpy(node->Node,"*");
 
@@ -332,6 +339,7 @@ bool Parse2DPat(char *buf, struct Node2DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+         temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
-- 
2.43.0


From b5fd1f6fb6f8d02745d1f04d39445cf1bdad6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 02/34] fix: NOT before a parenthesised filter expression only
 negated its first part

---
 src/shared/expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..b20cc32 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -52,6 +52,14 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          start=c+1;
          len=d-c-2;
 
+         if(hasnot)
+         {
+            /* Keep the parentheses, NOT applies to everything within them */
+
+            start=c;
+            len=d-c;
+         }
+
          if(!(res=osAlloc(sizeof(struct expr))))
          {
             *errpos=expr->offset;
-- 
2.43.0


From 234abe3ba20241b66d3d76179335cb5d776c54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 03/34] fix: overlapping strcpy when evaluating NOT in filter
 expressions

---
 src/shared/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index b20cc32..e54ed1e 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -266,7 +266,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From 318218918d1b3e67612eddcf42a1e60d0f81f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:45 +0000
Subject: [PATCH 04/34] fix: filter expressions without parentheses were not
 evaluated from left to right as documented

---
 src/shared/expr.c | 121 ++++++++++++----------------------------------
 1 file changed, 32 insertions(+), 89 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index e54ed1e..641aad0 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -229,6 +229,7 @@ void expr_free(struct expr *expr)
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
 {
    struct expr *e1,*e2,*e3;
+   int res;
 
    e1=expr_get(expr,errpos,errstr);
 
@@ -245,15 +246,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
       return(-1);
    }
 
-   e3=expr_getrest(expr,errpos,errstr);
-
-   if(!e3)
-   {
-      expr_free(e1);
-      expr_free(e2);
-      return(-1);
-   }
-
    if(e2->buf[0] == 0)
    {
       /* Only one expression */
@@ -278,7 +270,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -295,7 +286,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -310,122 +300,75 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
          expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
 
          return (res);
       }
    }
 
-   if(stricmp(e2->buf,"AND")==0)
-   {
-      int r1,r2,res;
-
-      if(e3->buf[0] == 0)
-      {
-         *errstr="Expected second expression after AND";
-         *errpos=e3->offset;
-
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+   /* Evaluate from left to right */
 
-         return(-1);
-      }
+   res=expr_eval(e1,eval,errpos,errstr);
+   expr_free(e1);
 
-      r1=expr_eval(e1,eval,errpos,errstr);
+   while(res != -1 && e2->buf[0] != 0)
+   {
+      bool isand;
+      int res2;
 
-      if(r1 == -1)
+      if(stricmp(e2->buf,"AND")==0)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-         return(-1);
+         isand=TRUE;
       }
-
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      else if(stricmp(e2->buf,"OR")==0)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-         return(-1);
+         isand=FALSE;
       }
-
-      res=0;
-
-      if(r1 && r2)
-         res=1;
-
-/* printf("|%s| AND |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
-   }
-   else if(stricmp(e2->buf,"OR")==0)
-   {
-      int r1,r2,res;
-
-      if(e3->buf[0] == 0)
+      else
       {
-         *errstr="Expected second expression after OR";
-         *errpos=e3->offset;
+         *errstr="Expected AND or OR";
+         *errpos=e2->offset;
 
-         expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
 
          return(-1);
       }
 
-      r1=expr_eval(e1,eval,errpos,errstr);
+      e3=expr_get(expr,errpos,errstr);
 
-      if(r1 == -1)
+      if(!e3)
       {
-         expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
-
          return(-1);
       }
 
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      if(e3->buf[0] == 0)
       {
-         expr_free(e1);
+         *errstr=isand ? "Expected second expression after AND" : "Expected second expression after OR";
+         *errpos=e3->offset;
+
          expr_free(e2);
          expr_free(e3);
 
          return(-1);
       }
 
-      res=0;
-
-      if(r1 || r2)
-         res=1;
+      res2=expr_eval(e3,eval,errpos,errstr);
+      expr_free(e3);
 
-/* printf("|%s| OR |%s|: %d\n",e1->buf,e3->buf,res); */
+      if(res2 == -1)          res=-1;
+      else if(isand)          res=(res && res2) ? 1 : 0;
+      else                    res=(res || res2) ? 1 : 0;
 
-      expr_free(e1);
       expr_free(e2);
-      expr_free(e3);
 
-      return(res);
+      e2=expr_get(expr,errpos,errstr);
+
+      if(!e2)
+         return(-1);
    }
-   else
-   {
-      *errstr="Expected AND or OR";
-      *errpos=e2->offset;
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
+   expr_free(e2);
 
-      return(-1);
-   }
+   return(res);
 }
 
-- 
2.43.0


From 3852a27834773bc1eb65f48ef3e83b9586eb7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:23 +0000
Subject: [PATCH 05/34] fix: SEEN-BY marks of an earlier message withheld mail
 in IGNORESEENBY areas

---
 src/crashmail/handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..16157ce 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -617,12 +617,13 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
       {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
-- 
2.43.0


From 0aaf1d4b13305cd4f42ea917e760bbe7a68b0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:15 +0000
Subject: [PATCH 06/34] fix: the line end before the Via line of netmail was
 only added after the first text chunk

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 16157ce..1b09530 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1166,7 +1166,7 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
 
    if(chunk && chunk->Length!=0)
    {
-- 
2.43.0


From 0f784fe8990c5e806152d7ba5185fdc1e9bb2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:27 +0000
Subject: [PATCH 07/34] fix: parentheses within quoted texts were counted when
 looking for the end of a group in filter expressions

---
 src/shared/expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index 641aad0..ebf4f20 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -38,11 +38,14 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
 
       nump=1;
       d=c+1;
+      hasquote=FALSE;
 
       while(nump!=0 && expr->buf[d]!=0)
       {
-         if(expr->buf[d]=='(') nump++;
-         if(expr->buf[d]==')') nump--;
+         if(expr->buf[d]=='"') hasquote=!hasquote;
+
+         if(expr->buf[d]=='(' && !hasquote) nump++;
+         if(expr->buf[d]==')' && !hasquote) nump--;
 
          d++;
       }
-- 
2.43.0


From de738f079eff5877ce2a8c26509f05095cbd4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 08/34] fix: duplicate checksum read outside its table for
 characters above 127

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..0347a43 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)(crc ^ str[c])];
 
    return(crc);
 }
-- 
2.43.0


From 7dd67b0baf42875f4c08b5825e028096a5728cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 09/34] fix: duplicate databases of more than 65535 messages
 were rewritten with the wrong records

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 0347a43..9aa0c2f 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+void copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
-- 
2.43.0


From b1c7b303fdeafceee9f2ce66bad9639931341f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 10/34] fix: packets that could not be opened were deleted
 unread

---
 src/crashmail/pkt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..3fe1fbc 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,6 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
+      BadFile(pkt,"Unable to open packet");
       return(TRUE);
    }
 
-- 
2.43.0


From d438922fd98f618610aa48ebd6c342b6f305e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 11/34] fix: zones and points of FSC-0045 packets were read
 from the wrong place

---
 src/crashmail/pkt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3fe1fbc..4366f7a 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -153,15 +153,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    {
       /* PktOrig och PktDest */
 
-      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);
+      PktOrig.Zone  = getuword(PktHeader,PKTHEADER45_ORIGZONE);
       PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);
       PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);
-      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);
+      PktOrig.Point = getuword(PktHeader,PKTHEADER45_ORIGPOINT);
 
-      PktDest.Zone  = getuword(PktHeader,PKTHEADER_DESTZONE);
+      PktDest.Zone  = getuword(PktHeader,PKTHEADER45_DESTZONE);
       PktDest.Net   = getuword(PktHeader,PKTHEADER_DESTNET);
       PktDest.Node  = getuword(PktHeader,PKTHEADER_DESTNODE);
-      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);
+      PktDest.Point = getuword(PktHeader,PKTHEADER45_DESTPOINT);
 
 
       pkt_5d=TRUE;
-- 
2.43.0


From eee89daf44569e699b78d1a3d205131912d4c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 12/34] fix: zone of the sender was stored as zone of the
 destination

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 4366f7a..9ec4ecd 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -338,7 +338,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 03ed3823f1db7247f770f85b672da3ccebdbf62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 13/34] fix: packets were renamed to .bad when interrupted
 between two messages

---
 src/crashmail/pkt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 9ec4ecd..355620f 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -500,6 +500,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
-- 
2.43.0


From 30060127d5b1a2a7ebbed2aae10c60ad9af85e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:05 +0000
Subject: [PATCH 14/34] fix: incoming files were deleted although mail made
 from them could not be stored

---
 src/crashmail/crashmail.c | 9 ++++++---
 src/crashmail/misc.c      | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..92d4d90 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,11 +152,14 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   if(ioerror)
+      success=FALSE;
+
+   if(success && !ArchiveOutbound())
+      success=FALSE;
+
    if(success)
-   {
-      ArchiveOutbound();
       ProcessSafeDelete();
-   }
 
    for(i=0;AvailMessagebases[i].name;i++)
       if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..11df000 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -308,6 +308,8 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      ioerror=TRUE; /* Keeps the file from being deleted */
+      ioerrornum=err;
       return;
    }
 
-- 
2.43.0


From ed44e028f9422a4da9562f59cf5f549701bb162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 15/34] fix: a packer killed by a signal was taken for a
 successful one

---
 src/oslib_linux/osmisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..aaf64ce 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,9 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   if(res == -1 || !WIFEXITED(res))
+      return(255); /* Could not be started or was killed by a signal */
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From 36683f603c4ae4b114304567cc5fb5033b2c736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 16/34] fix: bundle names did not fit into LastArcName

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 0642052d6db4c6a44b9107bc4be5aef5333156fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:40 +0000
Subject: [PATCH 17/34] fix: echomail for nodes removed from the configuration
 crashed, failed renames were ignored

---
 src/crashmail/outbound.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..652afb8 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -694,7 +694,14 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         if(!osRename(file,pktname))
+         {
+				uint32_t err=osError();
+            LogWrite(1,SYSTEMERR,"Failed to rename \"%s\" to \"%s\"",file,pktname);
+				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -740,10 +747,10 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
          if(!movefile(file,pktname))
          {
@@ -753,8 +760,10 @@ bool PackFile(char *file)
          }
          else
          {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+            char pri=cnode ? cnode->EchomailPri : PKTS_NORMAL;
+
+            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
+               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
          }
       }
    }
-- 
2.43.0


From 3d358843d07287d85c0a7d51f971161115cc23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:40 +0000
Subject: [PATCH 18/34] fix: outgoing mail was deleted although writing it
 failed

---
 src/crashmail/misc.c     |  4 +++-
 src/crashmail/outbound.c | 45 ++++++++++++++++++++++++++++++----------
 src/crashmail/pkt.c      |  4 +++-
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c | 11 ++++++----
 src/oslib_win32/osfile.c | 11 +++++++---
 6 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 11df000..7425ed4 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -391,7 +391,9 @@ bool copyfile(char *file,char *newfile)
 
    free(copybuf);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
    osClose(ifh);
 
    if(ioerror)
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 652afb8..8274494 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -479,6 +479,7 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
    char buf[200],letter,*prefix;
    osFile fh;
+   bool res;
 
    switch(type)
    {
@@ -530,12 +531,16 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(mode == FLOW_DELETE)
       prefix="^";
 
-   if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
-   else                         osFPrintf(fh,"%s%s\n",prefix,filename);
+   if(config.cfg_Flags & CFG_FLOWCRLF) res=osFPrintf(fh,"%s%s\r\n",prefix,filename);
+   else                         res=osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
+   if(!osClose(fh))
+      res=FALSE;
 
-   return(TRUE);
+   if(!res)
+      LogWrite(1,SYSTEMERR,"Failed to write to flow file for \"%s\"",filename);
+
+   return(res);
 }
 
 /* Handles locking and MakeOrphan() */
@@ -608,6 +613,7 @@ bool PackFile(char *file)
    struct Node4D n4d;
    char type;
 	char letter;
+	bool failed,newfile;
 	osFile ifh,ofh;
 
    /* Parse filename */
@@ -813,7 +819,9 @@ bool PackFile(char *file)
 			return(FALSE);
 		}
 		
-		if(osExists(buf))
+		newfile=!osExists(buf);
+
+		if(!newfile)
 		{
 			if(!(ofh=osOpen(buf,MODE_READWRITE)))
 			{
@@ -843,24 +851,39 @@ bool PackFile(char *file)
 			}
 		}
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+		failed=FALSE;
+
+		while(!failed && (readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
 		{
 			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+				failed=TRUE;
 		}
 				
 		osClose(ifh);
-		osClose(ofh);
+
+		if(!osClose(ofh))
+			failed=TRUE;
+
 		osFree(copybuf);
 
+		if(failed)
+		{
+			ioerror=TRUE;
+			ioerrornum=osError();
+			LogWrite(1,SYSTEMERR,"Failed to write to \"%s\"",buf);
+
+			if(newfile)
+				osDelete(buf); /* Nothing may be appended to it later */
+
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
 		osDelete(file);
    }
 
 	UnlockBasename(basename);
 	
-	if(ioerror)
-		return(FALSE);
-	
 	return(TRUE);
 }
 
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 355620f..c6add6b 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -667,7 +667,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..9658551 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os);
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..88cb1a9 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,12 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   if(fclose((FILE *)os) != 0)
+      return(FALSE);
+
+   return(TRUE);
 }
 
 int osGetChar(osFile os)
@@ -111,7 +114,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +126,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..b2b453a 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,21 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      res=win32writebuffer(osf);
+
+   if(!CloseHandle(osf->h))
+      res=FALSE;
 
-   CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From ac074bb9be890bdefa3cf3c017d3895a9d4748f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:29 +0000
Subject: [PATCH 19/34] fix: keep the duplicate database when storing it fails
 or is interrupted

The new database was put in place even if writing it had failed, and the
old one was deleted before the new one got its name, so that a full disk or
a crash at that point lost all remembered messages.
---
 src/crashmail/dupe.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 9aa0c2f..6f0ca0c 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,10 +76,15 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
+bool copyfailed;
+
 void copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
+   bool oldfailed=copyfailed;
+
+   copyfailed=TRUE;
 
    osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
 
@@ -104,6 +109,8 @@ void copydupe(uint32_t c,osFile oldfh,osFile newfh)
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return;
    }
+
+   copyfailed=oldfailed;
 }
 
 bool OpenDupeDB(void)
@@ -208,7 +215,7 @@ void CloseDupeDB(void)
       return;
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   copyfailed=!osWrite(newfh,DUPES_IDENTIFIER,4);
 
    for(c=dupeentrynum;c<dupeentrymax;c++)
       copydupe(c,dupefh,newfh);
@@ -217,13 +224,30 @@ void CloseDupeDB(void)
       copydupe(c,dupefh,newfh);
 
    osClose(dupefh);
-   osClose(newfh);
+
+   if(!osClose(newfh))
+      copyfailed=TRUE;
+
    osFree(dupebuf);
 
    dupechanged=FALSE;
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+   if(copyfailed)
+   {
+      /* Keep the old file if the new one could not be completely written */
+
+      LogWrite(1,SYSTEMERR,"Failed to write temporary dupe file %s",duptemp);
+      osDelete(duptemp);
+      return;
+   }
+
+   /* The old file is replaced in one step where the system can do that */
+
+   if(!osRename(duptemp,config.cfg_DupeFile))
+   {
+      osDelete(config.cfg_DupeFile);
+      osRename(duptemp,config.cfg_DupeFile);
+   }
 
    return;
 }
-- 
2.43.0


From b94dec46f44aa7950d98c02f7bb7bf76b5c07949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 20/34] fix: striptrail does not read before the start of an
 empty string

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 7425ed4..6b11c24 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From 96ce2c820f4aaa9cb6ae324536ffd978755936d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 21/34] fix: AreaFix does not write past its line buffer for
 lines of 100 or more characters

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..bf37dac 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,7 +120,7 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
+         for(d=0;d<99 && c+d<chunk->Length && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10;d++)
             buf[d]=chunk->Data[c+d];
 
          buf[d]=0;
-- 
2.43.0


From a1b1fd996e740effb38c8111374da9f1e3dcc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 22/34] fix: JAM_Crc32 indexes its table with a negative number

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..e497178 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(uint8_t)Crc_I ^ (uint8_t)tolower((uint8_t)Buffer_PC[c])];
 
    return(Crc_I);
 }
-- 
2.43.0


From 1ea924279583b95471de328419142eb23063248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 23/34] fix: JAM library reports failed flushes, so that a full
 disk does not lose mail silently

---
 src/crashmail/mb_jam.c |  4 +++-
 src/jamlib/mbase.c     | 34 ++++++++++++++++++++++------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..f8677b5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -602,7 +602,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   if(JAM_UnlockMB(ja->Base_PS) && !res)
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..30f6be2 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -199,11 +199,10 @@ int JAM_CreateMB( char* 	Basename_PC,
 ***********************************************************************/
 int JAM_CloseMB( s_JamBase* Base_PS )
 {
-    if ( Base_PS->Locked_I ) {
-	int Status_I = JAM_UnlockMB( Base_PS );
-	if ( Status_I )
-	    return Status_I;
-    }
+    int Status_I = 0;
+
+    if ( Base_PS->Locked_I )
+	Status_I = JAM_UnlockMB( Base_PS );
     if ( Base_PS->HdrFile_PS ) {
 	fclose( Base_PS->HdrFile_PS ); Base_PS->HdrFile_PS = NULL;
 	fclose( Base_PS->TxtFile_PS ); Base_PS->TxtFile_PS = NULL;
@@ -211,7 +210,7 @@ int JAM_CloseMB( s_JamBase* Base_PS )
 	fclose( Base_PS->LrdFile_PS ); Base_PS->LrdFile_PS = NULL;
     }
     Base_PS->Locked_I = 0;
-    return 0;
+    return Status_I;
 }
 
 /***********************************************************************
@@ -332,12 +331,20 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Status_I = 0;
+    int Lock_I;
 
-    return jam_Lock( Base_PS, 0 );
+    if ( fflush( Base_PS->HdrFile_PS ) ) Status_I = JAM_IO_ERROR;
+    if ( fflush( Base_PS->TxtFile_PS ) ) Status_I = JAM_IO_ERROR;
+    if ( fflush( Base_PS->IdxFile_PS ) ) Status_I = JAM_IO_ERROR;
+    if ( fflush( Base_PS->LrdFile_PS ) ) Status_I = JAM_IO_ERROR;
+
+    if ( Status_I )
+	Base_PS->Errno_I = errno;
+
+    Lock_I = jam_Lock( Base_PS, 0 );
+
+    return Status_I ? Status_I : Lock_I;
 }
 
 /***********************************************************************
@@ -391,7 +398,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
-- 
2.43.0


From 5aac28599c6f30340def2e8ba78e8923596d9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:22 +0000
Subject: [PATCH 24/34] fix: JAM_ReadMsgHeader read past the subfields when
 less than a subfield header was left

---
 src/jamlib/message.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..f0019b2 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -142,9 +142,15 @@ int JAM_ReadMsgHeader( s_JamBase* 	Base_PS,
 
 	    int		  Status_I;
 
+            if(Roof_PC - Ptr_PC < SIZE_JAMSAVESUBFIELD) {
+                JAM_DelSubPacket( SubPacket_PS );
+	        free (Buf_PC);
+                return JAM_CORRUPT_MSG;
+            }
+
             getjamsubfield(Ptr_PC,&Subfield_S);
 
-            if((char *)Subfield_S.Buffer + Subfield_S.DatLen > Roof_PC) {
+            if(Subfield_S.DatLen > Roof_PC - (char *)Subfield_S.Buffer) {
                 JAM_DelSubPacket( SubPacket_PS );
 	        free (Buf_PC);
                 return JAM_CORRUPT_MSG;
-- 
2.43.0


From 62fa3d127503b156a0c6d4cb271c28919abc8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:45 +0000
Subject: [PATCH 25/34] fix: flags of exported JAM messages are sent in the
 FLAGS line

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index f8677b5..9590f2d 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -873,7 +873,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From d0853b1ff011fefb2148825a358b82e28c689001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 26/34] fix: striptrail removed letters outside ASCII from the
 end of lines

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 6b11c24..eeb9440 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;c>=0 && str[c] < 33;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From d714c7be137f8098cbc4553f023d1d064051170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 27/34] fix: long fields of JAM messages overflowed buffers
 when exported

---
 src/crashmail/mb_jam.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 9590f2d..874ecf8 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -632,6 +632,14 @@ void jam_makekludge(struct MemMessage *mm,char *pre,char *data,uint32_t len)
 	osFree(buf);
 }
 
+void jam_getfield(char *dest,s_JamSubfield *field,uint32_t destsize)
+{
+   dest[0]=0;
+
+   if(field->DatLen)
+      mystrncpy(dest,field->Buffer,field->DatLen < destsize ? field->DatLen+1 : destsize);
+}
+
 bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)
 {
    struct MemMessage *mm;
@@ -743,7 +751,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(buf,Field_PS,200);
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -756,7 +764,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(buf,Field_PS,200);
 
             if(hasaddr)
             {
@@ -776,12 +784,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(buf,Field_PS,200);
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(buf,Field_PS,200);
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -794,7 +802,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(buf,Field_PS,200);
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -804,7 +812,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else jam_getfield(filesubject,Field_PS,200);
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -837,7 +845,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getfield(&flagsbuf[8],Field_PS,100);
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From e562306ebabb6db979208457b41419277cf19be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:22 +0000
Subject: [PATCH 28/34] fix: kludge lines without end of line were cut or
 crashed the import into JAM

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 874ecf8..40b1488 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -302,7 +302,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],newflags[110],flag[10];
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
@@ -448,7 +448,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
       {
 			linebegin=msgpos;
 			
-         while(chunk->Data[c]!=13 && c<chunk->Length)
+         while(c<chunk->Length && chunk->Data[c]!=13)
 			{ 
 				if(chunk->Data[c]!=10)
 					msgtext[msgpos++]=chunk->Data[c];
@@ -456,7 +456,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 				c++;
 			}
 
-         if(chunk->Data[c]==13 && c<chunk->Length)
+         if(c<chunk->Length && chunk->Data[c]==13)
 				msgtext[msgpos++]=chunk->Data[c++];
 
 			linelen=msgpos-linebegin;
@@ -465,28 +465,28 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
+               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5+1));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7+1));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7+1));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7+1));
                stripleadtrail(buf);
 
                jbcpos=0;
@@ -531,7 +531,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
+               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1+1));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
 					msgpos=linebegin;
-- 
2.43.0


From da6bc2ff117bd1edd1c5978431b64deb374b1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 29/34] fix: ExtractAddress read past the end of the origin
 line

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index eeb9440..07f1cfb 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -593,12 +593,12 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=0 && origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=0 && origin[pos]!=')' && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From 53efc14e82f4403f0a081fff3f75c4a100a19ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 30/34] fix: recognise JAM messages without MSGID or REPLY when
 linking

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 40b1488..c1a0361 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1113,14 +1113,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
-- 
2.43.0


From 265c33fabeb70f7ca0381def280740c13df5d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:46 +0000
Subject: [PATCH 31/34] fix: unlock JAM base when a header cannot be read while
 linking

---
 src/crashmail/mb_jam.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index c1a0361..4a90344 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1339,8 +1339,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From 36ba215105f0d65836b901ef08993882c4ea2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:47 +0000
Subject: [PATCH 32/34] fix: do not link JAM messages as replies to themselves

---
 src/crashmail/mb_jam.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4a90344..625093e 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1190,6 +1190,9 @@ void jam_setreply(struct Msg *msgs,uint32_t nummsgs,uint32_t base,uint32_t num,u
 {
    int n,times;
 
+   if(num == dest)
+      return; /* A message is not a reply to itself */
+
    if(msgs[dest].ReplyTo)
       return; /* Already linked */
 
-- 
2.43.0


From 4dc568c8b4784101f5666d7167b33d978cf3ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 33/34] fix: expanded commands could overflow the destination
 buffer

---
 src/crashmail/misc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 07f1cfb..4fb92d4 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -23,10 +23,10 @@ void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d < destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d < destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
@@ -120,10 +120,10 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d < destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d < destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
-- 
2.43.0


From 14a69c56f06720410e07bdd87871f6529cad7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 34/34] fix: packers were detected by uninitialised bytes and
 by bytes outside the buffer

---
 src/crashmail/toss.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..260c6a8 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -31,7 +31,7 @@ bool Compare(char *str,char *recog)
 struct Packer *DetectPacker(char *file)
 {
    osFile fh;
-   char buf[40];
+   char buf[80]; /* Same size as Recog in struct Packer */
    struct Packer *tmppacker;
 
    if(!(fh=osOpen(file,MODE_OLDFILE)))
@@ -42,7 +42,8 @@ struct Packer *DetectPacker(char *file)
       return(NULL);
    }
 
-   osRead(fh,buf,40);
+   memset(buf,0,sizeof(buf));
+   osRead(fh,buf,sizeof(buf));
    osClose(fh);
 
    for(tmppacker=(struct Packer *)config.PackerList.First;tmppacker;tmppacker=tmppacker->Next)
-- 
2.43.0

