From f24ccc74603f3320ae309cd32c76f8707edef418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 001/107] fix: take the default destination zone of a message
 from the packet destination

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..cadf233 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -337,7 +337,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From fcf48bc87d50542a05786f912b0d61c9927e8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 002/107] fix: do not use a stale SEEN-BY result in areas with
 IGNORESEENBY

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..b5a25ff 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -717,7 +717,7 @@ bool HandleEchomail(struct MemMessage *mm)
                /* is not write-only */
                if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
                   /* is not already in seen-by */
-                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY)))
+                  if(!(temptnode->ConfigNode->IsInSeenBy == TRUE && (config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY)))
                   {
                      if(!WriteEchoMail(mm,temptnode->ConfigNode,temparea->Aka))
                         return(FALSE);
-- 
2.43.0


From 693414813c8cf6f95428f111cbb9cc0aac2409fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 003/107] fix: count received netmails once (ReadPkt() already
 does)

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b5a25ff..79b5973 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1119,42 +1119,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From 539c3f612ac5c2f0ad59a9d15f237a798ea01ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 004/107] fix: mark receipts, not the message they answer, as
 automatically generated

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 79b5973..bed9a14 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1012,7 +1012,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 558de456464b59b77b8e9a6091d6108a30cbd5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 005/107] fix: look at the end of the text when completing the
 last line of a netmail

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index bed9a14..36bee1d 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1144,7 +1144,7 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
 
    if(chunk && chunk->Length!=0)
    {
-- 
2.43.0


From ef897bbf238c8d23c31f90bb53472fb02c92471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 006/107] fix: complete the last text line of echomail so
 SEEN-BY lines do not run into it

---
 src/crashmail/handle.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 36bee1d..7a5aec8 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -523,9 +523,23 @@ bool HandleEchomail(struct MemMessage *mm)
    struct AddNode  *tmpaddnode;
    struct RemNode  *tmpremnode;
    struct ConfigNode *tempcnode;
+   struct TextChunk *chunk;
 
    mm->Type=PKTS_ECHOMAIL;
 
+   /* Add CR if last line doesn't end with CR */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0)
+   {
+      if(chunk->Data[chunk->Length-1] != 13)
+      {
+         if(!mmAddBuf(&mm->TextChunks,"\x0d",1))
+            return(FALSE);
+      }
+   }
+
    /* Find orignode */
 
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
-- 
2.43.0


From ba4a526a2b64a536f5b1e3d035421a307f3fd4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:56 +0000
Subject: [PATCH 007/107] fix: do not share lastt between handle.c and pkt.c,
 auto-adding an area made packet names repeat

---
 src/crashmail/handle.c | 2 +-
 src/crashmail/pkt.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 7a5aec8..13c26e7 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -94,7 +94,7 @@ bool AddTossNode(struct Area *area,struct ConfigNode *cnode,uint16_t flags)
    return(TRUE);
 }
 
-time_t lastt;
+static time_t lastt;
 
 void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
 {
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cadf233..39f51d9 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -558,8 +558,8 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-time_t lastt;
-uint32_t serial;
+static time_t lastt;
+static uint32_t serial;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-- 
2.43.0


From 66883682568ee610bc7e7be9382788892f1daac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:18 +0000
Subject: [PATCH 008/107] fix: never give two packets the same name

---
 src/crashmail/pkt.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 39f51d9..494d19f 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -558,30 +558,33 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-static time_t lastt;
-static uint32_t serial;
+static uint32_t lastnum;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-   char buf[100],buf2[100];
+   char buf[100],buf2[100],buf3[100];
    struct Pkt *pkt;
    uint32_t num;
    time_t t;
    struct tm *tp;
    uint8_t PktHeader[SIZE_PKTHEADER];
 
+   /* Never use a number twice, the packets already finished and those
+      still waiting in the packet directory must not be overwritten */
+
    do
    {
       t=time(NULL);
-      if(t == lastt) serial++;
-      else serial=0;
-      if(serial == 256) serial=0;
-      lastt=t; 
-      num = (t<<8) + serial;
+      num = (uint32_t)t << 8;
+      if(num <= lastnum) num=lastnum+1;
+      lastnum=num;
+
+      sprintf(buf2,"%08x.pkt",num);
+      MakeFullPath(config.cfg_PacketDir,buf2,buf3,100);
+
       sprintf(buf2,"%08x.newpkt",num);
-      
       MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
-   } while(osExists(buf));
+   } while(osExists(buf) || osExists(buf3));
 
    if(!(pkt=(struct Pkt *)osAllocCleared(sizeof(struct Pkt))))
    {
-- 
2.43.0


From c6a42b9019af1a854c6389d73ecbd80d4cb9d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 009/107] fix: do not index outside the crc table for MSGIDs
 with 8-bit characters

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..ff3ec65 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ (unsigned char)str[c]];
 
    return(crc);
 }
-- 
2.43.0


From 18592e23693bf3088cacf0fe3210783cd8f4512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 010/107] fix: keep dupe entries beyond 65535 when the dupe
 file is rewritten

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index ff3ec65..826b45b 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+void copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
-- 
2.43.0


From 19068eded07ed7d701ccaa37d37595cc88247b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 011/107] fix: release the configuration lock after the dupe
 file has been written

---
 src/crashmail/crashmail.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..b344b78 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -519,12 +519,14 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+   /* Free() still writes the dupe file, so it has to be locked until here */
+
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
-- 
2.43.0


From 145aef8b4e7993d6ce168233a66c45d601c9163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:03 +0000
Subject: [PATCH 012/107] fix: create the lock file atomically

---
 src/crashmail/crashmail.c | 23 ++++++++++++++++-------
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index b344b78..60d94d5 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -483,8 +483,23 @@ bool LockConfig(char *file)
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	/* The file is created and checked for in one go, two instances that are
+	   started at the same time must not both get the lock */
+
+	while(!(fp=osOpen(buf,MODE_NEWONLY)))
 	{
+		if(!osExists(buf))
+		{
+			if((fp=osOpen(buf,MODE_NEWONLY)))
+				break;
+
+			if(!osExists(buf))
+			{
+				printf("Failed to create lock file %s\n",buf);
+				return(FALSE);
+			}
+		}
+
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
 		osSleep(10);
@@ -493,12 +508,6 @@ bool LockConfig(char *file)
 			return(FALSE);
 	}
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
 	osClose(fp);
 
 	return(TRUE);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..ac4e957 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -9,6 +9,7 @@ typedef void *osFile;
 
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
+#define MODE_NEWONLY    1007  /* As MODE_NEWFILE, but fails if the file exists */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
 
 #define OFFSET_BEGINNING -1
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..d0f4d8f 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -16,6 +16,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_NEWONLY) 
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..2f87ad9 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_NEWONLY) 
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From 06b7ca6d5ceb916789ff0b308bd721176fd12994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 013/107] fix: the end marker of a nodelist index is not a node

---
 src/cmnllib/cmnllib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..5531b63 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -117,6 +117,8 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			if(cmnlidx->net   != idx.net)   found=FALSE;
 			if(cmnlidx->node  != idx.node)  found=FALSE;
 			if(cmnlidx->point != idx.point) found=FALSE;
+
+			if(idx.offset == 0xffffffff) found=FALSE; /* End of list marker */
 		}
 	}
 
-- 
2.43.0


From 7807cf63c6f7f1eba2b086bfd88ac01a8da06601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 014/107] fix: points of a node marked down are not points of
 the node before it

---
 src/tools/crashlist.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..02c203b 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -145,6 +145,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 	struct idx idx;
 	char buf[500];
 	osFile nfh;
+	bool down=FALSE;
 	
 	if(!FindList(dir,file,buf))
 		return;
@@ -225,6 +226,18 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
+		if(strnicmp(buf,"Down,",5)==0)
+		{
+			/* Not usable, but following points must not be added to the
+			   previous node */
+
+			down=TRUE;
+		}
+		else if(strnicmp(buf,"Point,",6)!=0 && buf[0]!=';')
+		{
+			down=FALSE;
+		}
+
 		if(strnicmp(buf,",",1)==0)
 		{
 			idx.node=atoi(&buf[1]);
@@ -232,7 +245,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
-		if(strnicmp(buf,"Point,",6)==0)
+		if(strnicmp(buf,"Point,",6)==0 && !down)
 		{
 			idx.point=atoi(&buf[6]);
 			WriteIdx(ifh,&idx);
-- 
2.43.0


From c7dc287eb7742ae43921add4fe74e7a20db9cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 015/107] fix: crashlist does not take NODE.123 for the list
 NODELIST

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 02c203b..bf10bd5 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(file)-4 == strlen(findfile) && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
-- 
2.43.0


From cca8c84f8294cba04770547fb5e7633848ac2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 016/107] fix: do not delete a packet that could not be opened

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 494d19f..1d821bc 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,7 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
-      return(TRUE);
+      return(FALSE);
    }
 
    if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)
-- 
2.43.0


From ea7efcaa65889e78ca980d37ce96db09b550e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 017/107] fix: an interrupted packet is not a bad packet

---
 src/crashmail/pkt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 1d821bc..6eed373 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -499,6 +499,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      /* Interrupted, the packet is read again next time */
+
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
-- 
2.43.0


From 596fc60428afed1dc1cf30e639c68ba10b870ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:53 +0000
Subject: [PATCH 018/107] fix: do not delete a bad packet that could not be
 renamed

---
 src/crashmail/misc.c |  6 ++++--
 src/crashmail/misc.h |  2 +-
 src/crashmail/pkt.c  | 30 ++++++++++--------------------
 src/crashmail/toss.c |  7 ++++---
 4 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..b1330f6 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -279,7 +279,7 @@ void stripleadtrail(char *str)
 	striptrail(str);
 }	
 
-void BadFile(char *filename,char *comment)
+bool BadFile(char *filename,char *comment)
 {
    char destname[100],numbuf[10];
    uint32_t num;
@@ -308,10 +308,12 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    osSetComment(destname,comment);
+
+   return(TRUE);
 }
 
 bool MatchFlags(char group,char *node)
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 28fc611..3c392f9 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -1,7 +1,7 @@
 void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *archive,char *file);
 
 bool SortFEList(struct jbList *list);
-void BadFile(char *filename,char *comment);
+bool BadFile(char *filename,char *comment);
 
 bool IsArc(char *file);
 bool IsPkt(char *file);
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 6eed373..366513a 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -135,8 +135,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"Packet header in %s is too short",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Packet header is too short");
-      return(TRUE);
+      return(BadFile(pkt,"Packet header is too short"));
    }
 
    if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)
@@ -144,8 +143,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"%s is not a Type-2 packet",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Not a Type-2 packet");
-      return(TRUE);
+      return(BadFile(pkt,"Not a Type-2 packet"));
    }
 
    if(getuword(PktHeader,PKTHEADER_BAUD) == 2)
@@ -216,8 +214,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          osClose(fh);
          mmFree(mm);
          sprintf(buf,"Addressed to %u:%u/%u.%u, not to me",PktDest.Zone,PktDest.Net,PktDest.Node,PktDest.Point);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
    }
 
@@ -313,8 +310,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       osClose(fh);
       mmFree(mm);
       sprintf(buf,"Message header for msg #1 (offset %d) is too short",msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return(BadFile(pkt,buf));
    }
 
    msgnum=0;
@@ -363,8 +359,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
 
       if(longread)
@@ -373,8 +368,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
 
       /* Start reading message text */
@@ -411,8 +405,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 			 LogWrite(1,TOSSINGERR,"Wrong password");
 			 osClose(fh);
 			 mmFree(mm);
-			 BadFile(pkt,"Wrong password");
-			 return(TRUE);
+			 return(BadFile(pkt,"Wrong password"));
 		  }
 		}
 
@@ -428,8 +421,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
             mmFree(mm);
             LogWrite(1,TOSSINGERR,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
             sprintf(buf,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
-            BadFile(pkt,buf);
-            return(TRUE);
+            return(BadFile(pkt,buf));
          }
 
          if(buf[0])
@@ -490,8 +482,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 		     osClose(fh);
 		     mmFree(mm);
 		     sprintf(buf,"Packet header too short for msg #%u (offset %d)",msgnum+1,msgoffset);
-		     BadFile(pkt,buf);
-		     return(TRUE);
+		     return(BadFile(pkt,buf));
 		}
 		else
 			// some tossers might produce one zero instead two
@@ -514,8 +505,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mmFree(mm);
       LogWrite(1,TOSSINGERR,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
       sprintf(buf,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return(BadFile(pkt,buf));
    }
 
    printf("                      \x0d");
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..389a024 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -96,8 +96,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    if(!(tmppacker=(struct Packer *)DetectPacker(file)))
    {
       LogWrite(1,TOSSINGINFO,"Failed to recognize archive type of %s",file);
-      BadFile(file,"Unknown packer");
-      return(TRUE);
+      return(BadFile(file,"Unknown packer"));
    }
 
    printf("\n");
@@ -119,7 +118,9 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    {
       LogWrite(1,SYSTEMERR,"Unarchiving failed: %u",arcres);
       sprintf(buf2,"Unarchiving with %s failed: %u",tmppacker->Name,arcres);
-      BadFile(file,buf2);
+
+      if(!BadFile(file,buf2))
+         return(FALSE);
    }
 
    if(!osReadDir(config.cfg_TempDir,&FEList,IsPkt))
-- 
2.43.0


From d0a515dd6e1cf71c2fc15bbeae48b4c600d2a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 019/107] fix: do not read past the end of a control line
 without argument

---
 src/crashmail/memmessage.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..5ae5941 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -363,7 +363,9 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 {
    struct Node4D node;
    char buf[60];
-   uint32_t c,d;
+   uint32_t c,d,len;
+
+   len=(uint32_t)strlen(kludge); /* the argument may be missing altogether */
 
    if(strncmp(kludge,"\x01RESCANNED",10)==0)
    {
@@ -372,7 +374,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01MSGID:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
+      for(d=0,c=8;d<79 && c<len && kludge[c]!=13;c++,d++)
          mm->MSGID[d]=kludge[c];
          
       mm->MSGID[d]=0;
@@ -380,7 +382,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01REPLY:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
+      for(d=0,c=8;d<79 && c<len && kludge[c]!=13;c++,d++)
          mm->REPLY[d]=kludge[c];
          
       mm->REPLY[d]=0;
@@ -389,10 +391,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    if(mm->Area[0]==0)
    {
       if(strncmp(kludge,"\x01" "FMPT",5)==0)
-         mm->OrigNode.Point=atoi(&kludge[6]);
+         mm->OrigNode.Point=(len>6 ? atoi(&kludge[6]) : 0);
 
       if(strncmp(kludge,"\x01TOPT",5)==0)
-          mm->DestNode.Point=atoi(&kludge[6]);
+          mm->DestNode.Point=(len>6 ? atoi(&kludge[6]) : 0);
 
       if(strncmp(kludge,"\x01INTL",5)==0)
       {
@@ -402,6 +404,9 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
          else
             c=6;
 
+         if(c > len)
+            c=len;
+
          for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0;c++,d++)
             buf[d]=kludge[c];
 
-- 
2.43.0


From 1f12f918f7e54eafe765597eaafcb6c63b5310c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 020/107] fix: make room for the terminator of a node's last
 bundle name

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 11b11416379e222adce2e7a8e70260c49f0b316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 021/107] fix: do not crash when no route leads to the uplink
 of a forwarded AreaFix request

---
 src/crashmail/areafix.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..4607c62 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1568,6 +1568,19 @@ void SendRemoteAreafix(void)
          for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
             if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
 
+         if(!tmproute)
+         {
+            LogWrite(1,TOSSINGERR,"No route found for %u:%u/%u.%u",
+               node->Node.Zone,
+               node->Node.Net,
+               node->Node.Node,
+               node->Node.Point);
+
+            mmFree(mm);
+            jbFreeList(&node->RemoteAFList);
+            continue;
+         }
+
          Copy4D(&mm->DestNode,&node->Node);
          Copy4D(&mm->OrigNode,&tmproute->Aka->Node);
 
-- 
2.43.0


From d66eb7eb547d6d331410fa17b144f39a4d9c9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 022/107] fix: cut over-long AreaFix lines instead of
 overrunning the buffer and running their rest as a command

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 4607c62..e4c4280 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,10 +120,10 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
-            buf[d]=chunk->Data[c+d];
+         for(d=0;c+d<chunk->Length && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10;d++)
+            if(d<99) buf[d]=chunk->Data[c+d];
 
-         buf[d]=0;
+         buf[d<99 ? d : 99]=0;
          c+=d;
 
          if(strncmp(buf,"---",3)==0)
-- 
2.43.0


From 8b73a0d9ad24cc644844fa741a490c9877c3813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 023/107] fix: make room for long area names in the area
 removal notice

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index e4c4280..042b967 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -732,7 +732,7 @@ bool AreaFix(struct MemMessage *mm)
 void SendRemoveMessages(struct Area *area)
 {
    struct TossNode *tn;
-   char buf[100];
+   char buf[200];
    struct MemMessage *mm;
 	
    for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
-- 
2.43.0


From 4a963f5d184a6dc8c98f1b0c02f5e35d4a1c2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 024/107] fix: send complete area names in requests to an
 uplink's AreaFix

---
 src/crashmail/areafix.c | 8 +++-----
 src/crashmail/config.h  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 042b967..aa81b5d 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1523,12 +1523,11 @@ void RemoteAreafixAdd(char *area,struct ConfigNode *node)
    }
 
 	if(node->Flags & NODE_AFNEEDSPLUS)
-	   sprintf(cmd->Command,"+%.78s",area);
+	   sprintf(cmd->Command,"+%.79s",area);
 
 	else
-	   sprintf(cmd->Command,"%.78s",area);
+	   sprintf(cmd->Command,"%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
@@ -1542,9 +1541,8 @@ void RemoteAreafixRemove(char *area,struct ConfigNode *node)
       return;
    }
 
-   sprintf(cmd->Command,"-%.78s",area);
+   sprintf(cmd->Command,"-%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index b20ea8b..731f833 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -149,7 +149,7 @@ struct BannedNode
 struct RemoteAFCommand
 {
    struct RemoteAFCommand *Next;
-   char Command[80];
+   char Command[100];
 };
 
 struct ConfigNode
-- 
2.43.0


From 9ce380454853e43e6fdf3a0478c8886743af1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 025/107] fix: do not forward requests for areas with an empty
 or over-long name

---
 src/crashmail/areafix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index aa81b5d..0357240 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1633,6 +1633,11 @@ struct Arealist *FindForward(char *tagname,char *flags)
    uint32_t c;
    osFile fh;
 
+   /* An area cannot have an empty name or one longer than Tagname in struct Area */
+
+   if(tagname[0] == 0 || strlen(tagname) > 79)
+      return(NULL);
+
    for(arealist=(struct Arealist *)config.ArealistList.First;arealist;arealist=arealist->Next)
    {
       if((arealist->Flags & AREALIST_FORWARD) && CheckFlags(arealist->Group,flags))
-- 
2.43.0


From 20fda5efe34c8a3d454cf80f7f4410ae0364ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 026/107] fix: do not drop the last character of unterminated
 AreaFix help lines

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 0357240..ec03b72 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1320,7 +1320,7 @@ void rawSendHelp(struct Node4D *from4d,char *toname,struct ConfigNode *cnode)
    {
       while(osFGets(fh,helpbuf,100) && !nomem)
       {
-         if(helpbuf[0]!=0)
+         if(helpbuf[0]!=0 && helpbuf[strlen(helpbuf)-1]==10)
             helpbuf[strlen(helpbuf)-1]=0;
 
          afAddLine(afr,"%s",helpbuf);
-- 
2.43.0


From 69722ed9415e385800e0082047baacb28f2d600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:38 +0000
Subject: [PATCH 027/107] fix: name the %RESUME command correctly in the
 AreaFix reply to %PAUSE

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index ec03b72..eaec733 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -149,7 +149,7 @@ bool AreaFix(struct MemMessage *mm)
                   config.changed=TRUE;
                   done=TRUE;
 						AddCommandReply(afr,buf,"Your system is marked as passive");
-						AddCommandReply(afr,"","Send %%RESUME to get echomail again");
+						AddCommandReply(afr,"","Send %RESUME to get echomail again");
                }
             }
             else if(stricmp(buf2,"%RESUME")==0)
-- 
2.43.0


From e226d6db42b9fa8b9da2c2d318ffab17cf3f5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:38 +0000
Subject: [PATCH 028/107] fix: do not treat netmail and DEFAULT areas as
 echomail areas

---
 src/crashmail/handle.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 13c26e7..134ffb6 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -570,6 +570,21 @@ bool HandleEchomail(struct MemMessage *mm)
          LogWrite(3,TOSSINGINFO,"Unknown area %s -- auto-adding",mm->Area);
    }
 
+   /* Netmail areas and DEFAULT areas don't receive echomail. The TossNodes
+      list of a netmail area contains ImportNodes and not TossNodes! */
+
+   if(temparea->AreaType == AREATYPE_NETMAIL || temparea->AreaType == AREATYPE_DEFAULT)
+   {
+      LogWrite(1,TOSSINGERR,"%s is not an echomail area",mm->Area);
+
+      toss_bad++;
+
+      if(!WriteBad(mm,"Node does not receive this area"))
+         return(FALSE);
+
+      return(TRUE);
+   }
+
    /* Don't toss in auto-added areas */
 
    if(temparea->Flags & AREA_UNCONFIRMED)
-- 
2.43.0


From 1e1f86157b57da3de89a27d3e752f7883ef393f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:38 +0000
Subject: [PATCH 029/107] fix: do not give an auto-added area the path of
 another area

---
 src/crashmail/handle.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 134ffb6..aba73a2 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -203,7 +203,9 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
       struct TossNode *tnode;
       uint32_t c;
       char *forbiddenchars="\"#'`()*,./:;<>|";
-      char buf[100],buf2[100];
+      char buf[100],buf2[100],buf3[20];
+      struct Area *area;
+      uint32_t num;
 
       strcpy(buf,name);
 
@@ -217,6 +219,24 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
       MakeDirectory(buf2,80,defarea->Path,buf);
       strcpy(temparea->Path,buf2);
 
+      /* Two areas may not have the same path, different names can result
+         in the same one */
+
+      num=0;
+
+      do
+      {
+         for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
+            if(area!=temparea && area->AreaType != AREATYPE_DEFAULT && area->Messagebase && stricmp(area->Path,temparea->Path)==0) break;
+
+         if(area)
+         {
+            sprintf(buf3,"_%u",(unsigned int)++num);
+            mystrncpy(temparea->Path,buf2,80-strlen(buf3));
+            strcat(temparea->Path,buf3);
+         }
+      } while(area);
+
       if(!forcepassthru)
          temparea->Messagebase=defarea->Messagebase;
 
-- 
2.43.0


From 132b05b312c9ce61d852566f0674f82c27faa240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:56 +0000
Subject: [PATCH 030/107] fix: do not free a removed area that the message base
 code still refers to

---
 src/crashmail/areafix.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index eaec733..30bbc0b 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -827,8 +827,9 @@ void SendRemoveMessages(struct Area *area)
 
 void RemoveDeletedAreas(void)
 {
-	struct Area *area,*temparea;
+	struct Area *area,*temparea,*prevarea;
 
+   prevarea=NULL;
    area=(struct Area *)config.AreaList.First;
 
    while(area)
@@ -838,9 +839,27 @@ void RemoveDeletedAreas(void)
 	   if(area->AreaType == AREATYPE_DELETED)
 		{
          jbFreeList(&area->TossNodes);
-			jbFreeNode(&config.AreaList,(struct jbNode *)area);
+
+         if(area->Messagebase)
+         {
+            /* The messagebase may still refer to the area, do not free it */
+
+            if(prevarea) prevarea->Next=temparea;
+            else         config.AreaList.First=(struct jbNode *)temparea;
+
+            if(!temparea) config.AreaList.Last=(struct jbNode *)prevarea;
+         }
+         else
+         {
+			   jbFreeNode(&config.AreaList,(struct jbNode *)area);
+         }
+
 			config.changed=TRUE;
       }
+      else
+      {
+         prevarea=area;
+      }
 
       area=temparea;
    }
-- 
2.43.0


From 28b6801c66ae0cfe2e9b014004cf6a047b48e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:40 +0000
Subject: [PATCH 031/107] fix: count messages and not message numbers when
 rescanning a *.MSG area

---
 src/crashmail/mb_msg.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..1a69f58 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -91,7 +91,8 @@ bool msg_importfunc(struct MemMessage *mm,struct Area *area)
 
 bool msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm))
 {
-   uint32_t start;
+   uint32_t start,num;
+   char buf[200],buf2[50];
    struct msg_Area *ma;
 
    if(!(ma=msg_getarea(area)))
@@ -99,8 +100,24 @@ bool msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
    start=ma->LowMsg;
 
-   if(max !=0 && ma->HighMsg-start+1 > max)
-      start=ma->HighMsg-max+1;
+   if(max !=0)
+   {
+      /* Find the last max messages, there may be gaps between the numbers */
+
+      num=0;
+      start=ma->HighMsg+1;
+
+      while(start > ma->LowMsg && num < max)
+      {
+         start--;
+
+         sprintf(buf2,"%u.msg",start);
+         MakeFullPath(area->Path,buf2,buf,200);
+
+         if(osExists(buf))
+            num++;
+      }
+   }
 
    while(start <= ma->HighMsg && !ctrlc)
    {
-- 
2.43.0


From 46ca731a6a9f3e78e8cae8438df68259d7ba1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:12 +0000
Subject: [PATCH 032/107] fix: do not let a message create a DEFAULT or BAD
 area in the configuration

---
 src/crashmail/handle.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index aba73a2..9025429 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -574,6 +574,21 @@ bool HandleEchomail(struct MemMessage *mm)
 
    if(!temparea)
    {
+      /* These names have a special meaning in the configuration file and
+         can't be used for areas that are created because of a message */
+
+      if(stricmp(mm->Area,"BAD")==0 || stricmp(mm->Area,"DEFAULT")==0 || strnicmp(mm->Area,"DEFAULT_",8)==0)
+      {
+         LogWrite(1,TOSSINGERR,"%s is not an echomail area",mm->Area);
+
+         toss_bad++;
+
+         if(!WriteBad(mm,"Node does not receive this area"))
+            return(FALSE);
+
+         return(TRUE);
+      }
+
       if(tempcnode)
          temparea=AddArea(mm->Area,&mm->PktOrig,&mm->PktDest,tempcnode->Flags & NODE_AUTOADD,FALSE);
 
-- 
2.43.0


From 159db9c853f7c2619531875b496c69fa7c79b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 033/107] fix: evaluate filter expressions from left to right
 as documented

---
 src/shared/expr.c | 118 +++++++++-------------------------------------
 1 file changed, 23 insertions(+), 95 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..7bcee10 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -221,6 +221,8 @@ void expr_free(struct expr *expr)
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
 {
    struct expr *e1,*e2,*e3;
+   int res,res2;
+   bool and;
 
    e1=expr_get(expr,errpos,errstr);
 
@@ -237,15 +239,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
       return(-1);
    }
 
-   e3=expr_getrest(expr,errpos,errstr);
-
-   if(!e3)
-   {
-      expr_free(e1);
-      expr_free(e2);
-      return(-1);
-   }
-
    if(e2->buf[0] == 0)
    {
       /* Only one expression */
@@ -270,7 +263,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -287,7 +279,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -302,122 +293,59 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
          expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
 
          return (res);
       }
    }
 
-   if(stricmp(e2->buf,"AND")==0)
-   {
-      int r1,r2,res;
-
-      if(e3->buf[0] == 0)
-      {
-         *errstr="Expected second expression after AND";
-         *errpos=e3->offset;
+   /* Several expressions, evaluate from left to right */
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+   res=expr_eval(e1,eval,errpos,errstr);
+   expr_free(e1);
 
-         return(-1);
-      }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
+   while(res != -1 && e2->buf[0] != 0)
+   {
+      and=(stricmp(e2->buf,"AND")==0);
 
-      if(r1 == -1)
+      if(!and && stricmp(e2->buf,"OR")!=0)
       {
-         expr_free(e1);
+         *errstr="Expected AND or OR";
+         *errpos=e2->offset;
+
          expr_free(e2);
-         expr_free(e3);
          return(-1);
       }
 
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      if(!(e3=expr_get(expr,errpos,errstr)))
       {
-         expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
          return(-1);
       }
 
-      res=0;
-
-      if(r1 && r2)
-         res=1;
-
-/* printf("|%s| AND |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
-   }
-   else if(stricmp(e2->buf,"OR")==0)
-   {
-      int r1,r2,res;
-
       if(e3->buf[0] == 0)
       {
-         *errstr="Expected second expression after OR";
+         *errstr=and ? "Expected second expression after AND" : "Expected second expression after OR";
          *errpos=e3->offset;
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-
-         return(-1);
-      }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-
-         return(-1);
-      }
-
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
-      {
-         expr_free(e1);
          expr_free(e2);
          expr_free(e3);
-
          return(-1);
       }
 
-      res=0;
-
-      if(r1 || r2)
-         res=1;
+      res2=expr_eval(e3,eval,errpos,errstr);
+      expr_free(e3);
 
-/* printf("|%s| OR |%s|: %d\n",e1->buf,e3->buf,res); */
+      if(res2 == -1)  res=-1;
+      else if(and)    res=(res && res2);
+      else            res=(res || res2);
 
-      expr_free(e1);
       expr_free(e2);
-      expr_free(e3);
 
-      return(res);
+      if(!(e2=expr_get(expr,errpos,errstr)))
+         return(-1);
    }
-   else
-   {
-      *errstr="Expected AND or OR";
-      *errpos=e2->offset;
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
+   expr_free(e2);
 
-      return(-1);
-   }
+   return(res);
 }
-
-- 
2.43.0


From c9196deb67f909c49300d35220ad127125d9e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 034/107] fix: let NOT negate all of an expression in
 parentheses

---
 src/shared/expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index 7bcee10..1307ba4 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -52,6 +52,14 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          start=c+1;
          len=d-c-2;
 
+         if(hasnot)
+         {
+            /* Keep parentheses so that NOT applies to all of the expression */
+
+            start--;
+            len+=2;
+         }
+
          if(!(res=osAlloc(sizeof(struct expr))))
          {
             *errpos=expr->offset;
-- 
2.43.0


From dfee21fcebf1070eda16cde662f56c2ddc0ec24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 035/107] fix: ignore quoted parentheses in filter expressions

---
 src/shared/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index 1307ba4..d7a3ad6 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -38,11 +38,13 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
 
       nump=1;
       d=c+1;
+      hasquote=FALSE;
 
       while(nump!=0 && expr->buf[d]!=0)
       {
-         if(expr->buf[d]=='(') nump++;
-         if(expr->buf[d]==')') nump--;
+         if(expr->buf[d]=='"') hasquote=!hasquote;
+         if(expr->buf[d]=='(' && !hasquote) nump++;
+         if(expr->buf[d]==')' && !hasquote) nump--;
 
          d++;
       }
-- 
2.43.0


From 79fb70e1840c6f7bc77c27e2208a81af96487c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 036/107] fix: do not skip over matches in substring searches

---
 src/crashmail/filter.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..aa268a8 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=len;
 
-   for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
+   for(i=0;i<len-1;i++)
+      bmstep[(unsigned char)tolower(pat[i])]=len-i-1;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
@@ -37,7 +34,7 @@ long bmfind(char *pat,char *text,long textlen,long start)
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      i+=bmstep[(unsigned char)tolower(text[i+len-1])];
    }
 
    return(-1);
-- 
2.43.0


From 9d8272718fe7632ddde4a7c342f3851838c32658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 037/107] fix: do not use strcpy() for overlapping strings

---
 src/shared/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d7a3ad6..7a31f12 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -261,7 +261,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From f0de5787a9d6cc425eca32dfc72faef1fd6ad09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 038/107] fix: let EXISTSNL variables be compared with TRUE and
 FALSE in filters

---
 src/crashmail/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index aa268a8..e3585a8 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -409,7 +409,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_FROMBOSS")==0)
@@ -425,7 +425,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
@@ -441,7 +441,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOBOSS")==0)
@@ -457,7 +457,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSCFG_FROMBOSS")==0)
-- 
2.43.0


From 376bba10fe74b72c973d850cd08e85d1763004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 039/107] fix: end the kludge of remapped messages with a CR

---
 src/crashmail/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index e3585a8..0e08596 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -812,7 +812,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
-- 
2.43.0


From 00fc7abc6f474b6e5727824fb64568a44e0d14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 040/107] fix: limit names given to REMAPMSG and MASQUERADE to
 the size of the field

---
 src/crashmail/filter.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 0e08596..9f2ab5b 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -719,7 +719,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[150];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
@@ -737,7 +737,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -844,7 +844,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
-- 
2.43.0


From 10196333e1bf2617ee32634a9de006bd28e3dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 041/107] fix: stop when a message cannot be copied by a filter

---
 src/crashmail/filter.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 9f2ab5b..8355064 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -536,6 +536,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct Area *area;
    struct TextChunk *tmp;
    struct jbList oldlist;
+   bool res;
    char buf[200];
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
@@ -560,17 +561,15 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
-
-   area->NewTexts++;
+   if((res=(*area->Messagebase->importfunc)(mm,area)))
+      area->NewTexts++;
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
-   return(TRUE);
+   return(res);
 }
 
 bool Filter_WriteBad(struct MemMessage *mm,char *reason)
@@ -1015,7 +1014,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+						if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From 10adbcfc1a2ebcb222f9de36a00a90c8cfe7c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 042/107] fix: find text that crosses the boundary of two text
 chunks in filters

---
 src/crashmail/filter.c | 49 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 8355064..5fcf560 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -189,7 +189,9 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 {
    static char errbuf[100];
    struct TextChunk *chunk;
-   long start,pos,c;
+   long start,pos,c,len;
+   char *text;
+   int res;
 
    if(operator[0]==0)
    {
@@ -207,26 +209,49 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
       return(-1);
    }
 
-   bminit(data);
+   /* Search all of the text at once since a match can be divided between chunks */
+
+   len=0;
 
    for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
+      len+=chunk->Length;
+
+   if(!(text=(char *)osAlloc(len+1)))
    {
-      /* Search chunk */
+      nomem=TRUE;
+      *errstr="Out of memory";
+      *errpos=0;
+      return(-1);
+   }
 
-      start=0;
+   len=0;
 
-      while((pos=bmfind(data,chunk->Data,chunk->Length,start)) != -1)
-      {
-         start=pos+1;
+   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
+   {
+      memcpy(&text[len],chunk->Data,chunk->Length);
+      len+=chunk->Length;
+   }
 
-         for(c=pos;c>0 && chunk->Data[c]!=1 && chunk->Data[c]!=13;c--);
+   text[len]=0;
 
-         if(chunk->Data[c]==1 && kludge)  return(1);
-         if(chunk->Data[c]!=1 && !kludge) return(1);
-      }
+   bminit(data);
+
+   res=0;
+   start=0;
+
+   while(res == 0 && (pos=bmfind(data,text,len,start)) != -1)
+   {
+      start=pos+1;
+
+      for(c=pos;c>0 && text[c]!=1 && text[c]!=13;c--);
+
+      if(text[c]==1 && kludge)  res=1;
+      if(text[c]!=1 && !kludge) res=1;
    }
 
-   return(0);
+   osFree(text);
+
+   return(res);
 }
 
 int filter_evalfunc(char *str,int *errpos,char **errstr)
-- 
2.43.0


From a3cca975ea5cb1c2f74c3624fc51a884d0010adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:58 +0000
Subject: [PATCH 043/107] fix: do not write beyond buffers when expanding
 filter commands and bounce reasons

---
 src/crashmail/handle.c | 2 +-
 src/crashmail/misc.c   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 9025429..d2bf7eb 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -955,7 +955,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index b1330f6..8da4259 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -23,10 +23,10 @@ void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
@@ -120,10 +120,10 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
-- 
2.43.0


From cb53929901c35265759e5f8d43f90e12a566983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 044/107] fix: let TOADDR be empty for echomail in filters as
 documented

---
 src/crashmail/filter.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 5fcf560..cf8a11d 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -265,7 +265,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    char var[100],operator[2],data[100];
    int opn,datan,res;
    int c,d;
-   struct Node4D from4d,fromboss,toboss;
+   struct Node4D from4d,fromboss,to4d,toboss;
 
    /* Parse statement */
 
@@ -310,7 +310,12 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    Copy4D(&fromboss,&from4d);
    fromboss.Point=0;
 
-   Copy4D(&toboss,&filter_mm->DestNode);
+   /* Echomail messages have no destination */
+
+   if(filter_mm->Area[0] == 0) Copy4D(&to4d,&filter_mm->DestNode);
+   else                        memset(&to4d,0,sizeof(struct Node4D));
+
+   Copy4D(&toboss,&to4d);
    toboss.Point=0;
 
    /* Make local variables */
@@ -329,10 +334,10 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
    {
-      if(Compare4D(&filter_mm->DestNode,&aka->Node)==0) tolocalaka=TRUE;
+      if(Compare4D(&to4d,&aka->Node)==0) tolocalaka=TRUE;
       if(Compare4D(&from4d,&aka->Node)==0)              fromlocalaka=TRUE;
 
-      if(filter_mm->DestNode.Point != 0)
+      if(to4d.Point != 0)
          if(Compare4D(&aka->Node,&toboss)==0 && aka->Node.Point==0) tolocalpoint=TRUE;
 
       if(from4d.Point != 0)
@@ -344,7 +349,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       if(Compare4D(&cnode->Node,&from4d)==0)   existscfg_fromaddr=TRUE;
       if(Compare4D(&cnode->Node,&fromboss)==0) existscfg_fromboss=TRUE;
 
-      if(Compare4D(&cnode->Node,&filter_mm->DestNode)==0) existscfg_toaddr=TRUE;
+      if(Compare4D(&cnode->Node,&to4d)==0) existscfg_toaddr=TRUE;
       if(Compare4D(&cnode->Node,&toboss)==0)              existscfg_toboss=TRUE;
    }
 
@@ -374,7 +379,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       return filter_comparenode("FROMADDR",&from4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"TOADDR")==0)
-      return filter_comparenode("TOADDR",&filter_mm->DestNode,operator,data,opn,datan,errpos,errstr);
+      return filter_comparenode("TOADDR",&to4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"FROMNAME")==0)
       return filter_comparestring("FROMNAME",filter_mm->From,operator,data,opn,datan,errpos,errstr);
@@ -455,7 +460,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
    {
-      res=filter_nllookup(&filter_mm->DestNode);
+      res=filter_nllookup(&to4d);
 
       if(res == -1)
       {
-- 
2.43.0


From 5b7ca0625b1aa5ccce0f768f499114624003e77b Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 045/107] fix: do not read outside the CRC table when computing
 JAM checksums

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..bbdae86 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(Crc_I ^ tolower((unsigned char)Buffer_PC[c])) & 0xff];
 
    return(Crc_I);
 }
-- 
2.43.0


From baed19f59f7a0b3ec9c61c85c8c5cb6bca18e8cf Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 046/107] fix: export the FLAGS line of JAM messages instead of
 a leftover buffer

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..6c0d7ca 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -871,7 +871,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From ef2053f9a490f6e678bd1639c872d2b432c877cb Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 047/107] fix: do not link JAM messages without MSGID or REPLY
 and deleted messages

---
 src/crashmail/mb_jam.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 6c0d7ca..e6e2cd2 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1274,8 +1274,14 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
 
       if(!res)
       {
-         msgs[c].MsgIdCRC=Header_S.MsgIdCRC;
-         msgs[c].ReplyCRC=Header_S.ReplyCRC;
+         /* Deleted messages and messages without MSGID or REPLY are not linked */
+
+         if(!(Header_S.Attribute & MSG_DELETED))
+         {
+            if(Header_S.MsgIdCRC != JAM_NO_CRC) msgs[c].MsgIdCRC=Header_S.MsgIdCRC;
+            if(Header_S.ReplyCRC != JAM_NO_CRC) msgs[c].ReplyCRC=Header_S.ReplyCRC;
+         }
+
          msgs[c].ReplyTo=Header_S.ReplyTo;
          msgs[c].Reply1st=Header_S.Reply1st;
          msgs[c].ReplyNext=Header_S.ReplyNext;
-- 
2.43.0


From 9e66192cdc86fbe4e3d881480fd7c9b025a5345b Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 048/107] fix: do not export zero bytes at the end of the text
 of JAM messages

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index e6e2cd2..20c5123 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -956,7 +956,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-      if(!(mmAddBuf(&mm->TextChunks,msgtext,Header_S.TxtLen)))
+      if(!(mmAddBuf(&mm->TextChunks,msgtext,(uint32_t)strlen(msgtext))))
       {
          JAM_DelSubPacket(SubPacket_PS);
          osFree(msgtext);
-- 
2.43.0


From a2b35d40386a4ec92dba6c3570af1d9e1ce78c4a Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 049/107] fix: do not replace an existing JAM messagebase that
 cannot be opened by an empty one

---
 src/crashmail/mb_jam.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 20c5123..88dda87 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -72,8 +72,21 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
    {
+      char buf[200];
+
       if(thisbase->Base_PS) free(thisbase->Base_PS);
 
+      /* Do not overwrite an existing messagebase that cannot be opened */
+
+      strcpy(buf,area->area->Path);
+      strcat(buf,EXT_HDRFILE);
+
+      if(osExists(buf))
+      {
+         LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+         return(NULL);
+      }
+
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From 5701498031800dab7ef71ae146d519a3faad05c5 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 050/107] fix: do not count deleted messages when rescanning a
 limited number of JAM messages

---
 src/crashmail/mb_jam.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 88dda87..fc4a9e2 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1095,8 +1095,24 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
    start=ja->BaseNum;
 
-   if(max !=0 && ja->OldNum > max)
-      start=ja->BaseNum+ja->OldNum-max;
+   if(max !=0)
+   {
+      /* Find the last max messages, some may have been deleted */
+
+      s_JamMsgHeader Header_S;
+      uint32_t num;
+
+      num=0;
+      start=ja->BaseNum+ja->OldNum;
+
+      while(start > ja->BaseNum && num < max)
+      {
+         start--;
+
+         if(JAM_ReadMsgHeader(ja->Base_PS,start-ja->BaseNum,&Header_S,NULL)==0 && !(Header_S.Attribute & MSG_DELETED))
+            num++;
+      }
+   }
 
    while(start < ja->BaseNum + ja->OldNum && !ctrlc)
    {
-- 
2.43.0


From 836f997f1e4b4d77204fba8317db28bbbe67b8c8 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:55:24 +0000
Subject: [PATCH 051/107] fix: do not cut control lines longer than 98 bytes
 when storing messages in JAM messagebases

---
 src/crashmail/mb_jam.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index fc4a9e2..4366a3a 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -315,7 +315,8 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],flag[10];
+   char *kludge,*newflags;
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
@@ -348,12 +349,17 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    if(msgsize != 0)
    {
-      if(!(msgtext=osAlloc(msgsize)))
+      /* The text, one kludge line of any length and the unknown flags in it */
+
+      if(!(msgtext=osAlloc(3*msgsize+10)))
       {
          LogWrite(1,SYSTEMERR,"Out of memory");
          JAM_DelSubPacket(SubPacket_PS);
          return(FALSE);
       }
+
+      kludge=&msgtext[msgsize];
+      newflags=&msgtext[2*msgsize+5];
    }
 
    /* Do header */
@@ -478,34 +484,34 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
+               mystrncpy(kludge,&msgtext[linebegin+5],linelen-5+1);
+               stripleadtrail(kludge);
+               jam_addfield(SubPacket_PS,JAMSFLD_PID,kludge);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
+               mystrncpy(kludge,&msgtext[linebegin+7],linelen-7+1);
+               stripleadtrail(kludge);
+               jam_addfield(SubPacket_PS,JAMSFLD_MSGID,kludge);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
+               mystrncpy(kludge,&msgtext[linebegin+7],linelen-7+1);
+               stripleadtrail(kludge);
+               jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,kludge);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
+               mystrncpy(kludge,&msgtext[linebegin+7],linelen-7+1);
+               stripleadtrail(kludge);
 
                jbcpos=0;
                newflags[0]=0;
 
-               while(jbstrcpy(flag,buf,10,&jbcpos))
+               while(jbstrcpy(flag,kludge,10,&jbcpos))
                {
                   uint32_t flagbit;
 
@@ -544,9 +550,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
+               mystrncpy(kludge,&msgtext[linebegin+1],linelen-1+1);
+               stripleadtrail(kludge);
+               jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,kludge);
 					msgpos=linebegin;
             }
          }
-- 
2.43.0


From f6793e30be4fdfa08946431b5ec8531a39ac17e4 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:55:24 +0000
Subject: [PATCH 052/107] fix: do not write beyond buffers when exporting JAM
 messages with long fields

---
 src/crashmail/mb_jam.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4366a3a..069c56b 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -662,6 +662,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    struct Node4D n4d;
    bool hasaddr;
    char flagsbuf[200],filesubject[200];
+   uint32_t fieldlen;
    uint16_t oldattr;
 
    /* Open the area */
@@ -757,10 +758,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    for(Field_PS=JAM_GetSubfield(SubPacket_PS);Field_PS;Field_PS=JAM_GetSubfield(NULL))
    {
+      fieldlen=MIN(Field_PS->DatLen,150); /* Fields copied to buffers here are shorter than this */
+
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,fieldlen+1);
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -773,7 +776,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,fieldlen+1);
 
             if(hasaddr)
             {
@@ -793,12 +796,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,fieldlen+1);
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,fieldlen+1);
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -811,7 +814,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,fieldlen+1);
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -821,7 +824,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,fieldlen+1);
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -854,7 +857,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,fieldlen+1);
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From 144e45f909e65a137694b0e7ae177830e67189c0 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:55:24 +0000
Subject: [PATCH 053/107] fix: unlock the JAM messagebase also if a header
 cannot be read when linking

---
 src/crashmail/mb_jam.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 069c56b..4a23b05 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1373,8 +1373,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From 28c8ccec8658b0c499bc3818f1537980e27fd81d Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 00:55:40 +0000
Subject: [PATCH 054/107] fix: do not strip 8-bit characters from the end of
 strings

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 8da4259..8ce57c0 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From 37356cf9f18e93d5d79998d372a4996d833272a4 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 055/107] fix: complete the last text line of rescanned
 messages so SEEN-BY lines do not run into it

---
 src/crashmail/handle.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index d2bf7eb..8c7c06d 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1740,9 +1740,23 @@ bool HandleNetmail(struct MemMessage *mm)
 bool HandleRescan(struct MemMessage *mm)
 {
    struct Area *temparea;
+   struct TextChunk *chunk;
 
    rescan_total++;
 
+   /* Add CR if last line doesn't end with CR */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0)
+   {
+      if(chunk->Data[chunk->Length-1] != 13)
+      {
+         if(!mmAddBuf(&mm->TextChunks,"\x0d",1))
+            return(FALSE);
+      }
+   }
+
    /* Find area */
 
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
-- 
2.43.0


From a87820a1e87b7a51a97870d53de38ddce9a85eb6 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:10:56 +0000
Subject: [PATCH 056/107] fix: do not read beyond the end of an Origin line
 without address

---
 src/crashmail/misc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 8ce57c0..951c9e9 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -591,12 +591,15 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=13 && origin[pos]!=0 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
+   if(origin[pos]==13 || origin[pos]==0)
+      return(FALSE);
+
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=')' && origin[pos]!=0 && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From 1c9a6b741c8877bf66a6e6c4285fe032e4b73e12 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:20:57 +0000
Subject: [PATCH 057/107] fix: do not copy overlapping strings with strcpy()
 when indexing nodelists

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index bf10bd5..2d1d911 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -158,7 +158,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 		return;
 	}
 
-	strcpy(buf,(char *)GetFilePart(buf));
+	memmove(buf,GetFilePart(buf),strlen(GetFilePart(buf))+1);
 	printf("Processing nodelist %s...\n",buf);
 	osWrite(ifh,buf,100);
 
-- 
2.43.0


From 361cec8965d936967e962ec626fcd1f49d27d72d Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:21:16 +0000
Subject: [PATCH 058/107] fix: malformed nodelist lines and the rest of long
 lines are not nodes, nor is what follows them part of the entry before them

---
 src/tools/crashlist.c | 70 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 2d1d911..efa0318 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -140,12 +140,59 @@ bool FindList(char *dir,char *file,char *dest)
 	return(TRUE);
 }
 
+struct
+{
+	char *keyword;
+	uint32_t level;
+} keywords[] =
+	{ { "Zone,",   1 },
+	  { "Region,", 2 },
+	  { "Host,",   2 },
+	  { "Hub,",    3 },
+	  { "Pvt,",    3 },
+	  { "Hold,",   3 },
+	  { "Down,",   3 },
+	  { ",",       3 },
+	  { "Point,",  4 },
+	  { NULL,      0 } };
+
+#define LEVEL_NONE 5
+
+/* Nodes that are down and lines without a valid number are not usable. What
+   follows belongs to them and not to the entry before them, so nothing is
+   usable until the next entry of the same or a higher level. */
+
+bool UsableLine(char *buf,uint32_t *skip)
+{
+	uint32_t k,c;
+
+	for(k=0;keywords[k].keyword;k++)
+		if(strnicmp(buf,keywords[k].keyword,strlen(keywords[k].keyword))==0) break;
+
+	if(!keywords[k].keyword || keywords[k].level > *skip)
+		return(FALSE);
+
+	buf=&buf[strlen(keywords[k].keyword)];
+
+	for(c=0;isdigit((unsigned char)buf[c]) && c<6;c++);
+
+	if(stricmp(keywords[k].keyword,"Down,")==0 || c==0 || atoi(buf)>65535 || (buf[c]!=',' && (unsigned char)buf[c]>32))
+	{
+		*skip=keywords[k].level;
+		return(FALSE);
+	}
+
+	*skip=LEVEL_NONE;
+	return(TRUE);
+}
+
 void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 {
 	struct idx idx;
 	char buf[500];
 	osFile nfh;
-	bool down=FALSE;
+	uint32_t skip=LEVEL_NONE;
+	bool rest=FALSE;
 	
 	if(!FindList(dir,file,buf))
 		return;
@@ -174,6 +221,13 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 
    while(osFGets(nfh,buf,500))
    {
+		bool isrest=rest; /* of a line that is longer than the buffer */
+
+		rest=(buf[strlen(buf)-1]!=10);
+
+		if(isrest || !UsableLine(buf,&skip))
+			buf[0]=0;
+
 		if(strnicmp(buf,"Zone,",5)==0)
 		{
 			idx.zone=atoi(&buf[5]);
@@ -226,18 +280,6 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
-		if(strnicmp(buf,"Down,",5)==0)
-		{
-			/* Not usable, but following points must not be added to the
-			   previous node */
-
-			down=TRUE;
-		}
-		else if(strnicmp(buf,"Point,",6)!=0 && buf[0]!=';')
-		{
-			down=FALSE;
-		}
-
 		if(strnicmp(buf,",",1)==0)
 		{
 			idx.node=atoi(&buf[1]);
@@ -245,7 +287,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
-		if(strnicmp(buf,"Point,",6)==0 && !down)
+		if(strnicmp(buf,"Point,",6)==0)
 		{
 			idx.point=atoi(&buf[6]);
 			WriteIdx(ifh,&idx);
-- 
2.43.0


From fec1e6ed93071384462615be671d843b66869e25 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 059/107] fix: limits of default and pass-through areas are not
 those of the area before them (crashmaint)

---
 src/tools/crashmaint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..829e039 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -895,6 +895,8 @@ bool ReadConfig(char *file)
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
+         LastArea=NULL; /* Limits that follow belong to this area */
+
          if(stricmp(tag,"DEFAULT")!=0 && strnicmp(tag,"DEFAULT_",8)!=0)
          {
 				if(jbstrcpy(mb,cfgbuf,20,&jbcpos))
-- 
2.43.0


From 4f18fbb8dfe4c918aa137cbd1848baecbdb64bd2 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 060/107] fix: messages dated in the future are not older than
 the limit (crashmaint)

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 829e039..2d918fb 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(today > msg->Day && today - msg->Day > area->KeepDays && msg->Num!=0)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(today > day && today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From 0dc9ef758e731f36c8967ece5f07b5a1d336f185 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 061/107] fix: names of more than 100 characters overran a
 buffer when written to a JAM base

---
 src/jamlib/message.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..df5d5dd 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -424,8 +424,10 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 
 	   /* store username for index file */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      memcpy( User_AC, Subfield_PS->Buffer, Subfield_PS->DatLen );
-	      User_AC[ Subfield_PS->DatLen ] = 0;
+	      uint32_t UserLen_I = Subfield_PS->DatLen > 100 ? 100 : Subfield_PS->DatLen;
+
+	      memcpy( User_AC, Subfield_PS->Buffer, UserLen_I );
+	      User_AC[ UserLen_I ] = 0;
 	   }
 	}
 
-- 
2.43.0


From afe5b91022a23e817512c9225b2dbb7cd49fc100 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 062/107] fix: the high-water mark stays at the last message it
 covers when messages are deleted or renumbered (crashmaint)

---
 src/tools/crashmaint.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 2d918fb..032f0d0 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -212,7 +212,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
    struct StoredMsg StoredMsg;
    osFile fh;
 
-   highwater=0;
    oldhighwater=0;
 
    jbNewList(&MsgList);
@@ -262,7 +261,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
    {
       if(osRead(fh,&StoredMsg,sizeof(struct StoredMsg))==sizeof(struct StoredMsg))
       {
-         highwater=StoredMsg.ReplyTo;
          oldhighwater=StoredMsg.ReplyTo;
       }
       osClose(fh);
@@ -286,9 +284,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          sprintf(buf2,"%u.msg",msg->Num);
          MakeFullPath(area->Path,buf2,buf,200);
 
-         if(msg->Num == highwater)
-            highwater=0;
-
          if(verbose)
             printf(" Deleting message #%u by number\n",msg->Num);
 
@@ -322,9 +317,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
 
-            if(msg->Num == highwater)
-               highwater=0;
-
             if(verbose)
                printf(" Deleting message #%u by date\n",msg->Num);
 
@@ -375,9 +367,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->NewNum);
 				MakeFullPath(area->Path,buf2,newbuf,200);
 
-            if(highwater == msg->Num)
-               highwater=msg->NewNum;
-
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
@@ -393,6 +382,14 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
       printf(" Area renumbered\n");
    }
 
+   /* The highwater mark is the last message left of those it covered */
+
+   highwater=0;
+
+   for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+      if(msg->Num!=0 && msg->Num<=oldhighwater)
+         highwater=pack ? msg->NewNum : msg->Num;
+
    jbFreeList(&MsgList);
 
    if(highwater!=oldhighwater)
-- 
2.43.0


From 4f73c61456d55aa07faca746b83c61ea3aeb4103 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 063/107] fix: reply links follow the messages when *.msg areas
 are renumbered (crashmaint)

---
 src/tools/crashmaint.c | 77 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 032f0d0..a3fb0d1 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -4,6 +4,10 @@
 #include <signal.h>
 #include <errno.h>
 
+#ifdef PLATFORM_LINUX
+#include <utime.h>
+#endif
+
 #include <jamlib/jam.h>
 
 #include <shared/parseargs.h>
@@ -204,6 +208,71 @@ void scanfunc(char *str)
    msg->Day=day;
 }
 
+uint32_t NewNumber(uint32_t num)
+{
+   struct Msg *msg;
+
+   for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+      if(msg->Num!=0 && msg->Num==num)
+         return(msg->NewNum);
+
+   return(0);
+}
+
+/* Updates the reply links of a message when the messages have been renumbered */
+
+void RenumberLinks(char *file)
+{
+   osFile fh;
+   struct osFileEntry *fe;
+   struct StoredMsg StoredMsg;
+   uint16_t replyto,nextreply;
+
+   if(!(fh=osOpen(file,MODE_OLDFILE)))
+      return;
+
+   if(osRead(fh,&StoredMsg,sizeof(struct StoredMsg))!=sizeof(struct StoredMsg))
+   {
+      osClose(fh);
+      return;
+   }
+
+   osClose(fh);
+
+   replyto=NewNumber(StoredMsg.ReplyTo);
+   nextreply=NewNumber(StoredMsg.NextReply);
+
+   if(replyto == StoredMsg.ReplyTo && nextreply == StoredMsg.NextReply)
+      return;
+
+   StoredMsg.ReplyTo=replyto;
+   StoredMsg.NextReply=nextreply;
+
+   fe=osGetFileEntry(file);
+
+   if((fh=osOpen(file,MODE_READWRITE)))
+   {
+      osWrite(fh,&StoredMsg,sizeof(struct StoredMsg));
+      osClose(fh);
+
+#ifdef PLATFORM_LINUX
+      if(fe)
+      {
+         /* The age of the message does not change */
+
+         struct utimbuf ut;
+
+         ut.actime=fe->Date;
+         ut.modtime=fe->Date;
+         utime(file,&ut);
+      }
+#endif
+   }
+
+   if(fe)
+      osFree(fe);
+}
+
 bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 {
    uint32_t today,num,del,highwater,oldhighwater;
@@ -379,6 +448,14 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          return(TRUE);
       }
 
+      for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+         if(msg->Num!=0)
+         {
+            sprintf(buf2,"%u.msg",msg->NewNum);
+            MakeFullPath(area->Path,buf2,newbuf,200);
+            RenumberLinks(newbuf);
+         }
+
       printf(" Area renumbered\n");
    }
 
-- 
2.43.0


From 1f514292c875a4c7a223b8a3f99dcb2771dfe5fd Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:30:13 +0000
Subject: [PATCH 064/107] fix: replies are not cut off from a thread when a
 deleted reply before them is packed away (crashmaint)

---
 src/tools/crashmaint.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index a3fb0d1..cf66ab1 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -511,6 +511,27 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
 long jam_utcoffset = 0xbaadf00d;
 
+/* The first message not deleted in a chain of replies */
+
+uint32_t FollowReplies(s_JamBase *Base_PS,uint32_t basenum,uint32_t total,uint32_t num)
+{
+   s_JamMsgHeader Header_S;
+   uint32_t times;
+
+   for(times=0;num >= basenum && num-basenum < total && times < total;times++)
+   {
+      if(JAM_ReadMsgHeader(Base_PS,num-basenum,&Header_S,NULL))
+         return(0);
+
+      if(!(Header_S.Attribute & MSG_DELETED))
+         return(num);
+
+      num=Header_S.ReplyNext;
+   }
+
+   return(0);
+}
+
 bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 {
    uint32_t today,active,basenum,total,del,num,day;
@@ -788,6 +809,11 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 						return(TRUE);
 					}
 
+					/* Deleted messages leave the chains of replies */
+
+					Header_S.Reply1st=FollowReplies(Base_PS,basenum,total,Header_S.Reply1st);
+					Header_S.ReplyNext=FollowReplies(Base_PS,basenum,total,Header_S.ReplyNext);
+
 				   /* Read message text */
 
 				   msgtext=NULL;
-- 
2.43.0


From 8d3090f670e0a7f0e715c086d83261cc8b674d49 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 065/107] fix: do not copy overlapping strings with strcpy() in
 AreaFix commands

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 30bbc0b..773d88d 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -326,19 +326,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From b7cdbe770f3c295199d5a8845bd9af8718607dcb Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:32:58 +0000
Subject: [PATCH 066/107] fix: the index of a JAM base holds the checksum of
 whole names

---
 src/jamlib/message.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index df5d5dd..6c1cd3c 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -399,10 +399,12 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    /* write Subfields */
    if ( SubPack_PS ) {
 	s_JamSubfield*	Subfield_PS;
-	char 		User_AC[101];
+	char* 		User_PC;
+	uint32_t 	UserLen_I;
 
 	/* clear username */
-	User_AC[0] = 0;
+	User_PC = NULL;
+	UserLen_I = 0;
 
 	for ( Subfield_PS = JAM_GetSubfield( SubPack_PS ); Subfield_PS;
 	   Subfield_PS = JAM_GetSubfield( NULL ) ) {
@@ -424,16 +426,14 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 
 	   /* store username for index file */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      uint32_t UserLen_I = Subfield_PS->DatLen > 100 ? 100 : Subfield_PS->DatLen;
-
-	      memcpy( User_AC, Subfield_PS->Buffer, UserLen_I );
-	      User_AC[ UserLen_I ] = 0;
+	      User_PC = Subfield_PS->Buffer;
+	      UserLen_I = Subfield_PS->DatLen;
 	   }
 	}
 
 	/* update index record */
-	if ( User_AC[0] )
-	   Index_S.UserCRC = JAM_Crc32( User_AC, strlen( User_AC ) );
+	if ( UserLen_I )
+	   Index_S.UserCRC = JAM_Crc32( User_PC, UserLen_I );
 	else
 	   Index_S.UserCRC = JAM_NO_CRC;
    }
-- 
2.43.0


From d0ad104cc0bcab9bf13ecbbcbda748e181f387ea Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 067/107] fix: formatted writes that fail are reported as such

---
 src/oslib_linux/osfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index d0f4d8f..d45a8ba 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -115,7 +115,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -127,7 +127,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
-- 
2.43.0


From beab463f5892e30f44c813ec50841e4e1cf68575 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 068/107] fix: crashwrite does not leave an incomplete packet
 behind if it cannot be written

---
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c | 16 ++++++++++++++--
 src/oslib_win32/osfile.c |  9 +++++++--
 src/tools/crashwrite.c   | 10 +++++++++-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index ac4e957..a730bd8 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -16,7 +16,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os); /* FALSE if something could not be written */
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index d45a8ba..a5b86c9 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -33,9 +33,21 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   bool res;
+
+   res=TRUE;
+
+   /* An earlier write failed or what was still buffered cannot be written */
+
+   if(ferror((FILE *)os))
+      res=FALSE;
+
+   if(fclose((FILE *)os)!=0)
+      res=FALSE;
+
+   return(res);
 }
 
 int osGetChar(osFile os)
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 2f87ad9..98e62c8 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -148,16 +148,21 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res;
+
+   res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      res=win32writebuffer(osf);
 
    CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index dd148e0..0cabacc 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -351,7 +351,15 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+   {
+		uint32_t err=osError();
+      printf("Unable to write packet %s\n",fullname);
+		printf("Error: %s\n",osErrorMsg(err));		
+      osDelete(fullname);
+		osEnd();
+      exit(OS_EXIT_ERROR);
+   }
 
 	osEnd();
 
-- 
2.43.0


From d5861095dcfd6b36f6ad8c889a021fdb2e8eb10c Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 069/107] fix: crashwrite does not overwrite a packet written
 by another program at the same moment

---
 src/tools/crashwrite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 0cabacc..d7ec33c 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -269,9 +269,10 @@ int main(int argc, char **argv)
 		serial++;
       sprintf(pktname,"%08x.pkt",pktnum);
       MakeFullPath(args[ARG_DIR].data,pktname,fullname,200);
-   } while(osExists(fullname));
+      ofh=osOpen(fullname,MODE_NEWONLY);
+   } while(!ofh && osExists(fullname));
 
-   if(!(ofh=osOpen(fullname,MODE_NEWFILE)))
+   if(!ofh)
    {
 		uint32_t err=osError();
       printf("Unable to create packet %s\n",fullname);
-- 
2.43.0


From bb6357fd6e4ebfa8b817b875af0c8ebb881e06d5 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 070/107] fix: crashwrite keeps the lines of the text as they
 are, also those of 98 characters, an unterminated last one and those with NUL
 characters

---
 src/tools/crashwrite.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index d7ec33c..5d28044 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,8 +109,8 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100];
-	int i;
+	char pktname[30],fullname[200];
+	int ch,prevch=0,lastch;
 	
 	from4d.Zone=0;
 	from4d.Net=0;
@@ -331,15 +331,31 @@ int main(int argc, char **argv)
 			exit(OS_EXIT_ERROR);
       }
 
-      while(osFGets(ifh,readbuf,100))
+      lastch=0x0d;
+
+      while((ch=osGetChar(ifh)) != -1)
       {
-			for(i=0;readbuf[i];i++)
-				if(readbuf[i] == '\n') readbuf[i]=0x0d;
+         if(ch == '\n' && prevch == 0x0d)
+         {
+            prevch=0; /* CRLF is one line end */
+            continue;
+         }
+
+         prevch=ch;
 
-         osFPrintf(ofh,"%s",readbuf);
+         if(ch == '\n') ch=0x0d;
+
+         if(ch != 0)
+         {
+            osPutChar(ofh,ch);
+            lastch=ch;
+         }
       }
 
 		osClose(ifh);
+
+      if(args[ARG_AREA].data && lastch != 0x0d)
+         osPutChar(ofh,0x0d);
 	}
 	
    if(args[ARG_AREA].data)
-- 
2.43.0


From f7eb580b1193d5e297e69e7c9a4baa5a619ddb3f Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:47:14 +0000
Subject: [PATCH 071/107] fix: crashwrite does not cut off long directory names
 and write the packet somewhere else

---
 src/tools/crashwrite.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 5d28044..f695a49 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,7 +109,8 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200];
+	char pktname[30],*fullname;
+	uint32_t fulllen;
 	int ch,prevch=0,lastch;
 	
 	from4d.Zone=0;
@@ -260,6 +261,15 @@ int main(int argc, char **argv)
 
 	/* Create pkt file */
 
+	fulllen=strlen((char *)args[ARG_DIR].data)+sizeof(pktname)+2;
+
+	if(!(fullname=(char *)malloc(fulllen)))
+	{
+		printf("Out of memory\n");
+		osEnd();
+		exit(OS_EXIT_ERROR);
+	}
+
 	serial=0;
 
    do
@@ -268,7 +278,7 @@ int main(int argc, char **argv)
       pktnum = (t<<8) + serial;
 		serial++;
       sprintf(pktname,"%08x.pkt",pktnum);
-      MakeFullPath(args[ARG_DIR].data,pktname,fullname,200);
+      MakeFullPath(args[ARG_DIR].data,pktname,fullname,fulllen);
       ofh=osOpen(fullname,MODE_NEWONLY);
    } while(!ofh && osExists(fullname));
 
-- 
2.43.0


From 42ecdc7430b9c9f0c7a35cdbcd0818d50a205722 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:54:05 +0000
Subject: [PATCH 072/107] fix: the lock of a configuration file with a long
 name is released again

---
 src/crashmail/config.c    |  4 ++--
 src/crashmail/config.h    |  2 +-
 src/crashmail/crashmail.c | 17 +++++++++++++----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..12e9af5 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -47,7 +47,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
    uint16_t flags;
 
    cfg->changed=FALSE;
-   mystrncpy(cfg->filename,filename,100);
+   mystrncpy(cfg->filename,filename,300);
 
    *cfgline=0;
 
@@ -2240,7 +2240,7 @@ void WriteArea(struct Area *tmparea,osFile osfh)
 
 bool UpdateConfig(struct Config *cfg,char *cfgerr)
 {
-   char cfgtemp[110],cfgbak[110];
+   char cfgtemp[310],cfgbak[310];
    char cfgword[30],buf[100];
    osFile oldfh,newfh;
    bool skiparea,skipnode,dontwrite,copyres;
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 731f833..077c9c9 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -302,7 +302,7 @@ struct Filter
 struct Config
 {
    bool changed;
-   char filename[100];
+   char filename[300];
    
    char cfg_Sysop[36];
    char cfg_Inbound[100];
diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 60d94d5..d66d971 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -147,7 +147,7 @@ void AfterScanToss(bool success)
 {
    struct Area *area;
    struct ConfigNode *cnode;
-   char errbuf[200];
+   char errbuf[600];
    uint32_t day,d,e,i;
 
    ClosePackets();
@@ -214,7 +214,7 @@ void AfterScanToss(bool success)
          LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
 
          if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
+            LogWrite(1,SYSTEMERR,"%s",errbuf);
       }
    }
 
@@ -477,9 +477,15 @@ bool done_lockconfig;
 
 bool LockConfig(char *file)
 {
-	char buf[200];
+	char buf[310];
 	osFile fp;
 	
+	if(strlen(file) >= 300)
+	{
+		printf("Name of configuration file %s is too long\n",file);
+		return(FALSE);
+	}
+
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
@@ -515,8 +521,11 @@ bool LockConfig(char *file)
 
 void UnlockConfig(char *file)
 {
-	char buf[200];
+	char buf[310];
 	
+	if(strlen(file) >= 300)
+		return;
+
 	strcpy(buf,file);
 	strcat(buf,".busy");
 	
-- 
2.43.0


From 377e8fb2a1bfc44375c57a08aaa9e1a62ab93b3a Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:54:05 +0000
Subject: [PATCH 073/107] fix: a packer that is ended by a signal is not taken
 as successful

---
 src/oslib_linux/osmisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..57dbba5 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,9 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   if(res == -1 || !WIFEXITED(res))
+      return(-1); /* Ended by a signal, not successful */
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From 52b5e106ee6ac3026e6900fa6314d16c56fc1262 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 074/107] fix: do not give up waiting for the lock because it
 changes hands at the wrong moment

---
 src/crashmail/crashmail.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index d66d971..f9e43f7 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -1,5 +1,7 @@
 #include "crashmail.h"
 
+#include <errno.h>
+
 #ifdef PLATFORM_AMIGA
 const char ver[]="\0$VER: CrashMail II/" OS_PLATFORM_NAME " " VERSION " " __AMIGADATE__;
 #endif
@@ -494,16 +496,10 @@ bool LockConfig(char *file)
 
 	while(!(fp=osOpen(buf,MODE_NEWONLY)))
 	{
-		if(!osExists(buf))
+		if(errno != EEXIST)
 		{
-			if((fp=osOpen(buf,MODE_NEWONLY)))
-				break;
-
-			if(!osExists(buf))
-			{
-				printf("Failed to create lock file %s\n",buf);
-				return(FALSE);
-			}
+			printf("Failed to create lock file %s\n",buf);
+			return(FALSE);
 		}
 
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
-- 
2.43.0


From ad28cffe83cf767e45dbfa3d914d54c4df492e46 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:11:57 +0000
Subject: [PATCH 075/107] fix: an existing file that cannot be opened at the
 moment is not emptied

---
 src/oslib_linux/osfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index a5b86c9..681dc59 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <stdio.h>
+#include <errno.h>
 
 #include <shared/types.h>
 
@@ -26,7 +27,7 @@ osFile osOpen(char *name,uint32_t mode)
 	}
 	else
 	{
-   	if(!(fh=fopen(name,"r+b")))
+   	if(!(fh=fopen(name,"r+b")) && errno == ENOENT)
 	      fh=fopen(name,"w+b");
 	}
 	
-- 
2.43.0


From f530a400439646cab8ce036df168359a5fdf5b23 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:11:57 +0000
Subject: [PATCH 076/107] fix: a file that could not be read or written to its
 end does not count as copied

---
 src/crashmail/misc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 951c9e9..ec1720b 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -391,8 +391,11 @@ bool copyfile(char *file,char *newfile)
 
    free(copybuf);
 
-   osClose(ofh);
-   osClose(ifh);
+   if(!osClose(ofh) && !ioerror)
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(!osClose(ifh) && !ioerror)
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
    {
-- 
2.43.0


From c8845a4115b42f90358cd27e85890282691eaa66 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:13:20 +0000
Subject: [PATCH 077/107] fix: messages count as duplicates only once they have
 been processed completely

---
 src/crashmail/crashmail.c |   6 ++
 src/crashmail/dupe.c      | 159 ++++++++++++++++++--------------------
 src/crashmail/dupe.h      |   2 +
 src/crashmail/misc.c      |  11 +++
 src/crashmail/misc.h      |   1 +
 5 files changed, 95 insertions(+), 84 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index f9e43f7..0028aad 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -220,6 +220,12 @@ void AfterScanToss(bool success)
       }
    }
 
+   if(init_dupedb)
+   {
+      if(success) SaveDupeDB();
+      else        ForgetNewDupes();
+   }
+
    if(config.cfg_NodelistType)
       (*config.cfg_NodelistType->nlEnd)();
 
diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 826b45b..fd6287b 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -52,19 +52,33 @@ uint32_t calcstringcrc(char *str)
 
 struct dupeentry
 {
-   uint32_t offset;
+   char *buf;
+   uint16_t size;
    uint32_t crc32;
 };
 
-bool dupechanged;
+bool dupechanged,dupefailed;
 
 struct dupeentry *dupebuf;
 uint32_t dupeentrynum,dupeentrymax;
-osFile dupefh;
 
-void adddupeindex(uint32_t offset,uint32_t crc32)
+void adddupeindex(char *buf,uint16_t size,uint32_t crc32)
 {
-   dupebuf[dupeentrynum].offset=offset;
+   char *newbuf;
+
+   if(!(newbuf=osAlloc(size)))
+   {
+      nomem=TRUE;
+      return;
+   }
+
+   memcpy(newbuf,buf,size);
+
+   if(dupebuf[dupeentrynum].buf)
+      osFree(dupebuf[dupeentrynum].buf);
+
+   dupebuf[dupeentrynum].buf=newbuf;
+   dupebuf[dupeentrynum].size=size;
    dupebuf[dupeentrynum].crc32=crc32;
 
    dupeentrynum++;
@@ -76,43 +90,22 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint32_t c,osFile oldfh,osFile newfh)
+void copydupe(uint32_t c,osFile newfh)
 {
-   char buf[300];
-   uint16_t size;
+   /* Errors are found when the file is closed */
 
-   osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
-
-   if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
-
-   if(osRead(oldfh,buf,size) != size)
-      return;
-
-   if(!osWrite(newfh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
-
-   if(!osWrite(newfh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   osWrite(newfh,&dupebuf[c].size,sizeof(uint16_t));
+   osWrite(newfh,dupebuf[c].buf,dupebuf[c].size);
 }
 
 bool OpenDupeDB(void)
 {
    char buf[300];
-   uint32_t offset,crc32,*crc32p;
+   uint32_t crc32,*crc32p;
    uint16_t size,res;
+   osFile dupefh;
 
-   if(!(dupebuf=osAlloc(config.cfg_DupeSize*sizeof(struct dupeentry))))
+   if(!(dupebuf=osAllocCleared(config.cfg_DupeSize*sizeof(struct dupeentry))))
    {
       LogWrite(1,SYSTEMERR,"Not enough memory for dupe-check buffer\n");
       return(FALSE);
@@ -150,8 +143,6 @@ bool OpenDupeDB(void)
       return(FALSE);
    }
 
-   offset=4;
-
    while(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
    {
       if(size == 0 || size > 300) /* Unreasonably big */
@@ -171,27 +162,37 @@ bool OpenDupeDB(void)
       crc32p=(uint32_t *)buf;
       crc32=*crc32p;
 
-      adddupeindex(offset,crc32);
+      adddupeindex(buf,size,crc32);
+   }
 
-      offset += size+2;
+   if(!osClose(dupefh))
+   {
+      LogWrite(1,SYSTEMERR,"Error when reading dupe file %s, exiting...",config.cfg_DupeFile);
+      return(FALSE);
    }
 
    dupechanged=FALSE;
+   dupefailed=FALSE;
 
    return(TRUE);
 }
 
-void CloseDupeDB(void)
+/* Messages that have not been processed completely are not duplicates the
+   next time they are tossed */
+
+void ForgetNewDupes(void)
+{
+   dupefailed=TRUE;
+}
+
+void SaveDupeDB(void)
 {
    osFile newfh;
    uint32_t c;
    char duptemp[200];
 
-   if(!dupechanged)
-   {
-      osClose(dupefh);
+   if(!dupechanged || dupefailed)
       return;
-   }
 
    strcpy(duptemp,config.cfg_DupeFile);
    strcat(duptemp,".tmp");
@@ -201,61 +202,55 @@ void CloseDupeDB(void)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",duptemp);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-
-      osFree(dupebuf);
-      osClose(dupefh);
-
       return;
    }
 
    osWrite(newfh,DUPES_IDENTIFIER,4);
 
    for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+      copydupe(c,newfh);
 
    for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+      copydupe(c,newfh);
 
-   osClose(dupefh);
-   osClose(newfh);
-   osFree(dupebuf);
+   if(!osClose(newfh))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(duptemp);
+      return;
+   }
+
+   if(!ReplaceFile(duptemp,config.cfg_DupeFile))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",duptemp,config.cfg_DupeFile);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return;
+   }
 
    dupechanged=FALSE;
+}
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+void CloseDupeDB(void)
+{
+   uint32_t c;
 
-   return;
+   for(c=0;c<dupeentrymax;c++)
+      osFree(dupebuf[c].buf);
+
+   osFree(dupebuf);
 }
 
 void AddDupeBuf(char *buf,uint16_t size)
 {
-   uint32_t offset;
    uint32_t crc32,*crc32p;
 
-   osSeek(dupefh,0,OFFSET_END);
-   offset=osFTell(dupefh);
-
    crc32p=(uint32_t *)buf;
    crc32=*crc32p;
 
-   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
-
-   if(!osWrite(dupefh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
-
-   adddupeindex(offset,crc32);
+   adddupeindex(buf,size,crc32);
 
    dupechanged=TRUE;
 }
@@ -273,8 +268,8 @@ int dupecomp(char *d1,char *d2,uint32_t len)
 bool CheckDupe(struct MemMessage *mm)
 {
    uint32_t c,crc32,*crc32p;
-   uint16_t size,dsize;
-   char dbuf[300],buf[300];
+   uint16_t dsize;
+   char dbuf[300];
 
    if(mm->MSGID[0] == 0)
       return(FALSE); /* No dupechecking for messages without MSGID */
@@ -296,13 +291,9 @@ bool CheckDupe(struct MemMessage *mm)
       {
          /* CRC matches, check rest */
 
-         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
-
-         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
-            if(size == dsize)
-               if(osRead(dupefh,buf,(uint32_t)size) == size)
-                  if(dupecomp(buf,dbuf,dsize) == 0)
-                     return(TRUE); /* Dupe */
+         if(dupebuf[c].size == dsize)
+            if(dupecomp(dupebuf[c].buf,dbuf,dsize) == 0)
+               return(TRUE); /* Dupe */
       }
 
 
diff --git a/src/crashmail/dupe.h b/src/crashmail/dupe.h
index accab05..31ca495 100644
--- a/src/crashmail/dupe.h
+++ b/src/crashmail/dupe.h
@@ -1,6 +1,8 @@
 #include "shared/types.h"
 
 bool OpenDupeDB(void);
+void ForgetNewDupes(void);
+void SaveDupeDB(void);
 void CloseDupeDB(void);
 
 bool CheckDupe(struct MemMessage *mm);
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index ec1720b..7334026 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -406,6 +406,17 @@ bool copyfile(char *file,char *newfile)
    return(TRUE);
 }
 
+/* newfile has its old or its new contents, whatever happens */
+
+bool ReplaceFile(char *file,char *newfile)
+{
+#ifdef PLATFORM_WIN32
+   osDelete(newfile);
+#endif
+
+   return osRename(file,newfile);
+}
+
 bool movefile(char *file,char *newfile)
 {
    if(osRename(file,newfile))
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 3c392f9..411fd73 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -32,6 +32,7 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
 void MakeFidoDate(time_t tim,char *dest);
 bool AddTID(struct MemMessage *mm);
 
+bool ReplaceFile(char *file,char *newfile);
 bool movefile(char *file,char *newfile);
 bool copyfile(char *file,char *newfile);
 
-- 
2.43.0


From 2ec5a80b1bf0dd4cd196d768653566195cba365c Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 078/107] fix: the configuration file is replaced in one step
 and only by a complete one

---
 src/crashmail/config.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 12e9af5..924e323 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2361,12 +2361,35 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
          area->changed=FALSE;
       }
 
-   osClose(oldfh);
-   osClose(newfh);
+   if(!osClose(oldfh))
+   {
+      sprintf(cfgerr,"Error when reading file %s",cfg->filename);
+      osClose(newfh);
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   if(!osClose(newfh))
+   {
+      sprintf(cfgerr,"Error when writing to config file %s",cfgtemp);
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
-   osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+   if(!copyfile(cfg->filename,cfgbak))
+   {
+      sprintf(cfgerr,"Unable to copy %s to %s",cfg->filename,cfgbak);
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   if(!ReplaceFile(cfgtemp,cfg->filename))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Unable to rename %s to %s (error: %s)",cfgtemp,cfg->filename,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
    cfg->changed=FALSE;
 
-- 
2.43.0


From d1df6883dbdd6cb921ac258434a77e9fae975b69 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 079/107] fix: inbound files are deleted only when everything
 they lead to has been written

---
 src/crashmail/crashmail.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 0028aad..dfa0de8 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -149,17 +149,33 @@ void AfterScanToss(bool success)
 {
    struct Area *area;
    struct ConfigNode *cnode;
-   char errbuf[600];
+   char errbuf[1000];
    uint32_t day,d,e,i;
 
    ClosePackets();
 
-   if(success)
+   if(ioerror || nomem)
+      success=FALSE;
+
+   if(success && !ArchiveOutbound())
+      success=FALSE;
+
+   if(success && config.changed)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
+
+      if(!UpdateConfig(&config,errbuf))
+      {
+         LogWrite(1,SYSTEMERR,"%s",errbuf);
+         success=FALSE;
+      }
    }
 
+   /* Nothing that came in may be removed before this point */
+
+   if(success)
+      ProcessSafeDelete();
+
    for(i=0;AvailMessagebases[i].name;i++)
       if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
         (*AvailMessagebases[i].afterfunc)(success);
@@ -210,14 +226,6 @@ void AfterScanToss(bool success)
       }
 
       WriteStats(config.cfg_StatsFile);
-
-      if(config.changed)
-      {
-         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
-
-         if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,"%s",errbuf);
-      }
    }
 
    if(init_dupedb)
-- 
2.43.0


From 72fe7c7a1dfbb3bab2d3c35f9f0200f5f59e2d74 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 080/107] fix: a packet that could not be finished is an error

---
 src/crashmail/pkt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 366513a..cc411aa 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -661,7 +661,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh) && !ioerror)
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
@@ -701,6 +703,9 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
-- 
2.43.0


From 085a9b2854acb1cd24f737e05519790261ddf630 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 081/107] fix: an inbound packet is not bad because it cannot
 be read at the moment

---
 src/crashmail/pkt.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cc411aa..5af3fad 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -73,6 +73,19 @@ uint32_t ReadCR(char *buf, uint32_t maxlen, osFile fh)
    return(c);
 }
 
+/* Packets that cannot be read at the moment are not bad */
+
+static bool BadPkt(osFile fh,char *pkt,char *comment)
+{
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Error when reading %s",pkt);
+      return(FALSE);
+   }
+
+   return(BadFile(pkt,comment));
+}
+
 bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(struct MemMessage *mm))
 {
    osFile fh;
@@ -133,9 +146,8 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)
    {
       LogWrite(1,TOSSINGERR,"Packet header in %s is too short",pkt);
-      osClose(fh);
       mmFree(mm);
-      return(BadFile(pkt,"Packet header is too short"));
+      return(BadPkt(fh,pkt,"Packet header is too short"));
    }
 
    if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)
@@ -307,10 +319,9 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    if(osRead(fh,PktMsgHeader,SIZE_PKTMSGHEADER) < 2)
    {
       LogWrite(1,TOSSINGERR,"Message header for msg #1 (offset %d) is too short",msgoffset);
-      osClose(fh);
       mmFree(mm);
       sprintf(buf,"Message header for msg #1 (offset %d) is too short",msgoffset);
-      return(BadFile(pkt,buf));
+      return(BadPkt(fh,pkt,buf));
    }
 
    msgnum=0;
@@ -357,9 +368,8 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       {
          LogWrite(1,TOSSINGERR,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
          sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
-         osClose(fh);
          mmFree(mm);
-         return(BadFile(pkt,buf));
+         return(BadPkt(fh,pkt,buf));
       }
 
       if(longread)
@@ -417,11 +427,10 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 
          if(shortread)
          {
-            osClose(fh);
             mmFree(mm);
             LogWrite(1,TOSSINGERR,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
             sprintf(buf,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
-            return(BadFile(pkt,buf));
+            return(BadPkt(fh,pkt,buf));
          }
 
          if(buf[0])
@@ -479,10 +488,9 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 		 if (PktMsgHeader[0])
 		 {
 		     LogWrite(1,TOSSINGERR,"Packet header too short for msg #%u (offset %d)",msgnum+1,msgoffset);
-		     osClose(fh);
 		     mmFree(mm);
 		     sprintf(buf,"Packet header too short for msg #%u (offset %d)",msgnum+1,msgoffset);
-		     return(BadFile(pkt,buf));
+		     return(BadPkt(fh,pkt,buf));
 		}
 		else
 			// some tossers might produce one zero instead two
@@ -511,7 +519,11 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    printf("                      \x0d");
    fflush(stdout);
 
-   osClose(fh);
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Error when reading %s",pkt);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From d21e24f84f1b3efdc51fff412aaf8abe50ca165b Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 082/107] fix: a configuration file that cannot be read to its
 end is not used

---
 src/crashmail/config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 924e323..ee9d707 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1825,7 +1825,11 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
       }
    }
 
-   osClose(cfgfh);
+   if(!osClose(cfgfh))
+   {
+      sprintf(cfgerr,"Error when reading the file");
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From d4ba29b8c19e61984a170cf56d0fe3c183121e5b Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:15:28 +0000
Subject: [PATCH 083/107] fix: attached files are not lost when they cannot be
 queued

---
 src/crashmail/handle.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 8c7c06d..8ddcbe3 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1650,12 +1650,14 @@ bool HandleNetmail(struct MemMessage *mm)
 					if(osExists(buf))
                {
 						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
+                  if(copyfile(buf,buf2))
+                     AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+
+                  else if(!nomem && !ioerror)
+                     AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
 
 						if(nomem || ioerror)
 							return(FALSE);
-
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
                }
                else
                {
@@ -1667,12 +1669,20 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(movefile(buf2,buf3))
+               if(copyfile(buf2,buf3))
                {
                   AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
+
+						if(nomem || ioerror)
+							return(FALSE);
+
+                  osDelete(buf2);
                }
                else
                {
+						if(nomem || ioerror)
+							return(FALSE);
+
                   AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
                }
             }
-- 
2.43.0


From cf8d64eb90bebaa78e9b0eaea2d89a2af9b920ee Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:15:28 +0000
Subject: [PATCH 084/107] fix: a bundle is not bad because it cannot be read at
 the moment

---
 src/crashmail/toss.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 389a024..4c1386e 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -28,27 +28,39 @@ bool Compare(char *str,char *recog)
    return(TRUE);
 }
 
-struct Packer *DetectPacker(char *file)
+bool DetectPacker(char *file,struct Packer **packer)
 {
    osFile fh;
    char buf[40];
    struct Packer *tmppacker;
 
+   *packer=NULL;
+   memset(buf,0,40);
+
    if(!(fh=osOpen(file,MODE_OLDFILE)))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Unable to open %s",file);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return(NULL);
+      return(FALSE);
    }
 
    osRead(fh,buf,40);
-   osClose(fh);
+
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Error when reading %s",file);
+      return(FALSE);
+   }
 
    for(tmppacker=(struct Packer *)config.PackerList.First;tmppacker;tmppacker=tmppacker->Next)
-      if(Compare(buf,tmppacker->Recog)) return(tmppacker);
+      if(Compare(buf,tmppacker->Recog))
+      {
+         *packer=tmppacker;
+         break;
+      }
 
-   return(NULL);
+   return(TRUE);
 }
 
 void LogTossResults(void)
@@ -93,7 +105,10 @@ bool TossBundle(char *file,struct osFileEntry *fe)
       return(TRUE);
    }
 
-   if(!(tmppacker=(struct Packer *)DetectPacker(file)))
+   if(!DetectPacker(file,&tmppacker))
+      return(FALSE);
+
+   if(!tmppacker)
    {
       LogWrite(1,TOSSINGINFO,"Failed to recognize archive type of %s",file);
       return(BadFile(file,"Unknown packer"));
-- 
2.43.0


From 52aae1b8d1cf34cb51943444c21e39286b36f831 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 085/107] fix: waiting echomail for a node that is no longer
 configured can be sent

---
 src/crashmail/outbound.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..7d810ca 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -740,10 +740,10 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
          if(!movefile(file,pktname))
          {
@@ -753,8 +753,10 @@ bool PackFile(char *file)
          }
          else
          {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+            type=cnode ? cnode->EchomailPri : PKTS_NORMAL;
+
+            if(!doAddFlow(pktname,basename,type,FLOW_DELETE))
+               MakeOrphan(pktname,&n4d,type,FLOW_DELETE);
          }
       }
    }
-- 
2.43.0


From be1075e6add05a8ab018ff1f3abac5f18d7a1035 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 086/107] fix: notice when a file could not be added to a flow
 file

---
 src/crashmail/outbound.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 7d810ca..d2335dd 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -447,7 +447,7 @@ void HandleOrphan(char *name)
 	UnlockBasename(basename);
 }
 
-void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
    char buf[200];
    osFile fh;
@@ -460,7 +460,7 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
@@ -470,7 +470,16 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    strcat(buf,"\n");
 
    osPuts(fh,buf);
-   osClose(fh);
+
+   if(!osClose(fh))
+   {
+      sprintf(buf,"%s.orphan",file);
+      LogWrite(1,SYSTEMERR,"Failed to write \"%s\"",buf);
+      osDelete(buf);
+      return(FALSE);
+   }
+
+   return(TRUE);
 }
 
 /* Only call if file is already locked */
@@ -533,7 +542,11 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
    else                         osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to write to \"%s.%clo\"",basename,letter);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
@@ -548,12 +561,16 @@ bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode)
 	if(!LockBasename(basename))
 	{
 		printf("Cannot add to %s, node is busy...\n",GetFilePart(basename));
-		MakeOrphan(filename,n4d,type,mode);
+
+		if(!MakeOrphan(filename,n4d,type,mode))
+			{ ioerror=TRUE; ioerrornum=osError(); }
+
 		return(FALSE);
 	}
 
 	if(!doAddFlow(filename,basename,type,mode))
-		MakeOrphan(filename,n4d,type,mode);
+		if(!MakeOrphan(filename,n4d,type,mode))
+			{ ioerror=TRUE; ioerrornum=osError(); }
 
 	UnlockBasename(basename);
 
-- 
2.43.0


From 649f4a7126a614d4c7cc9c1ae1ad30977e57b80d Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 087/107] fix: packets are kept until they have been queued
 completely

---
 src/crashmail/outbound.c | 175 +++++++++++++++++++++++++--------------
 1 file changed, 115 insertions(+), 60 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index d2335dd..4314f9d 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -617,15 +617,98 @@ void UpdateFile(char *name)
 
 #define COPYBUFSIZE 5000
 
+/* Copies a packet, after the messages of another packet if there is one.
+   The packet has to stay where it is until it has been queued. */
+
+static bool CopyPkt(char *file,char *dest,char *first)
+{
+   char *copybuf;
+   uint32_t readlen;
+   off_t left;
+   osFile ifh,ofh;
+   bool res;
+
+   if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
+   {
+      nomem=TRUE;
+      return(FALSE);
+   }
+
+   if(!(ofh=osOpen(dest,MODE_NEWFILE)))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",dest);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osFree(copybuf);
+      return(FALSE);
+   }
+
+   res=TRUE;
+
+   if(first)
+   {
+      if((ifh=osOpen(first,MODE_OLDFILE)))
+      {
+         osSeek(ifh,0,OFFSET_END);
+         left=osFTell(ifh)-2; /* Everything but the end mark */
+         osSeek(ifh,0,OFFSET_BEGINNING);
+
+         while(left > 0 && (readlen=osRead(ifh,copybuf,left < COPYBUFSIZE ? left : COPYBUFSIZE)))
+         {
+            osWrite(ofh,copybuf,readlen);
+            left-=readlen;
+         }
+
+         if(!osClose(ifh) || left > 0)
+            res=FALSE;
+      }
+      else
+      {
+         res=FALSE;
+      }
+   }
+
+   if(res)
+   {
+      if((ifh=osOpen(file,MODE_OLDFILE)))
+      {
+         if(first)
+            osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
+
+         while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+            osWrite(ofh,copybuf,readlen);
+
+         if(!osClose(ifh))
+            res=FALSE;
+      }
+      else
+      {
+         res=FALSE;
+      }
+   }
+
+   if(!osClose(ofh))
+      res=FALSE;
+
+   osFree(copybuf);
+
+   if(!res)
+   {
+      LogWrite(1,SYSTEMERR,"Failed to copy \"%s\" to \"%s\"",file,dest);
+      osDelete(dest);
+   }
+
+   return(res);
+}
+
 bool PackFile(char *file)
 {
-   char basename[200],arcname[200],pktname[200],buf[200],buf2[200],*copybuf;
-   uint32_t jbcpos,readlen;
+   char basename[200],arcname[200],pktname[200],buf[200],buf2[200];
+   uint32_t jbcpos;
    int c,res;
    struct Node4D n4d;
    char type;
 	char letter;
-	osFile ifh,ofh;
 
    /* Parse filename */
 
@@ -711,7 +794,11 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         if(!CopyPkt(file,pktname,NULL))
+         {
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -720,7 +807,7 @@ bool PackFile(char *file)
 
             if(res != 0)
             {
-	            osRename(pktname,file);
+	            osDelete(pktname);
                LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
 	   			UnlockBasename(basename);
    				return(FALSE);
@@ -737,11 +824,15 @@ bool PackFile(char *file)
             osDelete(pktname);
 
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+               if(!MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE))
+               {
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
          }
          else
          {
-	         osRename(pktname,file);
+	         osDelete(pktname);
             LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
 				UnlockBasename(basename);
 				return(FALSE);
@@ -762,9 +853,8 @@ bool PackFile(char *file)
 				n4d.Node,
 				n4d.Point);
 
-         if(!movefile(file,pktname))
+         if(!CopyPkt(file,pktname,NULL))
          {
-            LogWrite(1,SYSTEMERR,"Failed to move file \"%s\" to \"%s\"",file,pktname);
 				UnlockBasename(basename);
 				return(FALSE);
          }
@@ -773,7 +863,11 @@ bool PackFile(char *file)
             type=cnode ? cnode->EchomailPri : PKTS_NORMAL;
 
             if(!doAddFlow(pktname,basename,type,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,type,FLOW_DELETE);
+               if(!MakeOrphan(pktname,&n4d,type,FLOW_DELETE))
+               {
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
          }
       }
    }
@@ -806,71 +900,32 @@ bool PackFile(char *file)
 			n4d.Point,
 			prinames[(int)type]);
 
-		if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
+		strcpy(buf2,buf);
+		strcat(buf2,".tmp");
+
+		if(!CopyPkt(file,buf2,osExists(buf) ? buf : NULL))
 		{
-			nomem=TRUE;
 			UnlockBasename(basename);
 			return(FALSE);
 		}
-		
-		if(!(ifh=osOpen(file,MODE_OLDFILE)))
+
+		if(!ReplaceFile(buf2,buf))
 		{
 			uint32_t err=osError();
-			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
+			LogWrite(1,SYSTEMERR,"Failed to rename \"%s\" to \"%s\"",buf2,buf);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-			osFree(copybuf);
+			osDelete(buf2);
 			UnlockBasename(basename);
 			return(FALSE);
 		}
-		
-		if(osExists(buf))
-		{
-			if(!(ofh=osOpen(buf,MODE_READWRITE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
-
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
-		}
-		else
-		{
-			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
-		}
+   }
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
-		{
-			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
-		}
-				
-		osClose(ifh);
-		osClose(ofh);
-		osFree(copybuf);
+	/* Only now the packet is no longer needed */
 
-		osDelete(file);
-   }
+	osDelete(file);
 
 	UnlockBasename(basename);
 	
-	if(ioerror)
-		return(FALSE);
-	
 	return(TRUE);
 }
 
-- 
2.43.0


From 019823b5f0a05fe0460211a47221731105afd252 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:21:02 +0000
Subject: [PATCH 088/107] fix: messages in *.msg areas that cannot be read at
 the moment are neither skipped nor exported in part

---
 src/crashmail/mb_msg.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 1a69f58..b1abbd9 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -195,22 +195,30 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(!(ma=msg_getarea(area)))
       return(FALSE);
 
-   if(!(mm=mmAlloc()))
-      return(FALSE);
-
    sprintf(buf2,"%u.msg",num);
    MakeFullPath(area->Path,buf2,buf,200);
 
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
-      /* Message doesn't exist */
-      return(TRUE);
+		uint32_t err=osError();
+
+      if(!osExists(buf))
+         return(TRUE); /* Message doesn't exist */
+
+      LogWrite(1,SYSTEMERR,"Failed to open %s",buf);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
    }
 
    if(osRead(fh,&Msg,sizeof(struct StoredMsg))!=sizeof(struct StoredMsg))
    {
+      if(!osClose(fh))
+      {
+         LogWrite(1,SYSTEMERR,"Error when reading %s",buf);
+         return(FALSE);
+      }
+
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
-      osClose(fh);
       return(TRUE);
    }
 
@@ -224,6 +232,12 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		}
    }
 
+   if(!(mm=mmAlloc()))
+   {
+      osClose(fh);
+      return(FALSE);
+   }
+
    mm->OrigNode.Net=Msg.OrigNet;
    mm->OrigNode.Node=Msg.OrigNode;
    mm->DestNode.Net=Msg.DestNet;
@@ -303,7 +317,12 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    } while(!msg_messageend && !msg_shortread);
 
-   osClose(fh);
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Error when reading message %u in %s",num,area->Tagname);
+      mmFree(mm);
+      return(FALSE);
+   }
 
    mm->msgnum=num;
 
-- 
2.43.0


From 516dc7cdb5194d3d509e0187f5e90a1806075845 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:21:02 +0000
Subject: [PATCH 089/107] fix: messages in *.msg areas are either complete or
 not there at all

---
 src/crashmail/mb_msg.c | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index b1abbd9..9a2296d 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -434,10 +434,29 @@ bool msg_GetHighLowMsg(struct msg_Area *area)
    return(TRUE);
 }
 
+/* Closes a file and gives it its real name only if it is complete */
+
+bool msg_finish(osFile fh,char *tmp,char *file)
+{
+   if(!osClose(fh) && !ioerror)
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(!ioerror && !ReplaceFile(tmp,file))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(ioerror)
+   {
+      osDelete(tmp);
+      return(FALSE);
+   }
+
+   return(TRUE);
+}
+
 bool msg_WriteHighWater(struct msg_Area *area)
 {
    osFile fh;
-   char buf[200];
+   char buf[200],tmp[210];
    struct StoredMsg Msg;
 
    if(area->HighWater > 65535)
@@ -469,8 +488,9 @@ bool msg_WriteHighWater(struct msg_Area *area)
    Msg.NextReply=0;
 
    MakeFullPath(area->area->Path,"1.msg",buf,200);
+   sprintf(tmp,"%s.tmp",buf);
 
-   if(!(fh=osOpen(buf,MODE_NEWFILE)))
+   if(!(fh=osOpen(tmp,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write Highwater mark to %s",buf);
@@ -484,12 +504,7 @@ bool msg_WriteHighWater(struct msg_Area *area)
    if(!osWrite(fh,"",1))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
-
-   if(ioerror)
-      return(FALSE);
-
-   return(TRUE);
+   return msg_finish(fh,tmp,buf);
 }
 
 bool msg_WriteMSG(struct MemMessage *mm,char *file)
@@ -497,6 +512,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    struct StoredMsg Msg;
    struct TextChunk *chunk;
    struct Path *path;
+   char tmp[210];
    osFile fh;
    int c;
    
@@ -536,7 +552,9 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       Msg.OrigPoint  =  0;
    }
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   sprintf(tmp,"%s.tmp",file);
+
+   if(!(fh=osOpen(tmp,MODE_NEWFILE)))
    {
       printf("Failed to write to %s\n",file);
       return(FALSE);
@@ -564,6 +582,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       if(!(sbbuf=mmMakeSeenByBuf(&mm->SeenBy)))
       {
          osClose(fh);
+         osDelete(tmp);
          return(FALSE);
       }
 
@@ -595,12 +614,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
-
-   if(ioerror)
-      return(FALSE);
-
-   return(TRUE);
+   return msg_finish(fh,tmp,file);
 }
 
 uint32_t msg_ReadCR(char *buf, uint32_t maxlen, osFile fh)
-- 
2.43.0


From 0b16a26a868e2301553372b1a3a8c50a23332ebf Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:21:02 +0000
Subject: [PATCH 090/107] fix: exported messages in *.msg areas are marked as
 sent only when they have been queued

---
 src/crashmail/mb_msg.c | 88 +++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 9a2296d..83873b9 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -16,7 +16,20 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file);
 uint32_t msg_ReadCR(char *buf, uint32_t maxlen, osFile fh);
 bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning);
 
+/* Exported messages, they are marked as sent when everything has been queued */
+
+struct msg_Exported
+{
+   struct msg_Exported *Next;
+   struct Area *area;
+   uint32_t num;
+   bool delete;
+   struct StoredMsg Msg;
+   struct MemMessage *mm; /* Only for MSG_WRITEBACK */
+};
+
 struct jbList msg_AreaList;
+struct jbList msg_ExportedList;
 
 bool msg_messageend;
 bool msg_shortread;
@@ -50,13 +63,53 @@ struct msg_Area *msg_getarea(struct Area *area)
 bool msg_beforefunc(void)
 {
    jbNewList(&msg_AreaList);
+   jbNewList(&msg_ExportedList);
 
    return(TRUE);
 }
 
+void msg_MarkExported(struct msg_Exported *me)
+{
+   char buf[200],buf2[50];
+   osFile fh;
+
+   sprintf(buf2,"%u.msg",me->num);
+   MakeFullPath(me->area->Path,buf2,buf,200);
+
+   if(me->delete)
+   {
+		/* Delete message with KILLSENT flag */
+
+		LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
+	   osDelete(buf);
+   }
+   else if(me->mm)
+   {
+     	me->mm->Attr=me->Msg.Attr;
+      msg_WriteMSG(me->mm,buf);
+   }
+  	else if((fh=osOpen(buf,MODE_READWRITE)))
+	{
+  	   osWrite(fh,&me->Msg,sizeof(struct StoredMsg));
+     	osClose(fh);
+   }
+}
+
 bool msg_afterfunc(bool success)
 {
    struct msg_Area *ma;
+   struct msg_Exported *me;
+
+   for(me=(struct msg_Exported *)msg_ExportedList.First;me;me=me->Next)
+   {
+      if(success)
+         msg_MarkExported(me);
+
+      if(me->mm)
+         mmFree(me->mm);
+   }
+
+   jbFreeList(&msg_ExportedList);
 
    if(success && (config.cfg_msg_Flags & CFG_MSG_HIGHWATER))
       for(ma=(struct msg_Area *)msg_AreaList.First;ma;ma=ma->Next)
@@ -191,6 +244,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    struct MemMessage *mm;
 	uint16_t oldattr;
    struct msg_Area *ma;
+   struct msg_Exported *me;
 
    if(!(ma=msg_getarea(area)))
       return(FALSE);
@@ -339,35 +393,33 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-      sprintf(buf2,"%u.msg",num);
-      MakeFullPath(area->Path,buf2,buf,200);
+      if(!(me=osAllocCleared(sizeof(struct msg_Exported))))
+      {
+         nomem=TRUE;
+         mmFree(mm);
+         return(FALSE);
+      }
+
+      jbAddNode(&msg_ExportedList,(struct jbNode *)me);
+      me->area=area;
+      me->num=num;
 
 		if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
 		{
-			/* Delete message with KILLSENT flag */
-
-			LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   osDelete(buf);
+         me->delete=TRUE;
 		}
 		else
 		{
          ma->HighWater=num;
 
          Msg.Attr|=FLAG_SENT;
+         me->Msg=Msg;
 
    	   if(config.cfg_msg_Flags & CFG_MSG_WRITEBACK)
-      	{
-         	mm->Attr=Msg.Attr;
-	         msg_WriteMSG(mm,buf);
-   	   }
-      	else
-	      {
-   	      if((fh=osOpen(buf,MODE_READWRITE)))
-      	   {
-         	   osWrite(fh,&Msg,sizeof(struct StoredMsg));
-            	osClose(fh);
-	         }
-   	   }
+         {
+            me->mm=mm;
+            return(TRUE);
+         }
 		}
    }
 
-- 
2.43.0


From bb0ca8d23f92075d8b50ec55fc8cdaad324b3eea Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:23:21 +0000
Subject: [PATCH 091/107] fix: a message counts as written to a JAM messagebase
 only if it is really there

---
 src/crashmail/mb_jam.c |  4 +++-
 src/jamlib/mbase.c     | 22 ++++++++++++++++------
 src/jamlib/message.c   |  6 ++++++
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4a23b05..c947e2d 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -621,7 +621,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   if(JAM_UnlockMB(ja->Base_PS))
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..c4166ce 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -332,12 +332,19 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Flush_I, Status_I;
 
-    return jam_Lock( Base_PS, 0 );
+    Flush_I  = fflush( Base_PS->HdrFile_PS );
+    Flush_I |= fflush( Base_PS->TxtFile_PS );
+    Flush_I |= fflush( Base_PS->IdxFile_PS );
+    Flush_I |= fflush( Base_PS->LrdFile_PS );
+
+    if ( Flush_I )
+	Base_PS->Errno_I = errno;
+
+    Status_I = jam_Lock( Base_PS, 0 );
+
+    return Flush_I ? JAM_IO_ERROR : Status_I;
 }
 
 /***********************************************************************
@@ -391,7 +398,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 6c1cd3c..58bb000 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -445,6 +445,12 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    **  Add index
    */
 
+   /* the index record may only refer to what has been written completely */
+   if ( fflush( Base_PS->TxtFile_PS ) || fflush( Base_PS->HdrFile_PS ) ) {
+		Base_PS->Errno_I = errno;
+		return JAM_IO_ERROR;
+   }
+
    /* write index record */
    if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ) {
 		Base_PS->Errno_I = errno;
-- 
2.43.0


From 83be978db8791605a5e2c66b4a5650e90ef6aa9f Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:23:21 +0000
Subject: [PATCH 092/107] fix: a JAM messagebase whose creation was interrupted
 does not block its area for ever

---
 src/crashmail/mb_jam.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index c947e2d..08652a6 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -2,6 +2,8 @@
 
 #include "crashmail.h"
 
+#define JAM_BASEHEADERSIZE 1024 /* The header of a messagebase is always complete */
+
 #define MIN(a,b)  ((a)<(b)? (a):(b))
 
 struct openbase
@@ -35,6 +37,7 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 {
    int c;
    struct openbase *thisbase;
+   bool opened;
 
    /* See if that area already is open */
 
@@ -70,9 +73,27 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    /* Open area */
 
-   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+   opened=FALSE;
+
+   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS)==0)
+   {
+      opened=TRUE;
+
+      /* The creation of the messagebase may have been interrupted */
+
+      fseek(thisbase->Base_PS->HdrFile_PS,0,SEEK_END);
+
+      if(ftell(thisbase->Base_PS->HdrFile_PS) < JAM_BASEHEADERSIZE)
+      {
+         JAM_CloseMB(thisbase->Base_PS);
+         opened=FALSE;
+      }
+   }
+
+   if(!opened)
    {
       char buf[200];
+      struct osFileEntry *fe;
 
       if(thisbase->Base_PS) free(thisbase->Base_PS);
 
@@ -83,8 +104,16 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
       if(osExists(buf))
       {
-         LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
-         return(NULL);
+         fe=osGetFileEntry(buf);
+
+         if(!fe || fe->Size >= JAM_BASEHEADERSIZE)
+         {
+            LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+            if(fe) osFree(fe);
+            return(NULL);
+         }
+
+         osFree(fe);
       }
 
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
-- 
2.43.0


From 5f539dd3ae7d36110f8cffdde78b0a6a9dee14ca Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:23:21 +0000
Subject: [PATCH 093/107] fix: messages in JAM areas that cannot be read at the
 moment are not skipped

---
 src/crashmail/mb_jam.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 08652a6..1243194 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -198,7 +198,7 @@ void jam_gethighwater(struct jam_Area *ja)
 
    if((fh=osOpen(buf,MODE_OLDFILE)))
    {
-      if(osRead(fh,&num,sizeof(uint32_t)))
+      if(osRead(fh,&num,sizeof(uint32_t)) == sizeof(uint32_t))
       {
          ja->HighWater=num;
          ja->OldHighWater=num;
@@ -210,19 +210,22 @@ void jam_gethighwater(struct jam_Area *ja)
 
 void jam_writehighwater(struct jam_Area *ja)
 {
-   char buf[200];
+   char buf[200],tmp[210];
    osFile fh;
    uint32_t num;
 
    strcpy(buf,ja->area->Path);
    strcat(buf,".cmhw");
+   sprintf(tmp,"%s.tmp",buf);
    
    num=ja->HighWater;
 
-   if((fh=osOpen(buf,MODE_NEWFILE)))
+   if((fh=osOpen(tmp,MODE_NEWFILE)))
    {
       osWrite(fh,&num,sizeof(uint32_t));
-      osClose(fh);
+
+      if(!osClose(fh) || !ReplaceFile(tmp,buf))
+         osDelete(tmp);
    }
 }
 
@@ -714,6 +717,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       else
       {
          LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",num,area->Path);
+
+         /* Try again later if it could not be read at the moment */
+
+         if(ferror(ja->Base_PS->HdrFile_PS) || ferror(ja->Base_PS->IdxFile_PS))
+            return(FALSE);
+
          return(TRUE);
       }
    }
@@ -758,6 +767,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       {
          LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",num,area->Path);
          JAM_DelSubPacket(SubPacket_PS);
+         osFree(msgtext);
          return(FALSE);
       }
 
-- 
2.43.0


From 1ae03b359779089bc44f69b6767ee954b48fe84d Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:23:21 +0000
Subject: [PATCH 094/107] fix: exported messages in JAM areas are marked as
 sent only when they have been queued

---
 src/crashmail/mb_jam.c | 59 ++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 1243194..b872b65 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -25,7 +25,18 @@ struct jam_Area
    bool newmsg;
 };
 
+/* Exported messages, they are marked as sent when everything has been queued */
+
+struct jam_Exported
+{
+   struct jam_Exported *Next;
+   struct Area *area;
+   uint32_t num;
+   s_JamMsgHeader Header_S;
+};
+
 struct jbList jam_AreaList;
+struct jbList jam_ExportedList;
 struct openbase *jam_openbases;
 
 uint32_t jam_lastnum;
@@ -235,6 +246,7 @@ bool jam_beforefunc(void)
    struct tm *tp;
 
    jbNewList(&jam_AreaList);
+   jbNewList(&jam_ExportedList);
 
    if(config.cfg_jam_MaxOpen == 0)
       config.cfg_jam_MaxOpen = 5;
@@ -258,10 +270,36 @@ bool jam_beforefunc(void)
    return(TRUE);
 }
 
+void jam_MarkExported(struct jam_Exported *je)
+{
+   struct jam_Area *ja;
+
+   if(!(ja=jam_getarea(je->area)))
+      return;
+
+   if(JAM_LockMB(ja->Base_PS,10))
+  	{
+     	LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",je->area->Path);
+      return;
+   }
+
+   if(JAM_ChangeMsgHeader(ja->Base_PS,je->num-ja->BaseNum,&je->Header_S))
+      LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",je->num,je->area->Path);
+
+   JAM_UnlockMB(ja->Base_PS);
+}
+
 bool jam_afterfunc(bool success)
 {
    int c;
    struct jam_Area *ja;
+   struct jam_Exported *je;
+
+   if(success)
+      for(je=(struct jam_Exported *)jam_ExportedList.First;je;je=je->Next)
+         jam_MarkExported(je);
+
+   jbFreeList(&jam_ExportedList);
 
    if(success && (config.cfg_jam_Flags & CFG_JAM_HIGHWATER))
       for(ja=(struct jam_Area *)jam_AreaList.First;ja;ja=ja->Next)
@@ -687,6 +725,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 {
    struct MemMessage *mm;
    struct jam_Area *ja;
+   struct jam_Exported *je;
    char *msgtext;
    char buf[200],domain[20];
    int res,c;
@@ -1066,25 +1105,17 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       Header_S.DateProcessed = time(NULL);
       Header_S.DateProcessed -= jam_utcoffset;
 
-      /* jam_openbases might have been changed in handlefunc */
-
-      if(!(ja=jam_getarea(area)))
+      if(!(je=osAllocCleared(sizeof(struct jam_Exported))))
       {
+         nomem=TRUE;
          mmFree(mm);
          return(FALSE);
       }
 
-      if(JAM_LockMB(ja->Base_PS,10))
-   	{
-      	LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",area->Path);
-         mmFree(mm);
-         return(FALSE);
-	   }
-
-      if(JAM_ChangeMsgHeader(ja->Base_PS,num-ja->BaseNum,&Header_S))
-         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",num,area->Path);
-
-      JAM_UnlockMB(ja->Base_PS);
+      jbAddNode(&jam_ExportedList,(struct jbNode *)je);
+      je->area=area;
+      je->num=num;
+      je->Header_S=Header_S;
    }
 
    mmFree(mm);
-- 
2.43.0


From ecc3e6f5b726b742db298cd2aae1891ea5ff0f3a Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:23:21 +0000
Subject: [PATCH 095/107] fix: the statistics file is either complete or left
 as it was

---
 src/crashmail/stats.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 12fffcc..4e78927 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -40,12 +40,15 @@ bool WriteStats(char *file)
    struct DiskAreaStats dastat;
    struct DiskNodeStats dnstat;
    osFile fh;
+   char tmp[210];
    uint32_t areas,nodes;
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   sprintf(tmp,"%s.tmp",file);
+
+   if(!(fh=osOpen(tmp,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",file);
+      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",tmp);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
@@ -109,7 +112,12 @@ bool WriteStats(char *file)
       osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
    }
 
-   osClose(fh);
+   if(!osClose(fh) || !ReplaceFile(tmp,file))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to write %s",file);
+      osDelete(tmp);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From ad441587b27166848e1321e5c02cf8ddbef9b256 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 096/107] fix: a dupe file that could not be created completely
 does not block all later runs

The identifier is written together with the first entries; until then the
file is empty and counts as a new one.
---
 src/crashmail/dupe.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index fd6287b..5715a4e 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -132,9 +132,6 @@ bool OpenDupeDB(void)
       /* New file */
 
 		LogWrite(3,TOSSINGINFO,"Creating new dupe file %s",config.cfg_DupeFile);
-
-      strcpy(buf,DUPES_IDENTIFIER);
-      osWrite(dupefh,buf,4);
    }
    else if(res != 4 || strcmp(buf,DUPES_IDENTIFIER)!=0)
    {
-- 
2.43.0


From c72d530083d988424981131631af3a9e92ec38d6 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 097/107] fix: an incomplete index record in a JAM messagebase
 does not spoil the messages added later

---
 src/jamlib/message.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 58bb000..ddd4503 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -370,6 +370,15 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 	return JAM_IO_ERROR;
    }
 
+   /* what is left of an incomplete index record is overwritten */
+   if ( Offset_I % sizeof( s_JamIndex ) ) {
+	Offset_I -= Offset_I % sizeof( s_JamIndex );
+	if ( fseek( Base_PS->IdxFile_PS, Offset_I, SEEK_SET ) ) {
+		Base_PS->Errno_I = errno;
+		return JAM_IO_ERROR;
+	}
+   }
+
    /* update header */
    Header_PS->MsgNum = Offset_I / sizeof( s_JamIndex ) +
 		                 BaseHeader_S.BaseMsgNum;
-- 
2.43.0


From 9c9f6fbfb7f15dcc03be3f87d44a748d50353974 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 098/107] fix: the dupe file knows the messages of a packet
 before the packet is deleted

---
 src/crashmail/crashmail.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index dfa0de8..4a8896f 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -173,6 +173,12 @@ void AfterScanToss(bool success)
 
    /* Nothing that came in may be removed before this point */
 
+   if(init_dupedb)
+   {
+      if(success) SaveDupeDB();
+      else        ForgetNewDupes();
+   }
+
    if(success)
       ProcessSafeDelete();
 
@@ -228,12 +234,6 @@ void AfterScanToss(bool success)
       WriteStats(config.cfg_StatsFile);
    }
 
-   if(init_dupedb)
-   {
-      if(success) SaveDupeDB();
-      else        ForgetNewDupes();
-   }
-
    if(config.cfg_NodelistType)
       (*config.cfg_NodelistType->nlEnd)();
 
-- 
2.43.0


From 6bdabb52fe596a05b02ac7021a07567749634771 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 04:07:08 +0000
Subject: [PATCH 099/107] fix: CrashWrite does not write half of a text that
 cannot be read

---
 src/tools/crashwrite.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index f695a49..47e9f21 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -362,7 +362,16 @@ int main(int argc, char **argv)
          }
       }
 
-		osClose(ifh);
+		if(!osClose(ifh))
+		{
+			uint32_t err=osError();
+			printf("Unable to read \"%s\"\n",(char *)args[ARG_TEXT].data);
+			printf("Error: %s\n",osErrorMsg(err));
+			osClose(ofh);
+			osDelete(fullname);
+			osEnd();
+			exit(OS_EXIT_ERROR);
+		}
 
       if(args[ARG_AREA].data && lastch != 0x0d)
          osPutChar(ofh,0x0d);
-- 
2.43.0


From c86d91e1fb7cdbad2c6c42426d38603e3d70a3d5 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 100/107] fix: CrashStats shows every amount of bytes in MB

The argument is unsigned, so it is always less than -10000000 converted
to unsigned; a node with 1234 bytes of mail was reported with 0 MB.
---
 src/tools/crashstats.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index a41f807..387fba3 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -274,8 +274,8 @@ bool SortNodes(struct jbList *list)
 char *unit(uint32_t i)
 {
    static char buf[40];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%d MB",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%d KB",i/1024);
+   if (i>10000000) sprintf(buf,"%d MB",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%d KB",i/1024);
    else sprintf(buf,"%d bytes",i);
    return buf;
 }
-- 
2.43.0


From 544360d76f424b45cf72b7bf2e9a85d84ef7d683 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 101/107] fix: no SEEN-BY and PATH lines in masqueraded netmail

MASQUERADE added them to every message, so that netmail was stored with an
echomail PATH line.
---
 src/crashmail/filter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index cf8a11d..753ae9c 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -992,9 +992,12 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	jbFreeList(&oldlist);
 
 	// new seenby and path
-	mmAddNodes2DList(&mm->SeenBy, neworig4d.Net, neworig4d.Node);
-	neworig4d.Point = 0; // don't add point to path
-	AddNodePath(&mm->Path, &neworig4d); 
+	if(mm->Area[0])
+	{
+		mmAddNodes2DList(&mm->SeenBy, neworig4d.Net, neworig4d.Node);
+		neworig4d.Point = 0; // don't add point to path
+		AddNodePath(&mm->Path, &neworig4d); 
+	}
 
 	return TRUE;
 }
-- 
2.43.0


From 9b0d64f50a885fd7d01c5e3b0620ebbea10dee87 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 102/107] fix: end of line of long MSGID and REPLY lines of
 masqueraded messages

With an identification of more than 70 characters the line was cut before its
end, and the next line of the message became part of it.
---
 src/crashmail/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 753ae9c..d762a9a 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -889,11 +889,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	char * separator = strchr (mm->MSGID, ' ');
 	if (separator)
 	{
-		char str[80];
+		char str[100];
 		strncpy (str, separator + 1, 80);
 		snprintf (mm->MSGID, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 		// update kludge
-		snprintf(str, 80, "\x01MSGID: %s\x0d",mm->MSGID);
+		snprintf(str, 100, "\x01MSGID: %s\x0d",mm->MSGID);
      	mmAddBuf(&mm->TextChunks, str, strlen(str));
 	}	
 
@@ -903,11 +903,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		separator = strchr (mm->REPLY, ' ');
 		if (separator)
 		{
-			char str[80];
+			char str[100];
 			strncpy (str, separator + 1, 80);
 			snprintf (mm->REPLY, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 			// update kludge
-			snprintf(str, 80, "\x01REPLY: %s\x0d",mm->REPLY);
+			snprintf(str, 100, "\x01REPLY: %s\x0d",mm->REPLY);
 		 	mmAddBuf(&mm->TextChunks, str, strlen(str));
 		}	
 	}
-- 
2.43.0


From 7498a35d10cdab719ad2a32268cc9775e65102bd Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 103/107] fix: masquerading replaced the first brackets of an
 origin line

The address is in the last ones: a text in brackets before it was replaced and
the address of the sender left as it was.
---
 src/crashmail/filter.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index d762a9a..93226f1 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -934,12 +934,13 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 				char * s = &tmp->Data[c]; size_t len = d-c;
 				if(strncmp(s," * Origin", 9)==0)
 				{	
-					char * leftBracket;
-					leftBracket = (char *)memchr (s+9, '(', len-9);
+					char * leftBracket = NULL, * p;
+					for(p=s+9;p<s+len;p++) // the address is in the last brackets
+						if(*p=='(') leftBracket=p;
 					if (leftBracket)
 					{
 						char * rightBracket;
-						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s));
+						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s)-1);
 						if (rightBracket)
 						{	
 							mmAddBuf(&mm->TextChunks, s, leftBracket-s+1); // before address
-- 
2.43.0


From 864e13283f341dc3928413d8d7da04f57f778625 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 104/107] fix: CrashListOut shows every size in MB

The argument is unsigned, so it is always less than -10000000 converted
to unsigned; a packet of 1234 bytes was listed with 0M.
---
 src/tools/crashlistout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 119e5ae..d0b9c40 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -179,8 +179,8 @@ int Compare4DPat(struct Node4DPat *nodepat,struct Node4D *node)
 char *unit(uint32_t i)
 {
    static char buf[20];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%uM",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%uK",i/1024);
+   if (i>10000000) sprintf(buf,"%uM",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%uK",i/1024);
    else sprintf(buf,"%u",i);
    return buf;
 }
-- 
2.43.0


From ba43edd41e3c912305979eb8523272eedd008f7e Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 105/107] fix: CrashListOut matches a ? beyond the end of a
 number

As in node4dpat.c, a pattern that is longer than the number does not
match; what came behind the end of the buffer decided.
---
 src/tools/crashlistout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index d0b9c40..4d25457 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -154,6 +154,7 @@ int NodeCompare(char *pat,uint16_t num)
    {
       if(pat[c]=='*') return(0);
       if(pat[c]!=buf[c] && pat[c]!='?') return(1);
+      if(buf[c]==0) return(1);
    }
 
    if(buf[c]!=0)
-- 
2.43.0


From a5d0644dcb2c532d71d91202cc898398cd0dcc6e Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 106/107] fix: CrashListOut does not count packets in the total

Packets in the outbound (*.cut, *.out...) are files to send just as the
files in flow files.
---
 src/tools/crashlistout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 4d25457..855a258 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -438,6 +438,9 @@ void DisplayPkt(struct fileentry *fe)
 
    sprintf(buf,"%s/1",unit(fe->size));
 
+   TotalFiles++;
+   TotalBytes+=fe->size;
+
    printf("%-8.8s %-17.17s %-16.16s %7.7s   %s\n",
       type_names[fe->type],PrintNode(&fe->Node),PrintDate(fe->date),buf,fe->file);
 
-- 
2.43.0


From c70c66d459edc3dbedb95efb80a233f5d085894a Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 107/107] fix: CrashListOut leaves file requests open

With many *.req files it ran out of files and listed the rest as
unreadable.
---
 src/tools/crashlistout.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 855a258..70921dd 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -391,6 +391,8 @@ char *PrintReqNums(struct fileentry *fe)
       }
    }
 
+   osClose(os);
+
    sprintf(buf,"-/%u",reqs);
    
    return(buf);
-- 
2.43.0

