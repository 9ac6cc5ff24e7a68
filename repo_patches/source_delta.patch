From 73f1d0d8b93de56d3e55e972dcb4ed480d0192ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 01/86] fix: refuse free list requests whose rounded size wraps

---
 src/freenode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/freenode.c b/src/freenode.c
index 3a433ff..969a0d6 100644
--- a/src/freenode.c
+++ b/src/freenode.c
@@ -173,7 +173,8 @@ FreeNode* freeNode_allocSpace(FreeNode *freeNode, FreeNode **head, node_size_t s
    node_size_t nSize;
    nSize = (node_size_t)((size+nodeRound)/nodeAlign)*nodeAlign;
 
-   if (h != NULL) { 
+   // a size that wraps when rounded up can not be satisfied
+   if (nSize >= size && h != NULL) { 
       // free list is not empty
       if (h->nodeSize >= nSize) { 
          // head node is big enough
-- 
2.43.0


From a7a9c74fff8b4bc41a79a30cd95ece0d6b3aa056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 02/86] fix: ignore free list requests for no space

---
 src/freenode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/freenode.c b/src/freenode.c
index 969a0d6..53619e7 100644
--- a/src/freenode.c
+++ b/src/freenode.c
@@ -118,6 +118,10 @@ void freeNode_deallocSpace (FreeNode *freeNode, FreeNode **head, node_size_t siz
 
    nSize = (node_size_t)((size + nodeRound ) / nodeAlign ) * nodeAlign ;
 
+   // no space to return, or a size that wraps when rounded up
+   if (nSize == 0)
+      return;
+
    if (h != NULL) {
       if ((unsigned long)freeNode < (unsigned long)temp) {
          // node before head
@@ -173,8 +177,8 @@ FreeNode* freeNode_allocSpace(FreeNode *freeNode, FreeNode **head, node_size_t s
    node_size_t nSize;
    nSize = (node_size_t)((size+nodeRound)/nodeAlign)*nodeAlign;
 
-   // a size that wraps when rounded up can not be satisfied
-   if (nSize >= size && h != NULL) { 
+   // a size that is zero or wraps when rounded up can not be satisfied
+   if (nSize != 0 && h != NULL) { 
       // free list is not empty
       if (h->nodeSize >= nSize) { 
          // head node is big enough
-- 
2.43.0


From ac9e546a371da6294f66aaaa3dc40776586ea9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 03/86] fix: check heap frees before touching the freed block

---
 src/sasindexnode.cpp       | 6 +++---
 src/sassimpleheap.cpp      | 9 ++++-----
 src/sasstringbtreenode.cpp | 4 +++-
 src/sphcontext.cpp         | 5 ++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 7cd8b95..cfb6efd 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -220,14 +220,14 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
   freeNode *free_node = (freeNode *) free_block;
   int rc;
 
-  freeNode_init (free_node, alloc_size);
-
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
     {
       heapSize = headerBlock->blockSize - heap_offset;
       if ((alloc_size < heapSize)
 	  && ((unsigned long) free_block >=
-	      ((unsigned long) headerBlock + heap_offset)))
+	      ((unsigned long) headerBlock + heap_offset))
+	  && ((unsigned long) free_block <=
+	      ((unsigned long) headerBlock + headerBlock->blockSize - alloc_size)))
 	{
 	  freeNode_deallocSpace (free_node, &headerBlock->blockFreeSpace,
 				 alloc_size);
diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..a35d4de 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,13 +115,12 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( (unsigned long)free_block <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size) ) )
 		{
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
@@ -249,10 +248,10 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
     {
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
-	    freeNode_init(free_node, alloc_size);
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
-	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
+	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset))
+	    && ((unsigned long)nearObj <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size)))
 	    {
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 #ifdef __SASDebugPrint__
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 87babe4..cfee1a9 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -238,7 +238,9 @@ SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap,
       heapSize = headerBlock->blockSize - heap_offset;
       if ((alloc_size < heapSize)
 	  && ((unsigned long) free_block >=
-	      ((unsigned long) headerBlock + heap_offset)))
+	      ((unsigned long) headerBlock + heap_offset))
+	  && ((unsigned long) free_block <=
+	      ((unsigned long) headerBlock + headerBlock->blockSize - alloc_size)))
 	{
 	  freeNode_deallocSpace ((FreeNode *) free_block,
 				 &headerBlock->blockFreeSpace, alloc_size);
diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..bc6b5ea 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -156,13 +156,12 @@ SPHContextFreeNoLock (SPHContext_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( (unsigned long)free_block <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size) ) )
 		{
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
-- 
2.43.0


From cfc3693e112932277398a0aa53d78d6418529ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 04/86] fix: near simple heap calls have the declared linkage

---
 src/sassimpleheap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index a35d4de..7f77d51 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -192,8 +192,9 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*mem = NULL;
@@ -236,8 +237,9 @@ void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 {
+    block_size_t	alloc_size = allocSize;
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
     freeNode		*free_node = (freeNode*)nearObj;
-- 
2.43.0


From 527d7902446d7e62855d4b0f090ed245766a41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 05/86] fix: keep block offsets beyond 4 GB when splitting a
 block

---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..553c043 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -416,7 +416,8 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long keys;
   unsigned long result = 0;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned long ui;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From dd8cc21246a126da34b084688c4de94d41e806d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 06/86] fix: read the tree roots inside the region critical
 section

---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 553c043..93a71d0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1490,10 +1490,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1517,10 +1518,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1542,10 +1544,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1559,10 +1562,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1578,10 +1582,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1604,10 +1609,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1630,10 +1636,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From ed73418ef0fc298773737a6a02b6d56a7e0af0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 07/86] fix: keep the region semaphore held while resetting the
 region

---
 src/sassim.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 93a71d0..7c18829 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -782,8 +782,6 @@ initRegion ()
   p2Alloc (nn, SegmentSize);
   nn = &(anchor->allocated);
   p2AddUsed (nn, SegmentSize, anchorBlock);
-
-  initSASSem (anchor);
 }
 
 #if __GNUC__ && __GNUC_PREREQ(12,0)
@@ -1432,6 +1430,7 @@ SASJoinRegionByName (const char *store_name)
 	  sas_printf ("SASJoinRegion anchor created\n");
 #endif
 	  initRegion ();
+	  initSASSem (&((SASAnchorBlock_t *) memLow)->anchors);
 	  // CompactUseList is now the default for new regions.
 	  setSASCompactUseList ();
 	  // Allocate a guard page immediately after the region.
-- 
2.43.0


From bbcdb3ecd1a5fcdab82a9f3c38b66859a90e205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 08/86] fix: undo a segment creation that fails half way

---
 src/sassim.cpp  | 5 +++++
 src/sasstname.c | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 7c18829..7bb4f5b 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -948,6 +948,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1157,6 +1159,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
@@ -1280,6 +1283,8 @@ SASCreateAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 	  memLow = (unsigned long) regionBase;
 	  memHigh = memLow + regionSize;
 	}
+      else
+	SASSegStoreRemoveByName (storeName);
     }
 
   return rc;
diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..728c5ec 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -111,6 +111,8 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
+	  remove (name);
 	}
     }
   else
-- 
2.43.0


From 5919c848f7a74a7efe8e8b62f154c1267f8d5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 09/86] fix: a failed join leaves nothing behind

---
 src/sassim.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 7bb4f5b..c507d2c 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1397,7 +1397,7 @@ SASJoinRegionByName (const char *store_name)
       malloclen = (pathlen + 2 + 8) & ~(7);
       sasStorePath = (char *) malloc (malloclen);
       sasStorePath = strcpy (sasStorePath, store_name);
-      if (sasStorePath[pathlen - 1] == '/')
+      if (pathlen > 0 && sasStorePath[pathlen - 1] == '/')
 	sasStorePath[pathlen - 1] = 0;
 #ifdef __SASDebugPrint__
       sas_printf ("SASJoinRegionByName (%s)\n", sasStorePath);
@@ -1456,8 +1456,18 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
-  SASLockInit ();
-  SASEnableSigSegv ();
+  if (rc)
+    {
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+    }
+  else
+    {
+      SASLockInit ();
+      SASEnableSigSegv ();
+    }
 
   return rc;
 }
-- 
2.43.0


From 9cc1e79bbef338cbc47e6e25862f9bfbe75f9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 10/86] fix: probe 256k blocks when looking for a header

---
 src/sasalloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..8cb5ef2 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -491,7 +491,7 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
 		    if ( !SOMSASCheckBlockSig(block) )
 		    {
 #ifdef block__mask256k
-		      temp = temp & block__mask256;
+		      temp = temp & block__mask256k;
 		      block = (SASBlockHeader *)temp;
 
 		      if ( !SOMSASCheckBlockSig(block) )
-- 
2.43.0


From 0cd0d45435577e2e46faed3cba28b8621e01b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 11/86] fix: bit vector searches end when no range fits

---
 src/bitv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..8ab58e3 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -282,8 +284,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +385,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From 1baa53bcdfb12861388e5cf57edfd7ac4b00aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 12/86] fix: refuse bit vector requests larger than the vector

---
 src/bitv.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 8ab58e3..bf33cfa 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -73,6 +73,10 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
   printf ("alloc_units=%ld, req_msk=%lx, cur_msk=%lx\n",
 	  alloc_units, req_msk0, cur_msk);
 #endif
+  /* Insure the request fits within the long vector */
+  if ((alloc_units == 0) || (alloc_units > bits_per_long))
+    return -1;
+
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -95,7 +99,7 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 #ifdef PRINT_DEBUG
 		  printf ("i=%ld, req_msk=%lx\n", i, req_msk);
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -146,6 +150,10 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
   printf ("alloc_units=%ld, req_msk=%lx, cur_msk=%lx\n",
 	  alloc_units, req_msk0, cur_msk);
 #endif
+  /* Insure the request fits within the long vector */
+  if ((alloc_units == 0) || (alloc_units > bits_per_long))
+    return -1;
+
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -179,7 +187,7 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
 			"with unit vector free space\n");
 		    }
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -242,6 +250,10 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
       return -1;
     }
 
+  /* Insure the request fits within the long vector */
+  if ((alloc_units == 0) || (alloc_units > bits_per_long))
+    return -1;
+
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -266,7 +278,7 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 #ifdef PRINT_DEBUG
 		  printf ("i=%ld, req_msk=%lx\n", i, req_msk);
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -327,6 +339,10 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
       return -1;
     }
 
+  /* Insure the request fits within the long vector */
+  if ((alloc_units == 0) || (alloc_units > bits_per_long))
+    return -1;
+
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
@@ -367,7 +383,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 			("bitv_alloc_marked: error prior end-mark inconsistent with unit vector free space\n");
 		    }
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -410,7 +426,7 @@ bitv_dealloc_internal (bitv_word * bvec, bitv_word offset, size_t alloc_units)
   bitv_word req_msk = bitv_units_to_mask (alloc_units);
   bitv_word prv_msk;
   /* Insure the allocated units + offset fit within the long vector */
-  if ((alloc_units + offset > bits_per_long))
+  if ((alloc_units == 0) || (alloc_units > bits_per_long - offset))
     return -1;
 
   req_msk >>= offset;
-- 
2.43.0


From e821f32886ef17ef2ff294301e41d6255c3c8c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 13/86] fix: accept bit vector alignments below the unit size,
 refuse those above the vector

---
 src/bitv.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index bf33cfa..18c3406 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -234,18 +234,17 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
       printf ("bitv_aligned_alloc(%p,%lx,%ld,%ld)\n", cb, *bvec, size, align);
       printf
-	("alloc_units=%ld, align_units=%ld, align_shift=%ld, req_msk=%lx, cur_msk=%lx\n",
-	 alloc_units, align_units, align_shift, req_msk0, cur_msk);
+	("alloc_units=%ld, align_units=%ld, req_msk=%lx, cur_msk=%lx\n",
+	 alloc_units, align_units, req_msk0, cur_msk);
 #endif
       return -1;
     }
@@ -257,8 +256,8 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
-      int i;
-      int start = __builtin_clzl (cur_msk);
+      size_t i;
+      size_t start = __builtin_clzl (cur_msk);
 
       start = (start + align_units - 1) & (~(align_units - 1));
       if (start > (bits_per_long - alloc_units))
@@ -323,18 +322,17 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
       printf ("bitv_aligned_alloc(%p,%lx,%ld,%ld)\n", cb, *bvec, size, align);
       printf
-	("alloc_units=%ld, align_units=%ld, align_shift=%ld, req_msk=%lx, cur_msk=%lx\n",
-	 alloc_units, align_units, align_shift, req_msk0, cur_msk);
+	("alloc_units=%ld, align_units=%ld, req_msk=%lx, cur_msk=%lx\n",
+	 alloc_units, align_units, req_msk0, cur_msk);
 #endif
       return -1;
     }
@@ -346,8 +344,8 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
   while (cur_msk != 0UL)
     {
       bitv_word req_msk;
-      int i;
-      int start = __builtin_clzl (cur_msk);
+      size_t i;
+      size_t start = __builtin_clzl (cur_msk);
 
       start = (start + align_units - 1) & (~(align_units - 1));
       if (start > (bits_per_long - alloc_units))
-- 
2.43.0


From 628786b15039bcf8fa85a9bdf3aa92a8e106d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 14/86] fix: a lock record keeps its address from request to
 last release

---
 src/sasulock.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..c5fa52b 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -190,6 +190,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // So, if lockObj == NULL, that implies the user did not pass in
 // a lock object for their SasLockList and therefore, do not need us
 // to unlock it.
+  // Name the address first: once the list is unlocked other threads
+  // must find this object under it (and not as a free object).
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -211,7 +214,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
     ++useageCount;
 #endif
-    address = lockAddr;
     spin_unlock(&data_lock);
     return;
   }
@@ -248,7 +250,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
 	++useageCount;
 #endif
-	address = lockAddr;
         spin_unlock(&data_lock);
         return;
       }
@@ -328,7 +329,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
 	  ++useageCount;
 #endif
-	  address = lockAddr;
           spin_unlock(&data_lock);
           return;
         }  // end open slot in table
@@ -378,6 +378,9 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
 // so there's nothing to do.
+  // Name the address first: once the list is unlocked other threads
+  // must find this object under it (and not as a free object).
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -398,7 +401,6 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
     ++useageCount;
 #endif
-    address = lockAddr;
     spin_unlock(&data_lock);
     return;
   }
@@ -476,7 +478,6 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
   ++useageCount;
 #endif
-  address = lockAddr;
   writer_thread_id = this_thread;
   writer_task_id = this_task;
   writer_thread_lock_count = 1;
@@ -508,8 +509,9 @@ SasUserLock::unlock(void)
   {
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
+// is available for use. It is not while threads wait for it.
+    if ((total_readers_count==0) && (status != SasUserLock__exclusive) &&
+	(readers_waiting == 0) && (writers_waiting == 0))
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -585,8 +587,9 @@ SasUserLock::unlock(void)
         return;
       }
       // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
+      // is available for use. It is not while threads wait for it.
+      if ((readers_waiting == 0) && (writers_waiting == 0))
+	address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From 693161731f38e8f72355e355b2ccf4386b5fa24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 15/86] fix: give the writer that waits for readers a wakeup of
 its own

---
 src/sasulock.cpp | 32 ++++++++++++++++++++++----------
 src/sasulock.h   |  2 ++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index c5fa52b..05f6988 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,8 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  writer_draining               = 0;
+  sem_init(&writer_draining_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,9 +93,11 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&writer_draining_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
-      (writers_waiting == 0))
+      (writers_waiting == 0) &&
+      (writer_draining == 0))
   {
     return;
   }
@@ -446,15 +450,14 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
+    // Only the thread that set status waits here. It needs a wakeup of
+    // its own, as the writers waiting for status can not use this one.
+    writer_draining = 1;
 
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    SasUserLock::thread_sleep(	(vm_address_t)&writer_draining,
+				&writer_draining_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
   }
   // no more readers, so we now have the write lock
 
@@ -497,6 +500,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	wakeup_drainer = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -523,8 +527,11 @@ SasUserLock::unlock(void)
         total_readers_count);
     }
 #endif
-    if ((total_readers_count==0) && (writers_waiting))
-      wakeup_writers = TRUE;
+    if ((total_readers_count==0) && (writer_draining))
+    {
+      writer_draining = 0;
+      wakeup_drainer = TRUE;
+    }
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
     {
@@ -625,6 +632,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_drainer)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&writer_draining,
+				&writer_draining_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
@@ -647,7 +659,7 @@ SasUserLock::waiters(void)
   fprintf (stderr, " thread[%ld,%ld]\n",
     (long int) this_task, (long int) this_thread);
 #endif
-  if ((readers_waiting) || (writers_waiting))
+  if ((readers_waiting) || (writers_waiting) || (writer_draining))
     return TRUE;
   else
     return FALSE;
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..be73ca9 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,8 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  volatile int          writer_draining;
+  sem_t                 writer_draining_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From 5882be9fd15378e084157f815154f4af786c4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 16/86] fix: unlocking an address held by another thread
 changes nothing

---
 src/sasulock.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 05f6988..1070c94 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -511,6 +511,21 @@ SasUserLock::unlock(void)
   // so unlock a read lock
   if (total_readers_count)
   {
+    int slot;
+
+    // only a thread that holds a read lock can release one
+    for (slot = 0; slot < MAX_READER_THREADS; slot++)
+    {
+      if ((readers[slot].reader_thread_id == this_thread) &&
+          (readers[slot].reader_task_id == this_task))
+        break;
+    }
+    if (slot == MAX_READER_THREADS)
+    {
+      spin_unlock(&data_lock);
+      return;
+    }
+
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
 // is available for use. It is not while threads wait for it.
@@ -569,7 +584,9 @@ SasUserLock::unlock(void)
   }     // end readers were waiting
   else
   {
-    if (status == SasUserLock__exclusive)	// unlock a write lock
+    if ((status == SasUserLock__exclusive) &&	// unlock a write lock
+	(writer_thread_id == this_thread) &&
+	(writer_task_id == this_task))
     {
       writer_thread_lock_count--;
 #ifdef coherenceCheck
-- 
2.43.0


From bf7a7e4ea498443afce8671b191d5e67f503d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 17/86] fix: a reader waits while the reader table is full

---
 src/sasulock.cpp | 34 +++++++++++++++++++---------------
 src/sasulock.h   |  1 +
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 1070c94..d1a184e 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -260,8 +260,10 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
-  // wait until all the writers are done.
-  while (status == SasUserLock__exclusive || writers_waiting)
+  // wait until all the writers are done and there is room for one more
+  // reader in the table.
+  while (status == SasUserLock__exclusive || writers_waiting ||
+	 !reader_slot_open())
     {
       readers_waiting++;
 
@@ -337,19 +339,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
           return;
         }  // end open slot in table
     }   // end for loop looking for a slot
-
-  // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
-#ifdef mylockdebug
-  fprintf (stderr, "%s\n", __FUNCTION__);
-  fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
-    (long int) this_task, (long int) this_thread);
-#endif
 }
 
 // Get non-shared write lock.  A thread can call this more than once.
@@ -577,6 +566,9 @@ SasUserLock::unlock(void)
           // remove the thread id
           readers[i].reader_thread_id = 0;
           readers[i].reader_task_id = 0;
+          // a reader may be waiting for this slot
+          if ((readers_waiting) && (status != SasUserLock__exclusive))
+            wakeup_readers = TRUE;
         }
       }
     } // end for loop
@@ -666,6 +658,18 @@ SasUserLock::unlock(void)
   }
 }
 
+// Is there room for one more reader? The caller holds the spin lock.
+boolean_t
+SasUserLock::reader_slot_open(void)
+{
+  for (int i = 0; i < MAX_READER_THREADS; i++)
+  {
+    if (readers[i].reader_thread_lock_count == 0)
+      return TRUE;
+  }
+  return FALSE;
+}
+
 boolean_t
 SasUserLock::waiters(void)
 {
diff --git a/src/sasulock.h b/src/sasulock.h
index be73ca9..8f2a27e 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -108,6 +108,7 @@ public:
 #endif
   boolean_t	waiters(void);
 private:
+  boolean_t	reader_slot_open(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
-- 
2.43.0


From 42840987c91add5a6b9486cc64a61c2a97c0f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 18/86] fix: remove the segment file when closing it fails

---
 src/sasstname.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sasstname.c b/src/sasstname.c
index 728c5ec..55ffa7e 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -104,6 +104,7 @@ SASSegStoreCreateByName (char *name)
 	      sas_printf ("SASSegStoreCreateByName close failed; %s\n",
 			  strerror (errno));
 	      sas_printf (" Store Name %s\n", name);
+	      remove (name);
 	    }
 	}
       else
-- 
2.43.0


From 71e21b2e6d569787180d15a9c46f86546cc97990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 19/86] fix: joining fails when the lock tables cannot be
 attached

---
 src/saslock.cpp |  3 ++-
 src/saslock.h   |  4 +++-
 src/sasshm.c    |  4 +++-
 src/sassim.cpp  | 14 +++++++++++++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1aa026..2687316 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -43,7 +43,7 @@ SASLockReset (void)
     SasLockOwner = 1;
 }
 
-void
+int
 SASLockInit (void)
 {
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
@@ -64,6 +64,7 @@ SASLockInit (void)
 	    ml = (SasMasterLock*) getSASBlockSpecial (lock_addr); 
 	}
     }
+    return (SasLockMemID == -1);
 }
 
 void
diff --git a/src/saslock.h b/src/saslock.h
index ca1a890..3862c42 100644
--- a/src/saslock.h
+++ b/src/saslock.h
@@ -83,8 +83,10 @@ SASLockReset (void);
 *	This shm segment will hold the shared lock tables that hold active
 *	symbolic locks.
 *
+*	@return 0 indicates success, nonzero that the lock tables could not be
+*	attached.
 */
-extern __C__ void
+extern __C__ int
 SASLockInit (void);
 
 
diff --git a/src/sasshm.c b/src/sasshm.c
index 4a1e01a..770b450 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -95,6 +95,8 @@ SASAllocateShmID (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      if (!exist)
+	SASRemoveShmID (shm_id);
       return (-1);
     }
 
@@ -183,7 +185,7 @@ int
 SASAllocateShmNameProj (char *key_name, char proj, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   char lower = ('a' - 'A');
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
diff --git a/src/sassim.cpp b/src/sassim.cpp
index c507d2c..5228c47 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1387,6 +1387,7 @@ SASJoinRegionByName (const char *store_name)
 {
   int segs = (int) (RegionSize / SegmentSize);
   size_t memIDsize = (RegionSize / SegmentSize) * sizeof (*mem_IDs);
+  int created = 0;
   int rc = 1;
   int i;
 
@@ -1431,6 +1432,7 @@ SASJoinRegionByName (const char *store_name)
       if (!rc)
 	{
 	  int pgsize = getpagesize ();
+	  created = 1;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SASJoinRegion anchor created\n");
 #endif
@@ -1456,6 +1458,17 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
+  if (!rc && SASLockInit ())
+    {
+      SASDetachAllocatedSegs ();
+      if (created)
+	SASRemoveSegByAddr ((void *) memLow, SegmentSize);
+      else
+	SASDetachSegByAddr ((void *) memLow, SegmentSize);
+      munmap ((char *) getMemHigh (), 4096);
+      rc = 4;
+    }
+
   if (rc)
     {
       free (mem_IDs);
@@ -1465,7 +1478,6 @@ SASJoinRegionByName (const char *store_name)
     }
   else
     {
-      SASLockInit ();
       SASEnableSigSegv ();
     }
 
-- 
2.43.0


From 108a68088e837222e11c506d648b121a35d4a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 20/86] fix: a lock reset starts over with an empty lock heap

---
 src/saslock.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index 2687316..7d9ecf7 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -36,7 +36,11 @@ SASLockReset (void)
     }
     
     void *lock_addr = (void *)__SAS_TEMP_ADDRESS;
-    SASBlockHeader *shm_locks = (SASBlockHeader*)lock_addr;
+    // start over with an empty heap, so the old tables do not pile up and
+    // the new ones are where other processes look for them
+    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr,
+						SAS_RUNTIME_LOCKTABLE,
+						__SAS_SHMAP_MAX );
 
     ml = new (shm_locks) SasMasterLock(kMasterLockSize);
     setSASBlockSpecial (lock_addr, ml);
-- 
2.43.0


From eda01652bd26bfcbb373d9ea3d24f909dced5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 21/86] fix: SASSOMAlloc rounds requests above 16 MB to a block
 size and zeroes the whole block

---
 src/sasalloc.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 8cb5ef2..8dea80a 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -249,9 +249,13 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 		    }
 #ifdef block__align256k
 		    else {
-		      if (blockSize <= block__align256k)
+		      if (blockSize <= block__align64m)
 		      {
-			blockSize = block__align256k;
+			blockSize = block__align64m;
+		      }
+		      else if (blockSize <= block__align256m)
+		      {
+			blockSize = block__align256m;
 		      }
 		    }
 #endif
@@ -317,8 +321,11 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 
 #ifndef __SAS__
 //#ifndef __SASSIM__
+    if (temp == NULL)
+	return NULL;
+
     long	*first	= (long *)temp;
-    long	*last	= &first[(blockSize / sizeof(long)) - 1];
+    long	*last	= &first[(blockSize / sizeof(long))];
     // initialize block to zeros
     for ( ; first != last; )
     {
@@ -383,9 +390,13 @@ void  SASSOMDestroy(void *blockAddr, long blockSize)
 		    }
 #ifdef block__align256k
 		    else {
-		      if (blockSize <= block__align256k)
+		      if (blockSize <= block__align64m)
+		      {
+			blockSize = block__align64m;
+		      }
+		      else if (blockSize <= block__align256m)
 		      {
-			blockSize = block__align256k;
+			blockSize = block__align256m;
 		      }
 		    }
 #endif
-- 
2.43.0


From 9531be788d882be502edb6254e98b348a838f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 22/86] fix: find the header of blocks of every power of two
 size

---
 src/sasalloc.cpp | 91 +++++-------------------------------------------
 1 file changed, 8 insertions(+), 83 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 8dea80a..5af3b56 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -471,91 +471,16 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
+	uintptr_t	size;
 
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	/* Blocks are aligned to their (power of two) size: the header of the
+	   innermost block is the first one found.  */
+	for (size = block__Size512; size <= block__max; size = size << 1)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
-
-	    if ( !SOMSASCheckBlockSig(block) )
-	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256k;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
-		}
-	   }
+	    block = (SASBlockHeader *)(temp & ~(size - 1));
+	    if ( SOMSASCheckBlockSig(block) )
+		break;
+	    block = NULL;
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From 96dec608430ab1fd199fa57d86c4e3c42e44c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 23/86] fix: sas_atomic_swap stores the value it is given

---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..eaf83a8 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -95,9 +95,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xchg %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 1b88ac679ad83355ce57721a0a16b548c3accf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 24/86] fix: sas_atomic_inc and sas_atomic_dec count in all 64
 bits

---
 src/sasatom_x86_64.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index eaf83a8..17032bf 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_atomic_inc (long int *p)
 {
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -123,9 +123,9 @@ __arch_atomic_inc (long int *p)
 static inline void
 __arch_atomic_dec (long int *p)
 {
-  __asm__ (
+  __asm__ __volatile__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From eb1ca15e79a926e346fcda056ffea54d3a04d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:19 +0000
Subject: [PATCH 25/86] fix: the portable spin lock waits for a held lock

---
 src/sasatom_generic.h   | 1 +
 src/sasatom_loongarch.h | 1 +
 src/sasatom_riscv.h     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/sasatom_generic.h b/src/sasatom_generic.h
index d1b3cb8..2599f37 100644
--- a/src/sasatom_generic.h
+++ b/src/sasatom_generic.h
@@ -134,6 +134,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   int success = 0;
 
   do {
+     oldval = 0;	/* a failed exchange leaves the current value here */
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
diff --git a/src/sasatom_loongarch.h b/src/sasatom_loongarch.h
index b9ba7e0..57ee44a 100644
--- a/src/sasatom_loongarch.h
+++ b/src/sasatom_loongarch.h
@@ -134,6 +134,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   int success = 0;
 
   do {
+     oldval = 0;	/* a failed exchange leaves the current value here */
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
diff --git a/src/sasatom_riscv.h b/src/sasatom_riscv.h
index 3d9a5b3..dacd8bc 100644
--- a/src/sasatom_riscv.h
+++ b/src/sasatom_riscv.h
@@ -134,6 +134,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   int success = 0;
 
   do {
+     oldval = 0;	/* a failed exchange leaves the current value here */
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
-- 
2.43.0


From eb82abbec7cb24622d8a8489dc5d1dce083e4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 26/86] fix: SPHLockFreeHeapNearFind finds lock free heaps

---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..03bbfe6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 51f0abc34c4584151133ce6cb9749486b09b0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 27/86] fix: SASSimpleStackAlloc refuses sizes that wrap the
 stack pointer

---
 src/sassimplestack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..dbbc1e8 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= (headerBlock->end_stack - headerBlock->next_stack))
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
-- 
2.43.0


From 746a70388d21936e58e95dfb18e548c4a14f6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 28/86] fix: SASSimpleSpaceCreate refuses sizes that wrap

---
 src/sassimplespace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 0036a6c..5640d10 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -95,6 +95,10 @@ SASSimpleSpaceCreate (block_size_t space_size)
     block_size_t	min_size = (space_size + DEFAULT_PAGE);
     block_size_t	p2_size = (DEFAULT_PAGE + DEFAULT_PAGE);
 
+    /* No block is that large, and the sizes below would wrap.  */
+    if (space_size > ((~(block_size_t)0) >> 2))
+	return NULL;
+
     while (min_size > p2_size)
 	p2_size = p2_size + p2_size;
     
-- 
2.43.0


From 735a8cb3171044cbbea66f2a719ddc575544b5ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 29/86] fix: compound heap frees unlock the block they locked

---
 src/sascompoundheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..e83c0bb 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -607,11 +607,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1505,11 +1505,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From 14d60c65cf73b20943f95ab1dd0350f51de5049c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 30/86] fix: near allocation of a queue from a full block
 allocates a queue

---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index e83c0bb..b058bb3 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1586,7 +1586,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1650,7 +1650,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      else
 		{
 		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From f0946643b0d2902e9adea53f98a482e12470673f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 31/86] fix: a near release that names no page of a compound
 heap is refused

---
 src/sascompoundheap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index b058bb3..867103c 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -790,7 +790,8 @@ SASCompoundHeapNearDeallocNoLock (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && SASCompoundHeapContains (compoundHeader, nearHeader))
 	{
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
 #ifdef __SASDebugPrint__
@@ -820,7 +821,8 @@ SASCompoundHeapNearDealloc (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && SASCompoundHeapContains (compoundHeader, nearHeader))
 	{
 	  SASLock (compoundHeader, SasUserLock__WRITE);
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
-- 
2.43.0


From 91b54b8aac0ab99c23c0d6c575d828a9c61c30cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 32/86] fix: refuse compound heaps that have no room for a page

---
 src/sascompoundheap.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 867103c..c356e59 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -171,6 +171,10 @@ SASCompoundHeapInit (void *heap_seg,
   if ( alloc_page < page_size)
 	  alloc_page = page_size;
 
+  /* there must be room for at least one page behind the header */
+  if (heap_size <= alloc_page)
+    return NULL;
+
   if (heapBlock)
     {
       heapStart = (char *) heapBlock + alloc_page;
@@ -307,6 +311,9 @@ SASCompoundFixedHeapCreate (block_size_t heap_size)
   SASBlockHeader *heapBlock = NULL;
   SASCompoundHeap_t newHeap = NULL;
 
+  if (heap_size <= default_page)
+    return NULL;
+
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
@@ -326,6 +333,9 @@ SASCompoundHeapCreatePageSize (block_size_t heap_size, block_size_t page_size)
   SASBlockHeader *heapBlock = NULL;
   SASCompoundHeap_t newHeap = NULL;
 
+  if (heap_size <= default_page || heap_size <= page_size)
+    return NULL;
+
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
-- 
2.43.0


From 0b6cfb8b3f59bb388a0e8162e4d0775e44f7a13d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 33/86] fix: near allocation from a full block locks the heap
 in base-first order

---
 src/sascompoundheap.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index c356e59..2895701 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -720,6 +720,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
   SASCompoundHeapHeader *compoundHeader = NULL;
   SASCompoundHeapHeader *baseHeader = NULL;
   SASSimpleHeap_t newHeap = NULL;
+  bool full = false;
 
   if (nearHeader != NULL)
     {
@@ -760,10 +761,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
 		  newHeap = SASCompoundHeapAllocInternal (compoundHeader);
 		}
 	      else
-		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
-		}
+		full = true;
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -774,6 +772,10 @@ SASCompoundHeapNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* the heap's base block is always locked first: let go of this block
+	     before going there.  */
+	  if (full)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -1620,6 +1622,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
   SASCompoundHeapHeader *compoundHeader = NULL;
   SASCompoundHeapHeader *baseHeader = NULL;
   SPHSinglePCQueue_t newHeap = NULL;
+  bool full = false;
 
   if (nearHeader != NULL)
     {
@@ -1660,10 +1663,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 		  newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 		}
 	      else
-		{
-		  newHeap =
-		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
-		}
+		full = true;
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1674,6 +1674,10 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+	  /* the heap's base block is always locked first: let go of this block
+	     before going there.  */
+	  if (full)
+	    newHeap = SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 26720e88f1e1133e51f3cbe4433e92592d09121b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 34/86] fix: a destroyed compound heap leaves no page headers
 behind

---
 src/sascompoundheap.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 2895701..72d65d0 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1204,6 +1204,24 @@ SASCompoundHeapRandomAccessAll (SASCompoundHeap_t heap)
   return heapAlloc;
 }
 
+/* The block goes back to the region: leave no headers of its pages behind.  */
+static void
+SASCompoundHeapClearPages (SASCompoundHeapHeader * headerBlock)
+{
+  char *page = (char *) headerBlock;
+  char *heapEnd = page + headerBlock->blockHeader.blockSize;
+  block_size_t page_size = headerBlock->pageSize;
+
+  if (page_size == 0)
+    return;
+  page += (page_size > default_page) ? page_size : default_page;
+  for (; page < heapEnd; page += page_size)
+    {
+      if (SOMSASCheckBlockSig ((SASBlockHeader *) page))
+	memset (page, 0, sizeof (SASBlockHeader));
+    }
+}
+
 void
 SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 {
@@ -1220,6 +1238,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASCompoundHeapClearPages (list->heap[i]);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
@@ -1229,6 +1248,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	      SASSimpleSpaceDestroy (headerBlock->expandSpace);
 	    }
 	}
+      SASCompoundHeapClearPages (headerBlock);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 9d9c13824fae3e45e18e99fffbb60f3ff1ac1671 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 35/86] fix: round queue strides up to the entry alignment

(stride + 16) & ~16 only clears bit 4: odd strides stayed odd, so entry
headers were misaligned, their length was recorded short and a stride
below the header size made neighbouring entries overlap.
---
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b486fa2 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -99,7 +99,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..7c6dec9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -102,7 +102,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From 1e745883f3d0a9574323114361b050565a24e578 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 36/86] fix: refuse queues whose stride or buffer cannot hold
 an entry

A stride above 65520 rounds to 65536 and was stored as 0, and a buffer
without room for one stride left an empty slot range: the multi producer
queue then granted entries outside its block, and a buffer smaller than
the header page made the slot range wrap around.
---
 src/sascompoundheap.cpp  |  7 ++++++-
 src/sphmultipcqueue.cpp  | 27 +++++++++++++++++++--------
 src/sphsinglepcqueue.cpp | 23 ++++++++++++++++++-----
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 72d65d0..1d9aff4 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1306,7 +1306,12 @@ SPHCompoundPCQAllocInternal (SASCompoundHeapHeader * headerBlock)
 
       SPHSinglePCQueueInitWithStride (simpleBlock, simpleSize,
 					     stride, SPHSPCQUEUE_CIRCULAR);
-	  simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  if (newHeap != NULL)
+	    simpleBlock->baseBlock = (SASBlockHeader *) headerBlock;
+	  else
+	    freeNode_deallocSpace ((freeNode *) mem,
+				   &headerBlock->blockHeader.blockFreeSpace,
+				   simpleSize);
 	}
     }
   return newHeap;
diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b486fa2..35cab37 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -13,6 +13,7 @@
 //#define __SASDebugPrint__ 1
 
 #define sas_printf printf
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -94,12 +95,16 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	longPtr_t remaining;
 	longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
 
+	/* ensure stride keeps minimal alignment */
+	stride = (stride + round - 1) & ~(round - 1);
+	/* the stride has to fit its field and the buffer hold an entry */
+	if (stride > USHRT_MAX || buf_size < DEFAULT_PAGE + stride)
+		return NULL;
+
 	if (heapBlock)
 		initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
-		/* insure stride keep minimal alignment */
-		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
@@ -163,9 +168,12 @@ SPHMPMCQCreate (block_size_t buf_size)
 
 	debug_printf("%s\n",__FUNCTION__);
 	heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
-	if (heapBlock)
-		return SPHMPMCQInit (heapBlock, buf_size);
-	else
+	if (heapBlock) {
+		SPHMPMCQ_t queue = SPHMPMCQInit (heapBlock, buf_size);
+		if (queue == NULL)
+			SASBlockDealloc (heapBlock, buf_size);
+		return queue;
+	} else
 		return NULL;
 }
 
@@ -177,10 +185,13 @@ SPHMPMCQCreateWithStride (block_size_t buf_size,
 
 	debug_printf("%-6d: %s\n",sphdeGetTID(),__FUNCTION__);
 	heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
-	if (heapBlock)
-		return SPHMPMCQInitWithStride (heapBlock, buf_size,
+	if (heapBlock) {
+		SPHMPMCQ_t queue = SPHMPMCQInitWithStride (heapBlock, buf_size,
 						     stride, SPHSPCQUEUE_CIRCULAR);
-	else
+		if (queue == NULL)
+			SASBlockDealloc (heapBlock, buf_size);
+		return queue;
+	} else
 		return NULL;
 }
 
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7c6dec9..64f8eaf 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -13,6 +13,7 @@
 
 #define sas_printf printf
 //#include "sasio.h"
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -90,6 +91,13 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   longPtr_t remaining;
   longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
 
+  /* ensure stride keeps minimal alignment */
+  stride = (stride + round - 1) & ~(round - 1);
+  /* the stride has to fit its field, and the buffer hold an entry besides
+     the one that stays free */
+  if (stride > USHRT_MAX || buf_size < DEFAULT_PAGE + 2 * stride)
+    return NULL;
+
   if (heapBlock)
     {
       initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
@@ -101,8 +109,6 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 #endif
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
-      /* insure stride keep minimal alignment */
-      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
@@ -177,7 +183,10 @@ SPHSinglePCQueueCreate (block_size_t buf_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHSinglePCQueueInit (heapBlock, buf_size);
+      SPHSinglePCQueue_t queue = SPHSinglePCQueueInit (heapBlock, buf_size);
+      if (queue == NULL)
+	SASBlockDealloc (heapBlock, buf_size);
+      return queue;
     }
   else
     return NULL;
@@ -192,8 +201,12 @@ SPHSinglePCQueueCreateWithStride (block_size_t buf_size,
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHSinglePCQueueInitWithStride (heapBlock, buf_size,
-					     stride, SPHSPCQUEUE_CIRCULAR);
+      SPHSinglePCQueue_t queue =
+	SPHSinglePCQueueInitWithStride (heapBlock, buf_size,
+					stride, SPHSPCQUEUE_CIRCULAR);
+      if (queue == NULL)
+	SASBlockDealloc (heapBlock, buf_size);
+      return queue;
     }
   else
     return NULL;
-- 
2.43.0


From d429b83757fe2393149aa00acfb0fccb73650511 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 37/86] fix: end a queue without a stride at the end of its
 block

The end was set to the start of the entries plus the whole block size.
---
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 35cab37..1527671 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -104,9 +104,9 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	if (heapBlock)
 		initSOMSASBlock ((SASBlockHeader *) heapBlock, sasType, buf_size, NULL);
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
+	buf_size = buf_size - DEFAULT_PAGE;
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* round buf_size to be an integral number of strides */
-		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
 		buf_size = buf_size * stride;
 		debug_printf ("%s stride=%d, buf_size=%ld\n",__FUNCTION__,stride,buf_size);
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 64f8eaf..8b846ba 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -107,10 +107,10 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
     ("SPHSinglePCQueueInitInternal(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",
      buf_seg, buf_size, stride, sizeof (SPHPCQueueHeader), round);
 #endif
+  buf_size = buf_size - DEFAULT_PAGE;
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* round buf_size to be an integral number of strides */
-      buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
       buf_size = buf_size * stride;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From a1bb25625abb00dfc551618548582efa05bf09d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 38/86] fix: start queues with every entry free

Initialising a queue on recycled storage, or resetting one that still held
entries, left entries marked allocated or complete: allocation failed for
ever, or the consumer was handed stale entries.
---
 src/sphmultipcqueue.cpp  | 14 ++++++++++++++
 src/sphsinglepcqueue.cpp | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 1527671..0d78295 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -72,6 +72,18 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry free, whatever the storage held before.  */
+static void
+SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
+{
+	longPtr_t stride = headerBlock->default_entry_stride;
+	longPtr_t entry;
+
+	if (stride != NODEFAULT_ENTRY_STRIDE)
+		for (entry = headerBlock->startq; entry < headerBlock->endq; entry += stride)
+			((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -130,6 +142,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQClearEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -231,6 +244,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 		sas_read_barrier ();
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
+		SPHMPMCQClearEntries (headerBlock);
 	} else {
 		rc = 1;
 		debug_printf("%s(%p) type check failed\n",__FUNCTION__,queue);
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8b846ba..772b408 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -80,6 +80,19 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry free, whatever the storage held before.  */
+static void
+SPHSinglePCQueueClearEntries (SPHPCQueueHeader * headerBlock)
+{
+  longPtr_t stride = headerBlock->default_entry_stride;
+  longPtr_t entry;
+
+  if (stride != NODEFAULT_ENTRY_STRIDE)
+    for (entry = headerBlock->startq; entry < headerBlock->endq;
+	 entry += stride)
+      ((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -139,6 +152,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHSinglePCQueueClearEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -246,6 +260,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 	  sas_read_barrier ();
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
+	  SPHSinglePCQueueClearEntries (headerBlock);
 	}
   else
 	{
-- 
2.43.0


From 798c0150323e1453c27861e62081c3acfa5f6439 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 39/86] fix: give the consumer the whole entry of a queue with
 a large stride

The 8 bit length in the entry header cannot hold strides of 4096 bytes and
more: the consumer's handle was cut short, or its remaining size wrapped.
---
 src/sphsinglepcqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 772b408..9b3bd1f 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1123,7 +1123,8 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
       if (headerBlock->qhead != queue_entry
 	  && entrytemp.detail.valid && entrytemp.detail.allocated)
 	{
-	  alloc_round = entrytemp.detail.len * DEFAULT_ALLOC_UNIT;
+	  /* the length field is too narrow for a large stride */
+	  alloc_round = headerBlock->default_entry_stride;
 	  handlespace->entry = entryPtr;
 	  handlespace->total_size = alloc_round;
 	  if (entrytemp.detail.timestamped)
-- 
2.43.0


From 52e39fd9e2a8e2cd263b8cf8aaa42b2964937677 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 40/86] fix: keep the other options when setting the prefetch
 options

The mask was not inverted: every option except prefetch was cleared, so a
circular logger stopped being circular.
---
 src/sphlflogger.cpp      | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..44acfb7 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1014,7 +1014,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 9b3bd1f..71286ce 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1227,7 +1227,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 3733a7fd2ad8599352496d3113e203cc4d98f66a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 41/86] fix: keep multi producer queue entries out of the queue
 header

The header takes more than 256 bytes, so the first entries overlaid the
tail pointer.
---
 src/sphmultipcqueue.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 0d78295..136fb1f 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -58,11 +58,7 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From a2370044ef758b46b4c08c02289a899e46554e07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 42/86] fix: check the type of a multi producer queue

SPHMPMCQGetEntries read any block and divided by zero for a queue without
a stride, and SPHMPMCQPrefetch refused every multi producer queue.
---
 src/sphmultipcqueue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 136fb1f..d5b280e 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -226,6 +226,10 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
+	if (!SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock, SAS_RUNTIME_PCQUEUE_TM))
+		return -1;
+	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return 0;
 	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
 }
 
@@ -553,7 +557,7 @@ SPHMPMCQPrefetch (SPHMPMCQ_t queue)
 	int rc = 0;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_PCQUEUE)) {
+				  SAS_RUNTIME_PCQUEUE_TM)) {
 		block_size_t logsize = headerBlock->blockHeader.blockSize;
 		block_size_t pagesz = getpagesize ();
 		volatile char *touchptr = (char *) queue;
-- 
2.43.0


From a334092a4983edac8fdc4d1a8b312f39427ca58e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 43/86] fix: keep the rounded stride and the geometry of a
 logger consistent

---
 src/sphlflogger.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 44acfb7..5c315d5 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -73,6 +73,17 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   char *stackEnd = NULL;
   longPtr_t remaining;
   longPtr_t round = (longPtr_t) DEFAULT_ALLOC_UNIT;
+  longPtr_t entry_stride = (stride + round - 1) & ~(round - 1);
+
+  /* The rounded stride must be representable and the block must have
+     room for the header, and for at least one entry of a log that is
+     to be reused from its start when it is full.  */
+  if ((buf_size < DEFAULT_PAGE)
+      || (entry_stride > (unsigned short) ~0)
+      || (entry_stride > buf_size - DEFAULT_PAGE)
+      || ((options & SPHLFLOGGER_CIRCULAR)
+	  && (buf_size - DEFAULT_PAGE < sizeof (SPHLFLogHeader_t))))
+    return NULL;
 
   if (heapBlock)
     {
@@ -91,7 +102,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = entry_stride;
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -134,7 +145,10 @@ SPHLFLoggerCreate (block_size_t buf_size)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHLFLoggerInit (heapBlock, buf_size);
+      SPHLFLogger_t log = SPHLFLoggerInit (heapBlock, buf_size);
+      if (!log)
+	SASBlockDealloc (heapBlock, buf_size);
+      return log;
     }
   else
     return NULL;
@@ -148,8 +162,12 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) buf_size);
   if (heapBlock)
     {
-      return SPHLFLoggerInitWithStride (heapBlock, buf_size,
-					stride, SPHLFLOGGER_CIRCULAR);
+      SPHLFLogger_t log = SPHLFLoggerInitWithStride (heapBlock, buf_size,
+						     stride,
+						     SPHLFLOGGER_CIRCULAR);
+      if (!log)
+	SASBlockDealloc (heapBlock, buf_size);
+      return log;
     }
   else
     return NULL;
-- 
2.43.0


From cfc0c3a95bf80dee45f06052a77f570a0825674b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 44/86] fix: refuse logger entries that can never fit

---
 src/sphlflogger.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 5c315d5..bc8e132 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -63,6 +63,21 @@ typedef struct SASLFLoggerHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* The largest rounded size that the entry handle can describe.  */
+#define MAX_ENTRY_SIZE (65536 - DEFAULT_ALLOC_UNIT)
+
+/* True if the entry has room for its header, can be described by its
+   handle and fits the empty log.  An entry that does not fit must not
+   move next_free, or it would make a circular log wrap for ever.  */
+static inline bool
+SPHLFLoggerFits (SASLFLoggerHeader * headerBlock, longPtr_t alloc_round)
+{
+  return (alloc_round >= sizeof (SPHLFLogHeader_t))
+    && (alloc_round <= MAX_ENTRY_SIZE)
+    && (alloc_round <=
+	headerBlock->end_log_buf - headerBlock->start_log_buf);
+}
+
 SPHLFLogger_t
 SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
 			 block_size_t buf_size,
@@ -184,6 +199,10 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      /* An entry that can not fit even the empty log must not move
+         next_free.  */
+      if (alloc_size > headerBlock->end_log_buf - headerBlock->start_log_buf)
+	return NULL;
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + round) & ~round;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
@@ -224,8 +243,12 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (alloc_size > MAX_ENTRY_SIZE)
+	return NULL;
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (!SPHLFLoggerFits (headerBlock, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -352,6 +375,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerFits (headerBlock, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -482,8 +507,12 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (alloc_size > MAX_ENTRY_SIZE)
+	return NULL;
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (!SPHLFLoggerFits (headerBlock, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
@@ -559,6 +588,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerFits (headerBlock, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From 7aa6698233de1b6f6591de6765a1d89342462012 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 45/86] fix: wait only for a logger that is about to wrap

---
 src/sphlflogger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index bc8e132..e7339e0 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -331,7 +331,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > log_entry;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
@@ -463,7 +463,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > log_entry;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
-- 
2.43.0


From 827c40eae8d0fbef4c0875f80737a392246a172a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 46/86] fix: iterate over exactly the entries that are in the
 log

---
 src/sphlflogger.cpp | 51 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index e7339e0..6c948c1 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -78,6 +78,15 @@ SPHLFLoggerFits (SASLFLoggerHeader * headerBlock, longPtr_t alloc_round)
 	headerBlock->end_log_buf - headerBlock->start_log_buf);
 }
 
+/* The space behind the last entry is too short for the entry just
+   refused.  Make sure that an iterator does not find an old entry there.  */
+static inline void
+SPHLFLoggerEndMark (SASLFLoggerHeader * headerBlock, longPtr_t log_entry)
+{
+  if (log_entry < headerBlock->end_log_buf)
+    ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+}
+
 SPHLFLogger_t
 SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
 			 block_size_t buf_size,
@@ -286,6 +295,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndMark (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) alloc failed\n",
 		      log, alloc_size);
@@ -418,6 +428,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndMark (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) alloc failed opt=%x\n",
@@ -546,6 +557,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndMark (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) alloc failed\n", log,
@@ -627,6 +639,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndMark (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) alloc failed opt=%x\n",
@@ -687,6 +700,20 @@ SPHLFLoggerEntryIsTimestamped (SPHLFLoggerHandle_t * handlespace)
 	  && (entryPtr->entryID.detail.timestamped == 1));
 }
 
+/* The position of the next entry in a log that wrapped: the start of
+   the log where the space up to its end is too short for an entry.  */
+static inline longPtr_t
+SPHLFLoggerWrapPtr (SASLFLoggerHeader * headerBlock, longPtr_t lPtr)
+{
+  longPtr_t size = headerBlock->default_entry_stride;
+
+  if (size < sizeof (SPHLFLogHeader_t))
+    size = sizeof (SPHLFLogHeader_t);
+  if (lPtr + size > headerBlock->end_log_buf)
+    lPtr = headerBlock->start_log_buf;
+  return lPtr;
+}
+
 //#define __SASDebugPrint__ 1
 SPHLFLoggerHandle_t *
 SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
@@ -717,7 +744,11 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	lPtr, entryPtr, iterator->end_log);
 #endif
 
-      if ((lPtr < iterator->end_log) && (entryPtr->entryID.detail.valid))
+      /* Unless the log wrapped the entries end at the next free one.  */
+      if ((lPtr < iterator->end_log)
+	  && ((lPtr < iterator->free)
+	      || (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
+	  && (entryPtr->entryID.detail.valid))
 	{
 	  eLen = (entryPtr->entryID.detail.len * DEFAULT_ALLOC_UNIT);
 
@@ -744,16 +775,11 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	  if ((log_options & SPHLFLOGGER_CIRCULAR)
 	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	    {
-	      if (lPtr >= iterator->end_log)
+	      if ((prev != iterator->free)
+		  || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
+		      != SPHLFLOGGER_CIRCULAR_NOTFIRST))
 		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
-		{
-		  iterator->current = lPtr;
+		  iterator->current = SPHLFLoggerWrapPtr (headerBlock, lPtr);
 		  handle = handleorg;
 		}
 	    }
@@ -803,13 +829,14 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  iter->free = SPHLFLoggerWrapPtr (headerBlock, iter->free);
+	  iter->current = iter->free;
 	}
       else
 	{
 	  iter->current = headerBlock->start_log_buf;
 	}
-      iter->options = log_options;
+      iter->options = log_options & ~SPHLFLOGGER_CIRCULAR_NOTFIRST;
 
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From f009116e90a1fbeb236a3d6fea3c3a42039ff6d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:22:13 +0000
Subject: [PATCH 47/86] fix: keep entry fields within the remaining space of
 the entry

---
 src/sphlfentry.h    | 98 ++++++++++++++++++++++++++++++---------------
 src/sphlflogentry.h | 98 ++++++++++++++++++++++++++++++---------------
 2 files changed, 130 insertions(+), 66 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..b03cd65 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -396,8 +396,10 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= __size)
@@ -451,8 +453,10 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= __size)
@@ -548,8 +552,10 @@ SPHLFEntryAddShort (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(short int))
@@ -586,8 +592,10 @@ SPHLFEntryAddInt (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(int))
@@ -624,8 +632,10 @@ SPHLFEntryAddLong (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long))
@@ -662,8 +672,10 @@ SPHLFEntryAddPtr (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(void*))
@@ -700,8 +712,10 @@ SPHLFEntryAddLongLong (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long long))
@@ -738,8 +752,10 @@ SPHLFEntryAddFloat (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(float))
@@ -776,8 +792,10 @@ SPHLFEntryAddDouble (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(double))
@@ -830,7 +848,7 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	int		vlen	= memchr(ptr, 0, len) ? strlen(ptr) + 1 : len + 1;
 	char		*value	= 0;
 
 	if (len >= vlen)
@@ -869,8 +887,10 @@ SPHLFEntryGetNextShort (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(short int))
@@ -905,8 +925,10 @@ SPHLFEntryGetNextInt (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(int))
@@ -941,8 +963,10 @@ SPHLFEntryGetNextLong (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long))
@@ -977,8 +1001,10 @@ SPHLFEntryGetNextPtr (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(void*))
@@ -1013,8 +1039,10 @@ SPHLFEntryGetNextLongLong (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long long))
@@ -1049,8 +1077,10 @@ SPHLFEntryGetNextFloat (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(float))
@@ -1085,8 +1115,10 @@ SPHLFEntryGetNextDouble (SPHLFEntryHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(double))
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..8587149 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -328,8 +328,10 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= __size)
@@ -383,8 +385,10 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= __size)
@@ -480,8 +484,10 @@ SPHLFlogEntryAddShort (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(short int))
@@ -518,8 +524,10 @@ SPHLFlogEntryAddInt (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(int))
@@ -556,8 +564,10 @@ SPHLFlogEntryAddLong (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long))
@@ -594,8 +604,10 @@ SPHLFlogEntryAddPtr (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(void*))
@@ -632,8 +644,10 @@ SPHLFlogEntryAddLongLong (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long long))
@@ -670,8 +684,10 @@ SPHLFlogEntryAddFloat (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(float))
@@ -708,8 +724,10 @@ SPHLFlogEntryAddDouble (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(double))
@@ -762,7 +780,7 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	int		vlen	= memchr(ptr, 0, len) ? strlen(ptr) + 1 : len + 1;
 	char		*value	= 0;
 
 	if (len >= vlen)
@@ -801,8 +819,10 @@ SPHLFlogEntryGetNextShort (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(short int))
@@ -837,8 +857,10 @@ SPHLFlogEntryGetNextInt (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(int))
@@ -873,8 +895,10 @@ SPHLFlogEntryGetNextLong (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long))
@@ -909,8 +933,10 @@ SPHLFlogEntryGetNextPtr (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(void*))
@@ -945,8 +971,10 @@ SPHLFlogEntryGetNextLongLong (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(long long))
@@ -981,8 +1009,10 @@ SPHLFlogEntryGetNextFloat (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(float))
@@ -1017,8 +1047,10 @@ SPHLFlogEntryGetNextDouble (SPHLFLoggerHandle_t *handle)
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
+		unsigned long gap = (unsigned long)ptr
+			- (unsigned long)handle->next;
+
+		len = (len > gap) ? len - gap : 0;
 	}
 
 	if (len >= sizeof(double))
-- 
2.43.0


From 68f7cbb350b63fa498b68b2517774942ba3ef1ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 48/86] fix: clear the list of a new log portal

---
 src/sphlogportal.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..fc0c7fe 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -73,6 +74,8 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     longPtr_t		remaining;
     longPtr_t		entries;
 
+    if (buf_size < DEFAULT_PAGE)
+	    return NULL;
 
     if ( heapBlock )
     {
@@ -94,6 +97,8 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
     heapBlock->current_logger = 0;
     heapBlock->next_free = 0;
+    /* the list may not name loggers that were never added */
+    memset (listStart, 0, heapBlock->list_size * sizeof (SPHLFLogger_t));
 
     remaining= DEFAULT_PAGE - sizeof(SASLogPortalHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
@@ -126,7 +131,10 @@ SPHLogPortalCreate (block_size_t buf_size)
     heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)buf_size);
     if ( heapBlock )
     {
-	    return SPHLogPortalInit(heapBlock, buf_size);
+	    SPHLogPortal_t portal = SPHLogPortalInit(heapBlock, buf_size);
+	    if (!portal)
+		    SASBlockDealloc (heapBlock, buf_size);
+	    return portal;
     } else
 	    return NULL;
 }
-- 
2.43.0


From 0df99132f7e7c311e72254a733134eaf712d856b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 49/86] fix: count only the loggers that a log portal holds

---
 src/sphlogportal.cpp | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index fc0c7fe..3fadb10 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -193,26 +193,34 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
-			if (index < headerBlock->list_size)
+			/* Claim the first empty slot of the Portal list.  The
+			 * slot is filled before it is counted, so every slot
+			 * that is counted names a Logger.  */
+			for (index = headerBlock->next_free;
+			     index < headerBlock->list_size;
+			     index = headerBlock->next_free)
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
-				/* Link this Logger to the Portal as its Base Block
-				 * then link this Logger as the Next Block of the
-				 * previous Logger in the list.
-				 */
-				logBlock->baseBlock = (SASBlockHeader*)headerBlock;
-				if (index > 0)
+				bool done = __sync_bool_compare_and_swap (
+						&headerBlock->log_buff_list[index],
+						(SPHLFLogger_t) NULL, log);
+				if (done)
 				{
-					logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
-					logPrevBlock->nextBlock = logBlock;
+					/* Link this Logger to the Portal as its Base Block
+					 * then link this Logger as the Next Block of the
+					 * previous Logger in the list.
+					 */
+					logBlock->baseBlock = (SASBlockHeader*)headerBlock;
+					if (index > 0)
+					{
+						logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
+						logPrevBlock->nextBlock = logBlock;
+					}
+					rc = log;
 				}
-
-				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+				if (done)
+					break;
 			}
 	#ifdef __SASDebugPrint__
 		} else {
@@ -350,7 +358,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 274b512814d77e8f3e7eb38562667cc9b7e54aad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 50/86] fix: compare index keys of different sizes in the same
 order

---
 src/sasindexkey.h | 64 ++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..d29d34e 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -66,6 +66,26 @@ typedef struct SASIndexKey_t
   machine_uint_t data[15];
 } SASIndexKey_t;
 
+/** \brief Return a word of the key.  The bytes of the last word that are
+*   behind the compare size read as zero.
+*
+*   @param key the key.
+*   @param i the number of the word.
+*	@return value of the word.
+**/
+static inline machine_uint_t
+SASIndexKeyWord (const SASIndexKey_t * key, size_t i)
+{
+  size_t pos = i * sizeof (machine_uint_t);
+  machine_uint_t word = 0;
+
+  if (pos + sizeof (machine_uint_t) <= key->compare_size)
+    word = key->data[i];
+  else if (pos < key->compare_size)
+    memcpy (&word, &key->data[i], key->compare_size - pos);
+  return word;
+}
+
 /*!
  * \brief binary key compare logic for Index B-Tree keys.
  *
@@ -94,36 +114,28 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
   else
     {
       size_t len = op_a->compare_size;
+      size_t i;
 
-      if (op_a->compare_size != op_b->compare_size)
+      if (op_a->compare_size > op_b->compare_size)
+	len = op_b->compare_size;
+
+      /* Compare word by word, whatever the sizes, so that the order is
+         the same for keys of the same and of different sizes.  */
+      for (i = 1; i * sizeof (machine_uint_t) < len; i++)
 	{
-	  if (op_a->compare_size > op_b->compare_size)
-	    len = op_b->compare_size;
-
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
-
-	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
-	    {
-	      if (op_a->compare_size < op_b->compare_size)
-		rc = -1;
-	      else
-		rc = 1;
-	    }
+	  machine_uint_t word_a = SASIndexKeyWord (op_a, i);
+	  machine_uint_t word_b = SASIndexKeyWord (op_b, i);
+
+	  if (word_a != word_b)
+	    return (word_a > word_b) ? 1 : -1;
 	}
-      else if (len > sizeof (machine_uint_t))
+
+      if (op_a->compare_size != op_b->compare_size)
 	{
-	  unsigned int i = 1;
-	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
-	    {
-	      if (op_a->data[i] != op_b->data[i])
-		{
-		  if (op_a->data[i] > op_b->data[i])
-		    rc = 1;
-		  else
-		    rc = -1;
-		  break;
-		}
-	    }
+	  if (op_a->compare_size < op_b->compare_size)
+	    rc = -1;
+	  else
+	    rc = 1;
 	}
     }
   return rc;
-- 
2.43.0


From 4546635a4cc26f36b3a2c49ed70781467a2fcd2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 51/86] fix: give negative zero the index key of zero

---
 src/sasindexkey.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index d29d34e..683565c 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -322,6 +322,9 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
   sasindexkeymap_t	key_val;
 
   key_val.double_key = value;
+  /* negative zero equals zero, so it has the same key */
+  if (value == 0.0)
+    key_val.double_key = 0.0;
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-- 
2.43.0


From 5391a202095e75a64c96136af03ccad07ecaa85e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 52/86] fix: count the keys of an index only when they are
 added or removed

---
 src/sasindex.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..d39e260 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -205,6 +205,7 @@ SASIndexInit (void* heap_seg,
 		heapBlock->common = commonAlloc;
 		commonAlloc->version = 0;
 		commonAlloc->modCount = 1;
+		commonAlloc->count = 0;
 		commonAlloc->max_key = NULL;
 		commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -1399,7 +1400,8 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			btree->common->modCount++;
 			result = true;
 		};
-		btree->common->count++;
+		if (result)
+			btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; /* False indicates duplicate key */
@@ -1437,7 +1439,8 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			btree->common->modCount++;
 			result = true;
 		};
-		btree->common->count++;
+		if (result)
+			btree->common->count++;
     }
 	return result; /* False indicates duplicate key */
 }
@@ -1465,7 +1468,6 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; // return prev value if already exist
@@ -1493,7 +1495,6 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
     }
 	return result; // return prev value if already exist
 }
@@ -1531,7 +1532,8 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+					btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
@@ -1598,7 +1600,8 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 		    }
 		    if ( btree->root != NULL )
 		    {
-				btree->common->count--;
+				if (found)
+					btree->common->count--;
 				if (btree->common->count > 0)
 				{
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
-- 
2.43.0


From 014867eda68e9c65eb45729a8cdfb247860ac686 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 53/86] fix: find the new minimum and maximum of an index in
 its leaves

---
 src/sasindex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index d39e260..6d476ea 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1539,7 +1539,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1548,7 +1548,7 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
@@ -1607,7 +1607,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
@@ -1616,7 +1616,7 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
-- 
2.43.0


From a19336c6aa33190c11fd70bcef43d8b462698988 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 54/86] fix: unlock the index block that was locked when a node
 is freed

---
 src/sasindex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 6d476ea..1ab92f8 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -530,11 +530,11 @@ SASIndexFree (SASIndex_t heap,
 					{
 						SASIndexFreeInternal (expandBlock, free_block);					
 						if ( i > 0 )
-							SASUnlock(heap);
+							SASUnlock(expandBlock);
 			    		break;
 			    	}
 					if ( i > 0 )
-			    		SASUnlock(heap);
+			    		SASUnlock(expandBlock);
 				}
 			} else {
 				if (SASIndexContains(headerBlock, free_block))
-- 
2.43.0


From cb4ead4de7104564d04dfd16a2b4d1690b1484e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 55/86] fix: unlock the last block of an index once when a node
 is allocated

---
 src/sasindex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 1ab92f8..0a6580f 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -423,9 +423,9 @@ SASIndexAlloc (SASIndex_t heap)
 				}
 				if ( expandHeader == NULL )
 				{
+					last_lock = list->count-2;
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
 				}
 	    	} else {
 	    		expandHeader = lastHeader;
-- 
2.43.0


From 6490303fa12ab02034c128334d7269e131bf01b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 56/86] fix: do not lose a block when the block list of an
 index is full

---
 src/sasindex.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 0a6580f..d8e6167 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -263,10 +263,10 @@ SASIndexExpandCreate (SASIndex_t heap)
     SASBlockHeader	*heapBlock = NULL;
     SASIndex_t newHeap = NULL;
     
-    heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)heap_size);
-    if ( heapBlock )
+    if ( list->count < list->max_count )
     {
-    	if ( list->count < list->max_count )
+    	heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)heap_size);
+    	if ( heapBlock )
     	{
 	    	SASIndexHeader *newHeader, *prevHeader;
 			newHeap = SASIndexExpandInit (heapBlock,  
-- 
2.43.0


From 33d8d7636756c137a4e7d4a3e8ff7483c54d834c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:37 +0000
Subject: [PATCH 57/86] fix: keep a copy of the current key of an index
 enumeration

---
 src/sasindexenum.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..15471d7 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -77,6 +77,15 @@ SASIndexEnumHasMore (SASIndexEnum_t idxenum)
   return indexenum->hasmore;
 }
 
+/* Keep a copy of the current key, the index may remove the key before
+   the next step.  */
+static inline void
+SASIndexEnumSetKey (__IDXEnumeration * indexenum, SASIndexKey_t * key)
+{
+  SASIndexKeyCopy (&indexenum->entryIndex, key);
+  indexenum->curkey = &indexenum->entryIndex;
+}
+
 void *
 SASIndexEnumNext (SASIndexEnum_t idxenum)
 {
@@ -112,7 +121,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -128,7 +137,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -165,7 +174,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -227,7 +236,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -243,7 +252,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -280,7 +289,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexEnumSetKey (indexenum, curSBnode->keys[curpos]);
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-- 
2.43.0


From e5ac63bd74a584c411b61020e5724bbd82dedcec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:37 +0000
Subject: [PATCH 58/86] fix: start an index enumeration at the first key,
 whatever its value

---
 src/sasindexenum.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index 15471d7..5ee6231 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -86,6 +86,21 @@ SASIndexEnumSetKey (__IDXEnumeration * indexenum, SASIndexKey_t * key)
   indexenum->curkey = &indexenum->entryIndex;
 }
 
+/* Find the first key of a tree.  */
+static inline bool
+SASIndexEnumFirst (SASIndexNode_t root, __IDXnodePosRef * ref)
+{
+  SASIndexNodeHeader *node = (SASIndexNodeHeader *) root;
+
+  if (node == NULL)
+    return false;
+  while (node->branch[0] != NULL)
+    node = node->branch[0];
+  ref->node = (SASIndexNode_t) node;
+  ref->pos = 1;
+  return true;
+}
+
 void *
 SASIndexEnumNext (SASIndexEnum_t idxenum)
 {
@@ -104,7 +119,8 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
   if (maxkey != NULL)
     {
       indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+	(indexenum->ref.node == NULL)
+	|| (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -154,8 +170,7 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 	      SASIndexNode_t curnode = SASIndexGetRootNode (indexenum->tree);
 	      if (indexenum->ref.node == NULL)
 	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
-					      &indexenum->ref);
+		      found = SASIndexEnumFirst (curnode, &indexenum->ref);
 #if __SASDebugPrint__ > 1
 		      sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGE=%d\n",
 				  curnode, found);
@@ -219,7 +234,8 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
   if (maxkey != NULL)
     {
       indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+	(indexenum->ref.node == NULL)
+	|| (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -269,8 +285,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 	      SASIndexNode_t curnode = SASIndexGetRootNode_nolock (indexenum->tree);
 	      if (indexenum->ref.node == NULL)
 	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
-					      &indexenum->ref);
+		      found = SASIndexEnumFirst (curnode, &indexenum->ref);
 #if __SASDebugPrint__ > 1
 		      sas_printf ("SASIndexEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
 				  curnode, found);
-- 
2.43.0


From da72282a8370c1464fab5108dfbd2d6ebe468297 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:37 +0000
Subject: [PATCH 59/86] fix: end the enumeration of an index that has become
 empty

---
 src/sasindexenum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index 5ee6231..02912ba 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -204,10 +204,11 @@ SASIndexEnumNext (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
@@ -319,10 +320,11 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext_nolock; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
-- 
2.43.0


From 984725fafd4af71732143e10d326403df99f328f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:50:50 +0000
Subject: [PATCH 60/86] fix: free the key that a node split moves to the parent
 node

---
 src/sasindexnode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index cfb6efd..14e0b82 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -1321,6 +1321,11 @@ SASIndexNodePushIn (SASIndexNode_t node_t, __IDXnodeKeyRef * ref,
     }
 
   SASIndexNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  if (ref->node != NULL)
+    {				/* the copied key is from a node that was split */
+      SASIndexNodeNearDealloc (node_t, ref->key,
+			       SASIndexKeySize (ref->key), lock_on);
+    }
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASIndexNodeHeader *) ref->node;
   node->count++;
-- 
2.43.0


From eaedf6c61edbb674fa86985b851a2f657f2e4bd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 61/86] fix: count the names of a string tree only when they
 are added or removed

---
 src/sasstringbtree.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..6d01ec1 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -213,6 +213,7 @@ SASStringBTreeInit (void *heap_seg,
       heapBlock->common = commonAlloc;
       commonAlloc->version = 0;
       commonAlloc->modCount = 1;
+      commonAlloc->count = 0;
       commonAlloc->max_key = NULL;
       commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -1521,7 +1522,8 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	  btree->common->modCount++;
 	  result = true;
 	};
-      btree->common->count++;
+      if (result)
+        btree->common->count++;
       SASUnlock (heap);
     }
   return result;		/* False indicates duplicate key */
@@ -1560,7 +1562,8 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           btree->common->modCount++;
           result = true;
         };
-      btree->common->count++;
+      if (result)
+        btree->common->count++;
     }
   return result;                /* False indicates duplicate key */
 }
@@ -1589,7 +1592,6 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
 	    }
 	}
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1618,7 +1620,6 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
                 SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
             }
         }
-      btree->common->count++;
     }
   return result;                // return prev value if already exist
 }
@@ -1656,7 +1657,8 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 	    }
 	  if (btree->root != NULL)
 	    {
-	      btree->common->count--;
+	      if (found)
+	        btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
@@ -1723,7 +1725,8 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
             }
           if (btree->root != NULL)
             {
-              btree->common->count--;
+              if (found)
+                btree->common->count--;
               if (btree->common->count > 0)
                 {
                   if(strcmp(key, btree->common->min_key) == 0)
-- 
2.43.0


From 55927befc7b80db061ebce0e7750e25b03ca378f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 62/86] fix: find the new minimum and maximum of a string tree
 in its leaves

---
 src/sasstringbtree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 6d01ec1..30191d2 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1664,14 +1664,14 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
@@ -1732,14 +1732,14 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
                   if(strcmp(key, btree->common->min_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
+                       while (node->branch[0] != NULL)
                           node = node->branch[0];
                        SASStringBTreeUpdateMin(heap, node->keys[1]);
                     }
                   if(strcmp(key, btree->common->max_key) == 0)
                     {
                        node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
+                       while (node->branch[node->count] != NULL)
                           node = node->branch[node->count];
                        SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
                     }
-- 
2.43.0


From f0ac8b949d576106885273470e0bebd66d850145 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 63/86] fix: unlock the string tree block that was locked when
 a node is freed

---
 src/sasstringbtree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 30191d2..243b284 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -562,11 +562,11 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 		    {
 		      SASStringBTreeFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From fa6b4e5aedb669c2c4872c6742d5e1ace01d0e0a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 64/86] fix: unlock the last block of a string tree once when a
 node is allocated

---
 src/sasstringbtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 243b284..a11a7c8 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -441,9 +441,9 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		}
 	      if (expandHeader == NULL)
 		{
+		  last_lock = list->count - 2;
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
 		}
 	    }
 	  else
-- 
2.43.0


From 821011cfa50f5311f78f4c7ec327cbc80113d937 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 65/86] fix: do not lose a block when the block list of a
 string tree is full

---
 src/sasstringbtree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index a11a7c8..51cf1ad 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -277,10 +277,10 @@ SASStringBTreeExpandCreate (SASStringBTree_t heap)
   SASBlockHeader *heapBlock = NULL;
   SASStringBTree_t newHeap = NULL;
 
-  heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
-  if (heapBlock)
+  if (list->count < list->max_count)
     {
-      if (list->count < list->max_count)
+      heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
+      if (heapBlock)
 	{
 	  SASStringBTreeHeader *newHeader, *prevHeader;
 	  newHeap = SASStringBTreeExpandInit (heapBlock,
-- 
2.43.0


From 35b09bcc3029460dfe4f715bcc5cf1ed232547eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 66/86] fix: free the name that a node split moves to the
 parent node

---
 src/sasstringbtreenode.cpp   | 5 +++++
 src/sasstringbtreenodepriv.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index cfee1a9..8551228 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -1332,6 +1332,11 @@ SASStringBTreeNodePushIn (SASStringBTreeNode_t node_t,
     }
 
   SASStringBTreeNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  if (ref->node != NULL)
+    {				/* the copied key is from a node that was split */
+      SASStringBTreeNodeNearDealloc (node_t, ref->key,
+				     strlen (ref->key) + 1, lock_on);
+    }
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASStringBTreeNodeHeader *) ref->node;
   node->count++;
diff --git a/src/sasstringbtreenodepriv.h b/src/sasstringbtreenodepriv.h
index 82014aa..20994a5 100644
--- a/src/sasstringbtreenodepriv.h
+++ b/src/sasstringbtreenodepriv.h
@@ -52,7 +52,7 @@ SASStringBTreeSpillInit (void* heap_seg,  sas_type_t sasType,
                          block_size_t heap_size);
 
 extern __C__ int
-SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, void* free_block, 
+SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, const void* free_block, 
                                block_size_t alloc_size, lock_on_t lock_on);
 
 #endif /* __SAS_STRINGBTREENODE_PRIVH */
-- 
2.43.0


From 56ae803abe403d3662f311b63b92d3465136bfa9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 67/86] fix: start an enumeration of a string tree exactly at
 the given name

---
 src/sasstringbtreeenum.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..e89a274 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -81,20 +81,18 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
     {
       SASLock (tree, SasUserLock__WRITE);
       maxkey = SASStringBTreeGetMaxKey (tree);
-      if ((maxkey != NULL) && (strcmp (start_key, maxkey) < 0))
+      if ((maxkey != NULL) && (strcmp (start_key, maxkey) <= 0))
 	{
 	  stringenum->curmod = SASStringBTreeGetModCount (tree);
 	  stringenum->curcount = SASStringBTreeGetCurCount (tree);
 	  if (stringenum->curmod != 0L)
 	    {
-	      stringenum->hasmore = (strcmp (start_key, maxkey) < 0);
+	      stringenum->hasmore = true;
 	      stringenum->tree = tree;
 	      stringenum->ref.node = NULL;
 	      stringenum->ref.pos = 0;
 	      memcpy ((char *) &stringenum->entryString[0],
 		      start_key, startkey_len);
-	      if (stringenum->entryString[0] != '\0')
-		stringenum->entryString[startkey_len - 2] -= 1;
 	      stringenum->curkey = &stringenum->entryString[0];
 	    }
 	  else
@@ -158,7 +156,8 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = (stringenum->ref.node == NULL)
+	|| (strcmp (stringenum->curkey, maxkey) < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -286,7 +285,8 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      stringenum->hasmore = (stringenum->ref.node == NULL)
+	|| (strcmp (stringenum->curkey, maxkey) < 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
-- 
2.43.0


From 8cd0ecb9c06392d1c0260e941386651c850f9fb6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 68/86] fix: end the enumeration of a string tree that has
 become empty

---
 src/sasstringbtreeenum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index e89a274..74c4471 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -255,10 +255,11 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
@@ -384,10 +385,11 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
-- 
2.43.0


From 8520fcc47a0551a60ab19660866e6f9655ecd349 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 69/86] fix: keep a copy of the current name of a string tree
 enumeration

---
 src/sasstringbtreeenum.cpp | 40 ++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c4471..8dc181c 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -32,6 +32,8 @@ typedef struct __SBEnumeration
   long curmod;
   long curcount;
   bool hasmore;
+  char *keybuf;
+  size_t keybuf_len;
   char entryString[sizeof (void *)];
 } __SBEnumeration;
 
@@ -50,6 +52,8 @@ SASStringBTreeEnumCreate (SASStringBTree_t tree)
 	{
 	  stringenum->hasmore = !SASStringBTreeIsEmpty (tree);
 	  stringenum->tree = tree;
+	  stringenum->keybuf = NULL;
+	  stringenum->keybuf_len = 0;
 	  stringenum->ref.node = NULL;
 	  stringenum->ref.pos = 0;
 	  stringenum->entryString[0] = '\0';
@@ -89,6 +93,8 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 	    {
 	      stringenum->hasmore = true;
 	      stringenum->tree = tree;
+	      stringenum->keybuf = NULL;
+	      stringenum->keybuf_len = 0;
 	      stringenum->ref.node = NULL;
 	      stringenum->ref.pos = 0;
 	      memcpy ((char *) &stringenum->entryString[0],
@@ -115,6 +121,8 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 void
 SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
 {
+  if (stringenum != NULL)
+    free (((__SBEnumeration *) stringenum)->keybuf);
   free (stringenum);
 }
 
@@ -139,6 +147,26 @@ SASStringBTreeEnumCurrent (SASStringBTreeEnum_t sbtenum)
   return stringenum->curkey;
 }
 
+/* Keep a copy of the current name, the tree may remove the name before
+   the next step.  */
+static inline void
+SBEnumSetKey (__SBEnumeration * stringenum, char *key)
+{
+  size_t len = strlen (key) + 1;
+
+  stringenum->curkey = key;
+  if (len > stringenum->keybuf_len)
+    {
+      char *buf = (char *) realloc (stringenum->keybuf, len);
+
+      if (buf == NULL)
+	return;
+      stringenum->keybuf = buf;
+      stringenum->keybuf_len = len;
+    }
+  stringenum->curkey = (char *) memcpy (stringenum->keybuf, key, len);
+}
+
 void *
 SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 {
@@ -175,7 +203,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
 			(strcmp (stringenum->curkey, maxkey) < 0);
 		      found = true;
@@ -192,7 +220,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
+			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
@@ -238,7 +266,7 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		  stringenum->curmod = treemod;
 		  stringenum->curcount =
 		    SASStringBTreeGetCurCount (stringenum->tree);
@@ -305,7 +333,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
 			(strcmp (stringenum->curkey, maxkey) < 0);
 		      found = true;
@@ -322,7 +350,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
+			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
@@ -368,7 +396,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		  stringenum->curmod = treemod;
 		  stringenum->curcount =
 		    SASStringBTreeGetCurCount (stringenum->tree);
-- 
2.43.0


From 1124edd44faf5bf689d7c56c6ff8547dcd3dda4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 70/86] fix: free a whole context name when it is removed by
 address

---
 src/sphcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index bc6b5ea..bbafe01 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -480,7 +480,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From 8d66ed261972dd80eea4e505f6cd019256441d24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 71/86] fix: free a context name only after it has been removed

---
 src/sphcontext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index bbafe01..5e7f7ec 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -402,6 +402,9 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 			{
 				int		strsize = strlen(strbuff) + 1;
 				
+				/* key may be the stored name, so free it last.  */
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, key);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
@@ -412,8 +415,6 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
-- 
2.43.0


From 8543a0e3237af29cdca8c75e389b544ab6ff422e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 72/86] fix: keep the old name when a context rename is refused

---
 src/sphcontext.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 5e7f7ec..2070a28 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -448,8 +448,31 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+		SPHContextHeader	*header = (SPHContextHeader*) headerBlock;
+		block_size_t		alloc_size = strlen(newkey) + 1;
+
+		if (strcmp (oldkey, newkey) == 0)
+		{
+			result = 1;
+		}
+		else if (!SASStringBTreeContainsKey (header->name, newkey))
+		{
+			char	*buff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
+
+			if (buff)
+			{
+				SASIndexKey_t	keyID;
+				char			*oldbuff;
+
+				buff = strcpy (buff, newkey);
+				SASIndexKeyInitRef (&keyID, value);
+				oldbuff = (char*) SASIndexReplace (header->objID, &keyID, buff);
+				SASStringBTreeRemove (header->name, oldkey);
+				result = SASStringBTreePut (header->name, newkey, value);
+				/* oldkey may be the stored name, so free it last.  */
+				SPHContextFreeNoLock (contxt, oldbuff, strlen(oldbuff) + 1);
+			}
+		}
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 3523740cf58e83f7c9e91283c2619a904ca3afe3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:22:22 +0000
Subject: [PATCH 73/86] fix: report failure when an entry is requested from a
 block of another kind

The entry allocation and retrieval functions returned the caller's handle,
unset, when the block they were given failed its identity check.
---
 src/sphlflogger.cpp      | 12 ++++++++----
 src/sphsinglepcqueue.cpp |  9 ++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 6c948c1..2326634 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -356,13 +356,14 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
@@ -489,14 +490,15 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
@@ -574,14 +576,15 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
@@ -656,14 +659,15 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 71286ce..4f550ca 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -982,14 +982,15 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
@@ -1059,14 +1060,15 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
@@ -1145,14 +1147,15 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
 #endif
+      handlespace = NULL;
     }
   return handlespace;
 }
-- 
2.43.0


From f81df871a74c4bfede3fa5e8e41a7ed48a72973b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:22:22 +0000
Subject: [PATCH 74/86] fix: set the subtype of a block instead of a truth
 value

---
 src/sasalloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasalloc.h b/src/sasalloc.h
index 973e62c..ac0e3c5 100644
--- a/src/sasalloc.h
+++ b/src/sasalloc.h
@@ -158,7 +158,7 @@ SOMSASSetBlockSubType (SASBlockHeader* header,
                                                            sas_type_t sasType)
 {
     header->blockType = (header->blockType &  ~SAS_SUB_TYPE_MASK)
-                 || (sasType & SAS_SUB_TYPE_MASK);
+                 | (sasType & SAS_SUB_TYPE_MASK);
 }
 
 static inline sas_type_t
-- 
2.43.0


From 67b4c55b96272bb51591b14d3efccb32889bb1c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:25:22 +0000
Subject: [PATCH 75/86] fix: fail the creation of a context that cannot be
 given its trees

---
 src/sphcontext.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2070a28..f4cb0cc 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -63,6 +63,9 @@ typedef struct SPHContextHeader {
 
 static SPHContext_t currentContext = NULL;
 
+int
+SPHContextDestroyNoLock (SPHContext_t heap);
+
 SPHContext_t 
 SPHContextInit (void* heap_seg,  sas_type_t sasType,
 		block_size_t heap_size)
@@ -109,6 +112,12 @@ SPHContextCreate (block_size_t heap_size)
 			else
 	    			sas_printf("SPHContextAlloc() Index create failed\n");
 #endif
+			if (header->name == NULL || header->objID == NULL)
+			{
+				/* a context needs both, return what it has.  */
+				SPHContextDestroyNoLock (result);
+				result = NULL;
+			}
 		}
 		return result;
     } else 
-- 
2.43.0


From b954775efc8123efd66eb12d6784f60844e0cebf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 76/86] fix: unlock exactly the blocks locked when the first
 block of a tree is full

---
 src/sasindex.cpp       | 6 +++---
 src/sasstringbtree.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index d8e6167..0748da8 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -417,13 +417,13 @@ SASIndexAlloc (SASIndex_t heap)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
 				if ( expandHeader == NULL )
 				{
-					last_lock = list->count-2;
+					last_lock = list->count-1;
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
 				}
@@ -435,7 +435,7 @@ SASIndexAlloc (SASIndex_t heap)
 				
 	    	if (lastHeader != expandHeader)
 	    	{
-				for ( i = 1; i <= last_lock; i++ )
+				for ( i = 1; i < last_lock; i++ )
 				{
 	    			SASUnlock(list->heap[i]);
 				}
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 51cf1ad..4fa675a 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -435,13 +435,13 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
 	      if (expandHeader == NULL)
 		{
-		  last_lock = list->count - 2;
+		  last_lock = list->count - 1;
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
 		}
@@ -455,7 +455,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (lastHeader != expandHeader)
 	    {
-	      for (i = 1; i <= last_lock; i++)
+	      for (i = 1; i < last_lock; i++)
 		{
 		  SASUnlock (list->heap[i]);
 		}
-- 
2.43.0


From d9a95ec05a884ae3ecd7d3a1869a0dc10000e3e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:58:20 +0000
Subject: [PATCH 77/86] fix: hold the heap's lock in SASSimpleHeapNearAlloc and
 NearDealloc

---
 src/sassimpleheap.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 7f77d51..e43368f 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -233,7 +233,19 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASBlockHeader	*headerBlock;
+    void		*mem = NULL;
+
+    headerBlock = (SASBlockHeader*)SASFindHeader (nearObj);
+    if (headerBlock)
+    {
+	SASLock(headerBlock, SasUserLock__WRITE);
+	mem = SASNearAlloc (nearObj, allocSize);
+	SASUnlock(headerBlock);
+    }
+    else
+	mem = SASNearAlloc (nearObj, allocSize);
+    return mem;
 }
 
 void
@@ -278,7 +290,17 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
 {							
-    SASNearDealloc (memAddr, allocSize);
+    SASBlockHeader	*headerBlock;
+
+    headerBlock = (SASBlockHeader*)SASFindHeader (memAddr);
+    if (headerBlock)
+    {
+	SASLock(headerBlock, SasUserLock__WRITE);
+	SASNearDealloc (memAddr, allocSize);
+	SASUnlock(headerBlock);
+    }
+    else
+	SASNearDealloc (memAddr, allocSize);
 }
 
 block_size_t
-- 
2.43.0


From 74326a319971af6094316503709d412964c05512 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:43:24 +0000
Subject: [PATCH 78/86] fix: close /proc/PID/cmdline after reading it

---
 src/sphthread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index e7a7aa5..8ed96ad 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <syscall.h>
 #include "sphthread.h"
 
@@ -43,6 +44,7 @@ sphdeGetCmdLine_internal (pid_t pid)
 	    cnt--;
 	  sph_cmdLine[cnt] = 0;
 	}
+      close (fd);
     }
   else
     {
-- 
2.43.0


From 0e2d1b431adab88cbeef38298c832593e4b791ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:43:24 +0000
Subject: [PATCH 79/86] fix: refresh the cached process and thread
 identification in a forked child

---
 src/sphthread.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index 8ed96ad..e9c4d42 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -97,6 +97,24 @@ sphdeGetCmdLine (void)
   return sph_cmdLine;
 }
 
+/* The child of a fork is another process and its only thread another
+   thread, so the identifications it inherits are its parent's.  */
+static void
+sph_fork_child (void)
+{
+  if (procID)
+    procID = getpid ();
+  threadID = 0;
+  sphdeGetTID ();
+}
+
+static void
+__attribute__((constructor))
+sph_init_fork (void)
+{
+  pthread_atfork (NULL, NULL, sph_fork_child);
+}
+
 #ifdef SPH_PROCINIT_CTOR
 void
 __attribute__((constructor))
-- 
2.43.0


From 64431b90b20189c23ebd45e9306e31e5d605a642 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:47:52 +0000
Subject: [PATCH 80/86] fix: count the names left in a string tree enumeration

---
 src/sasstringbtreeenum.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 8dc181c..74a2335 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -221,17 +221,12 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
 			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
-			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
 			}
 		    }
-		  if (stringenum->hasmore)
+		  if (found)
 		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
@@ -267,9 +262,12 @@ SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
 		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
+		  if (treemod == stringenum->curmod)
+		    stringenum->curcount -= 1;
+		  else
+		    stringenum->curcount =
+		      SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
@@ -351,17 +349,12 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
 			  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
-			  stringenum->curcount -= 1;
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
 			}
 		    }
-		  if (stringenum->hasmore)
+		  if (found)
 		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
@@ -397,9 +390,12 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
 		  SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
+		  if (treemod == stringenum->curmod)
+		    stringenum->curcount -= 1;
+		  else
+		    stringenum->curcount =
+		      SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
-- 
2.43.0


From 4dee0f24b79eb74aeb949db839b494592ad3508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:54 +0000
Subject: [PATCH 81/86] fix: find the timer frequency before the emulated
 clocks need it

---
 src/sphtimer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphtimer.c b/src/sphtimer.c
index 5c79c02..54cfd32 100644
--- a/src/sphtimer.c
+++ b/src/sphtimer.c
@@ -153,7 +153,8 @@ sphgetcpufreq (void)
 
 #ifdef SPH_TIMEBASEFREQ_CTOR
 void
-__attribute__((constructor))
+/* before the constructors of libsphgettime.a and libsphgtod.a, wherever they are linked */
+__attribute__((constructor (101)))
 sph_init_timebasefreq (void)
 {
     sph_cpu_frequency = get_cpu_freq_internal ();
-- 
2.43.0


From 4d3c4d2641313fd2cd5fc24bec7785da2ad6aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:56 +0000
Subject: [PATCH 82/86] fix: pass a fault outside the region on in every thread

---
 src/sassim.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 5228c47..48a842d 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1745,6 +1745,7 @@ SASRemove ()
 }
 
 static __thread struct sigaction oldThreadSigSegV;
+static __thread int threadSigSegV;
 
 void
 SASThreadDisableSigSegv ()
@@ -1752,6 +1753,7 @@ SASThreadDisableSigSegv ()
 #if 1
   int rc;
   rc = sigaction (SIGSEGV, &oldThreadSigSegV, NULL);
+  threadSigSegV = 0;
   if (rc)
   {
 	  perror ("SASThreadDisableSigSegv Failed");
@@ -1774,7 +1776,13 @@ SASThreadSigSegvHandler(int signal, siginfo_t * info, void *context)
 		if ((segv_addr >= reg_low) && (segv_addr < reg_high)) {
 			SASAttachAllocatedAddr(info->si_addr);
 		} else {
-			if (oldThreadSigSegV.sa_handler != SIG_DFL)
+			if (!threadSigSegV
+			    || oldThreadSigSegV.sa_sigaction == &SASThreadSigSegvHandler)
+			{
+				/* The handler is in place for another thread, this one
+				 * has nothing of the application's to go on with. */
+				SASSigSegvHandler(signal, info, context);
+			} else if (oldThreadSigSegV.sa_handler != SIG_DFL)
 			{
 				/* assume the app has its own signal handler.
 				 * If so call it and hope it handles the situation */
@@ -1810,6 +1818,7 @@ SASThreadEnableSigSegv ()
   sa.sa_sigaction = &SASThreadSigSegvHandler;
   sigemptyset (&sa.sa_mask);
   sigaction (SIGSEGV, &sa, &oldThreadSigSegV);
+  threadSigSegV = 1;
 #endif
 }
 
-- 
2.43.0


From 916330299e84e1fa6b97f59f21b3e156c3fb9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:47 +0000
Subject: [PATCH 83/86] fix: wait for the region semaphore on when a signal
 arrives

---
 src/sassim.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 48a842d..8e96fe2 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -656,7 +656,10 @@ seizeSASSem (SASAnchor_t * anchor)
 {
   int rc;
 #ifdef __GNUC__
-  rc = sem_wait (&anchor->SASSem);
+  /* a signal that arrives in the meantime does not end the wait */
+  do
+    rc = sem_wait (&anchor->SASSem);
+  while ((rc != 0) && (errno == EINTR));
   if (rc != 0)
     sas_printf ("seizeSASSem: sem_wait failed: %s\n", strerror (errno));
 #else
-- 
2.43.0


From 398a52bce2d62aa7c7a3af453f0782e21cc4a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:41 +0000
Subject: [PATCH 84/86] fix: refuse a store whose file names are too long

---
 src/sassim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 8e96fe2..3f74a7c 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1398,6 +1398,9 @@ SASJoinRegionByName (const char *store_name)
     {
       int pathlen, malloclen;
       pathlen = strlen (store_name);
+      /* the names of the segment files have to fit as well */
+      if (pathlen + sizeof ("/SAS00000.DAT") > STORE_NAME_SIZE)
+	return (3);
       malloclen = (pathlen + 2 + 8) & ~(7);
       sasStorePath = (char *) malloc (malloclen);
       sasStorePath = strcpy (sasStorePath, store_name);
-- 
2.43.0


From ded598a00932375ccc29d82f4ddae13c1a73172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:00 +0000
Subject: [PATCH 85/86] fix: a memory fault where the region has no segment
 repeated without end

---
 src/sassim.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 3f74a7c..8761a00 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -974,7 +974,7 @@ SASAttachSegByAddr (void *segAddr, unsigned long size)
   return rc;
 }
 
-void
+int
 SASAttachAllocatedAddr (void *segAddr)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
@@ -985,6 +985,7 @@ SASAttachAllocatedAddr (void *segAddr)
   unsigned long blockSize;
   unsigned long blockMask = ~(SegmentSize - 1);
   unsigned long keys = 0;
+  int rc = 1;
 
   segBase = (void *) ((unsigned long) segAddr & blockMask);
 #ifdef __SASDebugPrint__
@@ -1005,7 +1006,8 @@ SASAttachAllocatedAddr (void *segAddr)
 	      sas_printf ("SASAttachAllocatedAddr segment <%p, %lx>\n",
 			  blockAddr, blockSize);
 #endif
-	      if (SASAttachSegByAddr (segBase, blockSize))
+	      rc = SASAttachSegByAddr (segBase, blockSize);
+	      if (rc)
 		sas_printf ("SASAttachAllocatedAddr:%s for %p:\n",
 			    "SASAttachSegByAddr failed", blockAddr);
 	      break;
@@ -1013,6 +1015,8 @@ SASAttachAllocatedAddr (void *segAddr)
 	}
     }
   while (n);
+
+  return rc;
 }
 
 void
@@ -1329,10 +1333,9 @@ SASSigSegvHandler(int signal, siginfo_t * info, void *context)
 		unsigned long reg_low = (unsigned long) memLow;
 		unsigned long reg_high = (unsigned long) memHigh;
 		unsigned long segv_addr = (unsigned long) info->si_addr;
-		if ((segv_addr >= reg_low) && (segv_addr < reg_high))
-		{
-			SASAttachAllocatedAddr(info->si_addr);
-		} else {
+		if ((segv_addr < reg_low) || (segv_addr >= reg_high)
+		    || SASAttachAllocatedAddr(info->si_addr)) {
+			/* there is no segment to attach */
 			if (oldSigSegV.sa_handler != SIG_DFL)
 			{
 				/* assume the app has its own signal handler.
@@ -1779,9 +1782,9 @@ SASThreadSigSegvHandler(int signal, siginfo_t * info, void *context)
 		unsigned long reg_low = (unsigned long) memLow;
 		unsigned long reg_high = (unsigned long) memHigh;
 		unsigned long segv_addr = (unsigned long) info->si_addr;
-		if ((segv_addr >= reg_low) && (segv_addr < reg_high)) {
-			SASAttachAllocatedAddr(info->si_addr);
-		} else {
+		if ((segv_addr < reg_low) || (segv_addr >= reg_high)
+		    || SASAttachAllocatedAddr(info->si_addr)) {
+			/* there is no segment to attach */
 			if (!threadSigSegV
 			    || oldThreadSigSegV.sa_sigaction == &SASThreadSigSegvHandler)
 			{
-- 
2.43.0


From 6736a274e94f923aeff03b1dbee6d97d66393efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:17 +0000
Subject: [PATCH 86/86] fix: removing the region left its fault handler behind

---
 src/sassim.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 8761a00..9656082 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1750,7 +1750,13 @@ SASRemove ()
   SASLockReset ();
   SASLockRemove ();
   destroySASSem (&anchor->anchors);
+  SASDisableSigSegv ();
+  munmap ((char *) getMemHigh (), 4096);
+
   free (mem_IDs);
+  mem_IDs = NULL;
+  free (sasStorePath);
+  sasStorePath = NULL;
 }
 
 static __thread struct sigaction oldThreadSigSegV;
-- 
2.43.0

