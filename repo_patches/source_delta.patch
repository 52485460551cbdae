From 803146ddab3d17e5a227f497218faed6b864ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 01/65] fix: release the data page on every failing or empty
 _ffdb_get_data path

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..ea255ca 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,8 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  if (rlen <= 0) /* empty datum: nothing to copy from this page */
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
-- 
2.43.0


From 484f717492a605089d52b2c30904ce2065ffbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 02/65] fix: ffdb_get_item releases the key page when the datum
 cannot be read

---
 filehash/ffdb_page.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index ea255ca..9021ae7 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1554,6 +1554,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
-- 
2.43.0


From a7431df2627f451e1191c13c2311f8e9665b1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 03/65] fix: the data page whose next link is set is released
 dirty

---
 filehash/ffdb_page.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 9021ae7..2b77285 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -602,8 +602,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
     NEXT_PGNO(mem) = cpage;
     PREV_PGNO(cpagep) = pnum;
 
-    /* Now free the old data page */
-    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 0);
+    /* Now free the old data page: its link has been changed */
+    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 1);
 
     /* update start value */
     start = HIGHEST_FREE(cpagep);
-- 
2.43.0


From 56d283dcf011292efb122ef8d689fca182dd0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 04/65] fix: release the first data page when a later page of
 the datum is unavailable

---
 filehash/ffdb_page.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2b77285..d2eeb90 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -701,6 +701,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
       currpagep = ffdb_get_page (hashp, currp, HASH_DATA_PAGE,FFDB_CREATE, &tp);
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate data page at %d\n", currp);
+	ffdb_put_page (hashp, cpagep, HASH_DATA_PAGE, 0);
 	return -1;
       }
       if (reuse)
@@ -856,6 +857,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate page %d to overwrite data\n",
 		 currp);
+	ffdb_put_page (hashp, mem, TYPE(mem), 0);
 	return -1;
       }
 
-- 
2.43.0


From 7c96d22971b1d1564ac2b088e878c34f6d8f697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 05/65] fix: the free-map page whose next link is set is
 released dirty

---
 filehash/ffdb_page.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index d2eeb90..d524474 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1317,8 +1317,8 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       NEXT_PGNO (fpagep) = xpage;
       PREV_PGNO (xpagep) = fpage;
 
-      /* release the previous page */
-      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0); 
+      /* release the previous page: its link has been changed */
+      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
 }
-- 
2.43.0


From 17082a0417b58dc65f4c10e979698b782ae3b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 06/65] fix: ffdb_add_ovflpage reports a pair it could not
 store

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index d524474..ea4318c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1828,7 +1828,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From d98f0625a86af23a41bc6e37605ffda395febc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 07/65] fix: ffdb_get_uinfo releases the page when the buffer
 is too small

---
 filehash/ffdb_page.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index ea4318c..4226d35 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2743,6 +2743,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 890cd3b59a7b5768521b471a24a3013af5399f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 08/65] fix: a refused NOOVERWRITE put releases the key page it
 pinned

---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..51ea218 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1318,6 +1318,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From bee41ed58f5c6cf015c00310e21d87a8c7157699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 09/65] fix: a page pinned twice by one thread stays pinned
 until both pins are released

---
 filehash/ffdb_pagepool.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..aea1e86 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /*
+   * The same thread has pinned this page more than once (a cursor is on
+   * the page): it stays pinned until the last pin is gone
+   */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From 65e4a660da423d3a8234c4031466c0f1dcf12943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 10/65] fix: signal a page waiter before the lock lets it
 destroy its condition variable

---
 filehash/ffdb_pagepool.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index aea1e86..606d956 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1263,16 +1263,15 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
   if (bp->waiters > 0) {
     sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
     sleeper->wakeup = 0xdeafbeaf;
-  }
-
-  FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
 #if 0
-  fprintf (stderr, "Signaling page %d free \n", bp->pgno);
+    fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
-  if (sleeper)
+    /* The waiter frees itself as soon as it runs: signal it while the lock
+     * keeps it asleep */
     FFDB_COND_SIGNAL(sleeper->cv);
+  }
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From 2696230c475d04525c325c00a95ae67dd1ada42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 11/65] fix: flushing a page of a foreign byte order file
 leaves the cached page intact

---
 filehash/ffdb_pagepool.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 606d956..a3dd5bd 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,23 +265,32 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  void *out = bp->page;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
-  if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+  /* Run through the user's filter. The filter may change the byte order, the
+   * page in the cache has to keep its content: filter a copy
+   */
+  if (pgp->pgout) {
+    if ((out = malloc (pgp->pagesize)) == 0)
+      return -1;
+    memcpy (out, bp->page, pgp->pagesize);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, out);
+  }
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, out, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
+  if (out != bp->page)
+    free (out);
 
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
-- 
2.43.0


From ebc18c177276c57d6fab34bef9b15c2e70bcaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 12/65] fix: a page that cannot be read is an error, not a page
 of stale memory

---
 filehash/ffdb_pagepool.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index a3dd5bd..2ec4219 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -773,12 +773,16 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From d2e0ef92e4501fe202737afe0f790227820b95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 13/65] fix: one page that cannot be written neither hides the
 others nor leaks the flush list

---
 filehash/ffdb_pagepool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 2ec4219..d26757a 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1413,6 +1413,7 @@ static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
   unsigned int num;
+  int ret = 0;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
@@ -1461,7 +1462,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1473,7 +1474,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
-- 
2.43.0


From 302a6da02fde3141db55432df6b77541ea8d9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 14/65] fix: ffdb_pagepool_delete never reports success when
 the page could not be written

---
 filehash/ffdb_pagepool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index d26757a..d4c97b6 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1588,7 +1588,7 @@ ffdb_pagepool_delete (ffdb_pagepool_t* pgp, void* mem)
       if (_ffdb_pagepool_write (pgp, bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_delete: page %d is dirty and flush it to disk encountered error.\n", bp->pgno);
 	FFDB_UNLOCK(pgp->lock);
-	return errno;
+	return -1;
       }
     }
     
-- 
2.43.0


From 8cb4ca8147640c9efaaa91d2564560613d7ad9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 15/65] fix: ffdb_pagepool_change_page reports an old page it
 could not clean

---
 filehash/ffdb_pagepool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index d4c97b6..1ca3134 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1308,6 +1308,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   struct _ffdb_hqh* head;
   ffdb_bkt_t* bp;
   unsigned int oldpagenum;
+  int ret;
 
   FFDB_LOCK(pgp->lock);
 #ifdef _FFDB_STATISTICS
@@ -1399,10 +1400,10 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   /**
    * Clean out old disk content
    */
-  _ffdb_clean_page_ondisk (pgp, oldpagenum);
+  ret = _ffdb_clean_page_ondisk (pgp, oldpagenum);
 
   FFDB_UNLOCK(pgp->lock);
-  return 0;
+  return ret;
 }
 
 /**
-- 
2.43.0


From 74190140148bcd04b7b047941e9c956ce5ff8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 16/65] fix: sync and close report pages that could not be
 written

---
 filehash/ffdb_hash.c     | 15 +++++++++++----
 filehash/ffdb_pagepool.c |  5 +++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51ea218..277dc37 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -300,14 +300,18 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
-  ffdb_pagepool_close (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
+  if (ffdb_pagepool_close (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
 
   /* Reduce file size if possible */
   if (hashp->rearrange_pages)
@@ -1392,7 +1396,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 1ca3134..b6421d1 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1514,9 +1514,10 @@ int
 ffdb_pagepool_close (ffdb_pagepool_t* pgp)
 {
   ffdb_bkt_t* bp;
+  int ret;
 
   /* First Sync Everything to disk */
-  ffdb_pagepool_sync (pgp);
+  ret = ffdb_pagepool_sync (pgp);
 
   FFDB_LOCK(pgp->lock);
   
@@ -1539,7 +1540,7 @@ ffdb_pagepool_close (ffdb_pagepool_t* pgp)
   FFDB_LOCK_FINI(pgp->lock);
 
   free (pgp);
-  return 0;
+  return ret;
 }
 
 /**
-- 
2.43.0


From 51c9bd7b229d0ce2842f6646a5d4d9bd8de206b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:14 +0000
Subject: [PATCH 17/65] fix: the header is read and written only at the start
 of the file

---
 filehash/ffdb_hash.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 277dc37..956469c 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,8 +228,8 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
-  num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
+  if (lseek(hashp->fp, 0, SEEK_SET) == 0)
+    num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
     return -1;
@@ -422,8 +422,8 @@ _ffdb_hget_header(ffdb_htab_t *hashp, unsigned int page_size)
    * XXX
    * This should not be printing to stderr on a "normal" error case.
    */
-  lseek(hashp->fp, 0, SEEK_SET);
-  num_copied = read(hashp->fp, hdr_dest, sizeof(ffdb_hashhdr_t));
+  if (lseek(hashp->fp, 0, SEEK_SET) == 0)
+    num_copied = read(hashp->fp, hdr_dest, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "Fatal error : hash could not retrieve header");
     return 0;
-- 
2.43.0


From 6f98422382ce8ebbb3f2967e74aad30fed072f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:50 +0000
Subject: [PATCH 18/65] fix: a table doubling that cannot be written is
 reported

---
 filehash/ffdb_hash.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 956469c..c92df03 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1073,6 +1073,7 @@ _ffdb_expand_table (ffdb_htab_t* hashp)
 {
   unsigned int old_bucket, new_bucket;
   int spare_indx, isdoubling, ret;
+  int flushed = 0;
   pgno_t p;
 
 #ifdef _FFDB_STATISTICS
@@ -1124,12 +1125,15 @@ _ffdb_expand_table (ffdb_htab_t* hashp)
 
   if (isdoubling) {
     /* Write out meta header here */
-    _ffdb_flush_meta (hashp);
-    ffdb_pagepool_sync (hashp->mp); 
+    if (_ffdb_flush_meta (hashp) != 0)
+      flushed = -1;
+    if (ffdb_pagepool_sync (hashp->mp) != 0)
+      flushed = -1;
   }
   
+  /* keys have to be redistributed even if the flush failed */
   ret = ffdb_split_bucket (hashp, old_bucket, new_bucket, isdoubling);
-  return ret;
+  return ret != 0 ? ret : flushed;
 }
 
 
-- 
2.43.0


From bf38800514f0e17d4449372a3fcbe9ab1aeef1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 19/65] fix: ffdb_split_bucket reports keys it could not move

---
 filehash/ffdb_page.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 4226d35..5fa8931 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1899,6 +1899,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
   int needovfl, reuse;
+  int status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1914,7 +1915,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -1979,12 +1980,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -1997,12 +1998,14 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
 		   unsigned int newbucket, int isdoubling)
 {
   unsigned int i;
+  int ret;
   FFDB_DBT key;
   void *oldpagep, *temp_pagep;
   pgno_t oldpage, nextpage, tp;
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status = 0;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2033,9 +2036,11 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	ret = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	ret = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+      if (ret != 0)
+	status = -1;
     }
     
     /* get next page number */
@@ -2047,12 +2052,18 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d of bucket %d\n",
+		 nextpage, oldbucket);
+	status = -1;
+      }
+    }
     else
       break;
   }
-  return 0;
+  return status;
 }
 
 
-- 
2.43.0


From 4e07de1adf11821fc27bae16286dbe95ad658d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 20/65] fix: a page that cannot be deleted from the pool is
 released

---
 filehash/ffdb_page.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5fa8931..f29b30e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1331,18 +1331,24 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
 		  unsigned int addrtype, int isdoubling)
 {
   int deleteit = 0;
+  int status;
   if (addrtype == HASH_OVFL_PAGE) {
     _ffdb_free_ovflpage (hashp, pagep, isdoubling, &deleteit);
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      status = ffdb_pagepool_delete (hashp->mp, pagep); 
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
   }
   else 
-    return ffdb_pagepool_delete (hashp->mp, pagep);
+    status = ffdb_pagepool_delete (hashp->mp, pagep);
+
+  if (status != 0)
+    /* the page is still ours: give it back */
+    ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
+  return status;
 }
 
 /**
@@ -2221,8 +2227,10 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
       page++;
       continue;
     }
-    if (ffdb_pagepool_delete (hashp->mp, pagep) != 0) 
+    if (ffdb_pagepool_delete (hashp->mp, pagep) != 0) {
       fprintf (stderr, "Cannot delete a moved page %d\n", page);
+      ffdb_put_page (hashp, pagep, HASH_RAW_PAGE, 0);
+    }
     page++;
   }
 }
-- 
2.43.0


From ffd1f822f54e6b490a276a966e08885d2dbcc58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 21/65] fix: moving a cursor that has no position does not
 dereference NULL

---
 filehash/ffdb_page.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f29b30e..3e18634 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2895,6 +2895,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.pgndx = NUM_ENT(cursor->item.pagep) - 1;
     cursor->item.status = ITEM_OK;
   }
+  else if (!cursor->item.pagep) {
+    /* moved past either end, or the last move failed: there is no position
+     * to move from
+     */
+    return cursor->item.status == ITEM_NO_MORE ? FFDB_NOT_FOUND : -1;
+  }
   else if (flags == FFDB_NEXT) {
     /* We have reached the last data on the key page */
     if (cursor->item.pgndx == NUM_ENT(cursor->item.pagep) - 1) {
@@ -2987,6 +2993,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From a791791763b5e798b6c7f4eb22ca88b6156fa211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 22/65] fix: a failing open releases the page pool, file
 descriptor and memory it holds

---
 filehash/ffdb_hash.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index c92df03..7345997 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -629,6 +629,19 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
 
 
+/**
+ * Release everything a failing open has acquired once the pagepool exists
+ */
+static void
+_ffdb_open_failed (ffdb_htab_t* hashp)
+{
+  ffdb_pagepool_close (hashp->mp);
+  close (hashp->fp);
+  free (hashp->fname);
+  free (hashp->split_buf);
+  free (hashp);
+}
+
 /**
  * Interface to outside DB calls
  */
@@ -827,8 +840,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if ((ret = ffdb_pagepool_open_fd(hashp->mp, hashp->fp, 
 				   hashp->hdr.bsize, csize)) != 0) {
     fprintf (stderr, "Cannot open pagepool for %s\n", fname);
-    close (hashp->fp);
-    free (hashp);
+    _ffdb_open_failed (hashp);
     errno = ret;
     return 0;
   }
@@ -844,9 +856,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if (new_table) {
     if (_ffdb_init_htab(hashp, info && info->nbuckets ? info->nbuckets : 1, info) != 0) {
       fprintf (stderr, "Cannot initialize hash header information.\n");
-      ffdb_pagepool_close (hashp->mp);
-      close (hashp->fp);
-      free (hashp);
+      _ffdb_open_failed (hashp);
       errno = ENOMEM;
       return 0;
     }
@@ -857,8 +867,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    */
   hashp->fname = (char *)malloc (strlen (fname) + 1);
   if (!hashp->fname) {
-    close (hashp->fp);
-    free (hashp);
+    _ffdb_open_failed (hashp);
     return 0;
   }
   strcpy (hashp->fname, fname);
@@ -871,10 +880,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   /* get a chunk of memory for our split buffer */
   hashp->split_buf = (unsigned short *)malloc(hashp->hdr.bsize);
   if (!hashp->split_buf) {
-    ffdb_pagepool_close (hashp->mp);
-    close (hashp->fp);
-    free (hashp->fname);
-    free (hashp);
+    _ffdb_open_failed (hashp);
     return 0;
   }
 
@@ -886,11 +892,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   _ffdb_read_config_info (hashp);
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
-    ffdb_pagepool_close (hashp->mp);
-    close (hashp->fp);
-    free (hashp->fname);
-    free (hashp->split_buf);
-    free (hashp);
+    _ffdb_open_failed (hashp);
     return 0;
   }
 
-- 
2.43.0


From 1054b77b5bb2facd2f2cb53c5955d8e2c6623b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 23/65] fix: open fails when the user or configuration pages
 cannot be read

---
 filehash/ffdb_hash.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 7345997..f4b2af6 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -469,7 +469,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
 
   if (hashp->new_file) {
     for (i = 0; i < npages; i++)
-      ffdb_new_page (hashp, start + i, HASH_UINFO_PAGE);
+      if (ffdb_new_page (hashp, start + i, HASH_UINFO_PAGE) != 0)
+	return -1;
   }
 
   if (hashp->save_file) {
@@ -480,6 +481,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -500,7 +503,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
 
   if (hashp->new_file) {
     for (i = 0; i < npages; i++)
-      ffdb_new_page (hashp, start + i, HASH_CONFIG_PAGE);
+      if (ffdb_new_page (hashp, start + i, HASH_CONFIG_PAGE) != 0)
+	return -1;
   }
 
   if (hashp->save_file) {
@@ -512,6 +516,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -888,8 +894,14 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 ||
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read user or configuration information of %s\n",
+	     fname);
+    _ffdb_open_failed (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     _ffdb_open_failed (hashp);
-- 
2.43.0


From 08264d71caa76b55850acd53e0e946f47db327ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 24/65] fix: open and close report pages that could not be
 moved

---
 filehash/ffdb_hash.c | 11 ++++++--
 filehash/ffdb_page.c | 67 ++++++++++++++++++++++++++------------------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index f4b2af6..309fc0d 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -266,7 +266,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   int save_errno = 0;
 
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = errno ? errno : EIO;
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -961,7 +962,13 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * new insert is expected or some pages was moved previously
    */
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      fprintf (stderr, "Cannot move pages of %s back into place\n", fname);
+      _ffdb_open_failed (hashp);
+      free (dbp);
+      errno = EIO;
+      return 0;
+    }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3e18634..3769699 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2247,20 +2247,23 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
  *
- * @return last page number on the linked list after successful move. 
- * If there is no data pages being moved, INVALID_PGNO is returned
+ * @param lastdpage last page number on the linked list after successful move. 
+ * If there is no data pages being moved, this is INVALID_PGNO
+ *
+ * @return 0 on success, -1 when some page could not be moved
  */
-static pgno_t
+static int
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast,
+		  pgno_t* lastdpage)
 {
-  pgno_t dlast, page, rpage, tp;
+  pgno_t page, rpage, tp;
   pgno_t prevp, nextp;
   unsigned int numpages, i;
   void *pagep, *prevpagep, *nextpagep;
 
-  dlast = INVALID_PGNO;
+  *lastdpage = INVALID_PGNO;
   /* Create page header array to keep track old page information */
   numpages = oldlast - oldfirst + 1;
 
@@ -2272,7 +2275,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
-      return dlast;
+      return -1;
     }
 
     if (TYPE(pagep) != type) {
@@ -2295,7 +2298,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	PREV_PGNO(nextpagep) = rpage;
@@ -2311,7 +2314,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
        * update last new location of this page
        */
       if (type == HASH_DATA_PAGE)
-	dlast = rpage;
+	*lastdpage = rpage;
     }
 
 
@@ -2324,7 +2327,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	NEXT_PGNO(prevpagep) = rpage;
@@ -2352,7 +2355,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update primary page for data page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2368,7 +2371,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update data page for primary page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2377,14 +2380,17 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
       
 
     /* Release this page and update page number */
-    ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep));
+    if (ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep)) != 0) {
+      fprintf (stderr, "Cannot move page %d to new page %d.\n", page, rpage);
+      return -1;
+    }
 
     /* update local variables */
     rpage++;
     page++;    
   }
     
-  return dlast;
+  return 0;
 }
 
 /**
@@ -2396,6 +2402,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 {
   pgno_t funused, lunused;
   pgno_t dlast, dfirst;
+  pgno_t lastdpage, tp;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
 
@@ -2439,15 +2446,18 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 #endif
 
   /* move data pages first */
-  _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
+			funused, lunused, &lastdpage) != 0)
+    return -1;
 
   /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
+			funused, lunused, &tp) != 0)
+    return -1;
 
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
+			funused, lunused, &tp) != 0)
+    return -1;
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
@@ -2463,7 +2473,7 @@ int
 ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 {
   pgno_t oldfirst, oldlast, newfirst, newlast;
-  pgno_t lastdpage;
+  pgno_t lastdpage, tp;
   unsigned int num_page_moved;
 
   /* Check whether any pages has been moved when the database is closed */
@@ -2495,15 +2505,18 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
 
   /* Move data pages first */
-  lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &lastdpage) != 0)
+    return -1;
 
   /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0)
+    return -1;
   
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
-- 
2.43.0


From 985865104acefc530ff72670d07938e341b5ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 25/65] fix: closing a read-only handle never tries to truncate
 the file

---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 309fc0d..5d0d6ab 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -315,7 +315,7 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
       save_errno = errno ? errno : EIO;
 
   /* Reduce file size if possible */
-  if (hashp->rearrange_pages)
+  if (hashp->rearrange_pages && hashp->save_file)
     ffdb_reduce_filesize (hashp);
 
   if (hashp->fp != -1)
-- 
2.43.0


From 2a3eec1ae39cb4922cbc818b857c8bbad6ffbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 26/65] fix: ffdb_get_config does not judge the caller's
 uninitialised output

---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5d0d6ab..e28ef17 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1558,13 +1558,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From 81ba2d3bc201df299cf82e24c07c0f749397cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:47 +0000
Subject: [PATCH 27/65] fix: a table created with one bucket loses no keys when
 it grows

---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index e28ef17..fd823b5 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -623,7 +623,7 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* high mask and low mask value */
   hashp->hdr.max_bucket = hashp->hdr.high_mask = nbuckets - 1;
-  hashp->hdr.low_mask = (nbuckets >> 1) - 1;
+  hashp->hdr.low_mask = hashp->hdr.high_mask >> 1;
 
   /* set hash version and flag */
   hashp->hdr.magic = FFDB_HASHMAGIC;
-- 
2.43.0


From a8cbaec531850fbff3d09a9874633894f9b236fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:47 +0000
Subject: [PATCH 28/65] fix: replacing a huge datum by a smaller one clears its
 high length bits

---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3769699..8fb129b 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1733,8 +1733,10 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
-    /* insert ncessary length information to offset */
+  if (hashp->hdr.version > FFDB_VERSION_5) {
+    /* insert ncessary length information to offset, also clearing the high
+     * length bits of a huge datum replaced by a smaller one
+     */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
     datap->chksum = item->data_chksum;
-- 
2.43.0


From 1bddccc639b1e83db01cd712245162d73e9a7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:47 +0000
Subject: [PATCH 29/65] fix: storing a datum never reads past the end of the
 caller's buffer

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8fb129b..68ee88f 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -729,6 +729,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -866,6 +868,8 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
 	copylen = rlen;
       else 
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+      if (copylen > rlen)
+	copylen = rlen;
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From 2021ccadc4e77f58bb3ab6abcd8e70191dfb8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 30/65] fix: a key accepted by put fits on an empty page and
 can be found again

---
 filehash/ffdb_page.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..0d1a3b8 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -352,7 +352,7 @@ typedef struct _ffdb_data_header_
  * we are not dealing with the case that a single key cannot be fit
  * into a page
  */
-#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
+#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t) - (sizeof(int) - 1))
 
 #define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
-- 
2.43.0


From 380319cd9f4dfd8ddbecdce53977de13c86af814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 31/65] fix: only the length word of user information is byte
 swapped

---
 filehash/ffdb_page.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 68ee88f..32e379d 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first page carries the length of the user data */
+    if (NUM_ENT(p) > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -352,7 +354,8 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    if (num > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
-- 
2.43.0


From fe7f72758faeafebc5099985f866e35fedc594f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 32/65] fix: positioning a cursor on the last key of an empty
 one bucket table

---
 filehash/ffdb_page.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 32e379d..7534f2a 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2891,8 +2891,13 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     /* Skip empty buckets */
     while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
+      /* Get next bucket */
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2903,13 +2908,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
-- 
2.43.0


From 4d06c5081daf6e8a9d3cd86cae180d9982bf6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 33/65] fix: user and configuration information of a read-only
 handle cannot be set

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index fd823b5..4593fbe 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1490,6 +1490,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1539,6 +1545,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1571,6 +1583,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From ae6cfd9d18c7fef69f888df0a555774808286d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 34/65] fix: a map of free pages that cannot be read is
 reported

---
 filehash/ffdb_page.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 7534f2a..ec1db0f 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1196,11 +1196,13 @@ _ffdb_update_free_page (ffdb_htab_t* hashp, void* fpagep, pgno_t opage)
  * Free an overflow page: this happens when a bucket is split. 
  * We need to update free page in the previous level
  *
- * Return whether this page should be deleted
+ * Set deleteit to whether this page should be deleted
+ *
+ * Return 0 on success, -1 when the map of free pages cannot be read
  *
  * The freed overflow page is represented by 'memp'
  */
-static void
+static int
 _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
 		     int* deleteit)
 {
@@ -1289,7 +1291,7 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
 		     nextpage);
 	    /* release the previous page */
 	    ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0);
-	    return;
+	    return -1;
 	  }
 	  /* release the previous page */
 	  ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0);
@@ -1328,6 +1330,7 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
+  return 0;
 }
 
 /**
@@ -1338,9 +1341,9 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
 		  unsigned int addrtype, int isdoubling)
 {
   int deleteit = 0;
-  int status;
+  int status, mapped = 0;
   if (addrtype == HASH_OVFL_PAGE) {
-    _ffdb_free_ovflpage (hashp, pagep, isdoubling, &deleteit);
+    mapped = _ffdb_free_ovflpage (hashp, pagep, isdoubling, &deleteit);
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
@@ -1355,7 +1358,7 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
   if (status != 0)
     /* the page is still ours: give it back */
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-  return status;
+  return mapped;
 }
 
 /**
@@ -2065,7 +2068,8 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     if (base_page) 
       base_page = 0;
     else  /* free overflow page */ 
-      ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
+      if (ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling) != 0)
+	status = -1;
     
     if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
-- 
2.43.0


From b64b97fe1c16f5b00ea2c0b7299e17d823daa706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 35/65] fix: open reports a moved page that cannot be read

---
 filehash/ffdb_page.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index ec1db0f..87effa5 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2221,9 +2221,10 @@ _ffdb_update_key_pages_content (ffdb_htab_t* hashp, void *pagep,
  * @param first the first page to be removed
  * @param last the last page to be removed
  */
-static void _ffdb_remove_pages (ffdb_htab_t* hashp, 
-				pgno_t first, pgno_t last)
+static int _ffdb_remove_pages (ffdb_htab_t* hashp, 
+			       pgno_t first, pgno_t last)
 {
+  int status = 0;
   unsigned int numpages, i;
   pgno_t page, tp;
   void *pagep;
@@ -2237,6 +2238,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
     if (!pagep) {
       fprintf (stderr, "Warning: cannot find moved old page %d \n",
 	       page);
+      status = -1;
       page++;
       continue;
     }
@@ -2246,6 +2248,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
     }
     page++;
   }
+  return status;
 }
   
 
@@ -2541,9 +2544,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
   /* Clean out those pages from page cache to make memory
    * the same as if there are no pages have been here
    */
-  _ffdb_remove_pages (hashp, oldfirst, oldlast);
-
-  return 0;
+  return _ffdb_remove_pages (hashp, oldfirst, oldlast);
 }
 
 
-- 
2.43.0


From b7d579ae5c76aec453662b22d4761f30cd9bea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:40 +0000
Subject: [PATCH 36/65] fix: ffdb_pagepool_open reports wrong flags and closes
 the file it rejects

---
 filehash/ffdb_pagepool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b6421d1..0467ec6 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -539,7 +539,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
 		    const unsigned int pagesize,
 		    const unsigned int maxcache)
 {
-  int lflags, fd;
+  int lflags, fd = -1, err;
   struct stat sb;
 
   /* check whether some other threads already opened this file */
@@ -555,6 +555,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   unsigned int ok_flags = FFDB_CREATE | FFDB_RDONLY | FFDB_DIRECT;
   if (FFDB_FLAG_ISSET(flags, ~ok_flags)) {
     fprintf (stderr, "ffdb_pagepool_open wrong flags specification\n");
+    errno = EINVAL;
     goto openerr;
   }
   
@@ -636,8 +637,11 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   return 0;
 
  openerr:
+  err = errno;
+  if (fd > 0)
+    close (fd);
   FFDB_UNLOCK(pgp->lock);
-  return errno;
+  return err;
 }
 
 
-- 
2.43.0


From 9c046ca7b6ef1527a473702d932b1509f6db7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:18 +0000
Subject: [PATCH 37/65] fix: release the handle's lock before destroying it on
 close

---
 filehash/ffdb_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 4593fbe..a6a2c96 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1051,7 +1051,8 @@ _ffdb_hash_close (FFDB_DB* dbp)
 
   retval = _ffdb_hdestroy (hashp);
 
-  /* free lock */
+  /* free lock: destroying a held mutex is undefined */
+  FFDB_UNLOCK(hashp->lock);
   FFDB_LOCK_FINI(hashp->lock);
 
   /* finally free hashp itself */
-- 
2.43.0


From 4e2638901dfdf3e853f44956f4239c1f914fbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:18 +0000
Subject: [PATCH 38/65] fix: take the handle's lock to change its list of
 cursors

---
 filehash/ffdb_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index a6a2c96..1da7343 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1463,7 +1463,9 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1670,7 +1672,9 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
+  FFDB_LOCK(hashp->lock);
   FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(hashp->lock);
 
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
-- 
2.43.0


From 052a9188d02f9debecc1b88fe5d3e72de68f8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:58 +0000
Subject: [PATCH 39/65] fix: ffdb_get_all_configs frees its array when it fails

---
 filehash/ffdb_hash.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 1da7343..bfaf137 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1528,7 +1528,12 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   }
   
   /* No need to lock the whole process because each page is locked */
-  return ffdb_get_configs (hashp, configs);
+  if (ffdb_get_configs (hashp, configs) != 0) {
+    free (configs->allconfigs);
+    configs->allconfigs = 0;
+    return -1;
+  }
+  return 0;
 }
 
 unsigned int
-- 
2.43.0


From 8f05170275a3f4cef73c2fc76ee6c2bb0bd21504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:58 +0000
Subject: [PATCH 40/65] fix: a cursor read that fails frees the key it copied

---
 filehash/ffdb_page.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 87effa5..4ae4d07 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2834,6 +2834,8 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   pgno_t bucket, tp, nextp;
   unsigned char* ekdata;
   unsigned int   eksize;
+  int            ownkey = 0;
+  int            ret;
 
   if (flags == FFDB_FIRST) {
     if (cursor->item.pagep) {
@@ -3098,6 +3100,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     key->size = eksize;
+    ownkey = 1;
   }
   memcpy (key->data, ekdata, eksize);
 
@@ -3108,7 +3111,14 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.key_len = eksize;
     cursor->item.data_off = DATAP_OFF(cursor->item.pagep, cursor->item.pgndx);
 
-    return ffdb_get_item (hashp, key, data, &cursor->item, 0);
+    ret = ffdb_get_item (hashp, key, data, &cursor->item, 0);
+    if (ret != 0 && ownkey) {
+      /* the caller gets nothing: drop the copy of the key made above */
+      free (key->data);
+      key->data = 0;
+      key->size = 0;
+    }
+    return ret;
   }
   return 0;
 }
-- 
2.43.0


From 85b57ec52fcbea33859f6ad10b58b1d13e90b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 41/65] fix: cursors and buffers are released when reading a
 record throws

---
 src/DBFunc.cpp | 32 +++++++------------
 src/DBFunc.h   | 87 +++++++++++++++++++++++++++++---------------------
 2 files changed, 62 insertions(+), 57 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..48fc932 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -89,6 +89,7 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Create Cursor Error");
+      CursorGuard crpguard (crp);
 
       // get everything from meta data
       dbkey.data = dbdata.data = 0;
@@ -96,17 +97,16 @@ namespace FILEDB
 
       while ((ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT)) == 0) 
       {
+	// the memory is freed at the end of each turn
+	DBTGuard keyguard (dbkey);
+	DBTGuard dataguard (dbdata);
+
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
 
 	// put this new key into the vector
 	keys.push_back (keyObj);
-	
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
@@ -114,10 +114,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
-    
-    // close cursor
-    if (crp != NULL)
-      crp->close(crp);
   }
 
   void binaryAllPairs (FFDB_DB* dbh, 
@@ -134,6 +130,7 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Create Cursor Error");
+      CursorGuard crpguard (crp);
 
       // get everything from meta data
       dbkey.data = dbdata.data = 0;
@@ -141,6 +138,10 @@ namespace FILEDB
 
       while ((ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT)) == 0) 
       {
+	// the memory is freed at the end of each turn
+	DBTGuard keyguard (dbkey);
+	DBTGuard dataguard (dbdata);
+
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
@@ -154,11 +155,6 @@ namespace FILEDB
 	
 	// put this data into the other vector
 	data.push_back (dataObj);
-
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
@@ -166,10 +162,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
-    
-    // close cursor
-    if (crp != NULL)
-      crp->close(crp);
   }
 
   int getBinaryData (FFDB_DB* dbh, const std::string& key, std::string& data) 
@@ -189,10 +181,10 @@ namespace FILEDB
     // now retrieve data from database
     ret = dbh->get (dbh, &dbkey, &dbdata, 0);
     if (ret == 0) {
+      // the memory comes from malloc in c code
+      DBTGuard dataguard (dbdata);
       // convert object into a string
       data.assign((char*)dbdata.data, dbdata.size);
-      // I have to use free since I use malloc in c code
-      free(dbdata.data);
     }
     return ret;
   }  
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..f2fffb7 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -59,6 +59,37 @@
 
 namespace FILEDB
 {
+  /**
+   * Closes a cursor at the end of the scope, however the scope is left
+   */
+  class CursorGuard
+  {
+  public:
+    explicit CursorGuard (ffdb_cursor_t* crp) : crp_ (crp) {}
+    ~CursorGuard (void) { if (crp_) crp_->close (crp_); }
+
+  private:
+    CursorGuard (const CursorGuard&);
+    CursorGuard& operator = (const CursorGuard&);
+    ffdb_cursor_t* crp_;
+  };
+
+  /**
+   * Frees the memory a get on a database or on a cursor allocated for a key
+   * or a data at the end of the scope, however the scope is left
+   */
+  class DBTGuard
+  {
+  public:
+    explicit DBTGuard (FFDB_DBT& dbt) : dbt_ (dbt) {}
+    ~DBTGuard (void) { free (dbt_.data); dbt_.data = 0; dbt_.size = 0; }
+
+  private:
+    DBTGuard (const DBTGuard&);
+    DBTGuard& operator = (const DBTGuard&);
+    FFDB_DBT& dbt_;
+  };
+
   /**
    * Return all keys to vectors in binary form of strings
    *
@@ -299,13 +330,13 @@ namespace FILEDB
     // now retrieve data from database
     ret = dbh->get (dbh, &dbkey, &dbdata, 0);
     if (ret == 0) {
+      // the memory comes from malloc in c code
+      DBTGuard dataguard (dbdata);
       try {
 	// convert object into a string
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
 	data.readObject (dataObj);
-	// I have to use free since I use malloc in c code
-	free(dbdata.data);
       }
       catch (SerializeException& e) {
 	ret = -1;
@@ -354,10 +385,10 @@ namespace FILEDB
     // now retrieve data from database
     ret = dbh->get (dbh, &dbkey, &dbdata, 0);
     if (ret == 0) {
+      // the memory comes from malloc in c code
+      DBTGuard dataguard (dbdata);
       // convert object into a string
       data.assign((char*)dbdata.data, dbdata.size);
-      // I have to use free since I use malloc in c code
-      free(dbdata.data);
     }
     return ret;
   }
@@ -381,11 +412,15 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc allKeys", "Cannot create cursor");
+      CursorGuard crpguard (crp);
 
       // get everything from meta dat
       dbkey.data = 0;
       dbkey.size = 0;
       while ((ret = crp->get (crp, &dbkey, 0, FFDB_NEXT)) == 0) {
+	// the memory is freed at the end of each turn
+	DBTGuard keyguard (dbkey);
+
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
@@ -393,12 +428,6 @@ namespace FILEDB
 
 	// put this new key into the vector
 	keys.push_back (arg);
-
-	// free memory
-	free (dbkey.data);
-
-	dbkey.data = 0;
-	dbkey.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
@@ -406,10 +435,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     } 
-    
-    // close cursor
-    if (crp)
-      crp->close(crp);
   }
 
 
@@ -433,11 +458,16 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc AllPairs", "Create Cursor Error");
+      CursorGuard crpguard (crp);
 
       // get everything from meta data
       dbkey.data = dbdata.data = 0;
       dbkey.size = dbdata.size = 0;
       while ((ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT)) == 0) {
+	// the memory is freed at the end of each turn
+	DBTGuard keyguard (dbkey);
+	DBTGuard dataguard (dbdata);
+
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
@@ -454,11 +484,6 @@ namespace FILEDB
 	// put this data into the other vector
 	data.push_back (d);
 
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
-
 	if (only_one)
 	{
 	  ret = FFDB_NOT_FOUND;
@@ -471,10 +496,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
-    
-    // close cursor
-    if (crp != NULL)
-      crp->close(crp);
   }
 
   /**
@@ -495,11 +516,16 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc AllPairs", "Create Cursor Error");
+      CursorGuard crpguard (crp);
 
       // get everything from meta data
       dbkey.data = dbdata.data = 0;
       dbkey.size = dbdata.size = 0;
       while ((ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT)) == 0) {
+	// the memory is freed at the end of each turn
+	DBTGuard keyguard (dbkey);
+	DBTGuard dataguard (dbdata);
+
 	std::string keyObj((char*)dbkey.data, dbkey.size);
 
 	// convert into data object
@@ -512,11 +538,6 @@ namespace FILEDB
 	
 	// put this data into the other vector
 	data.push_back (d);
-
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
@@ -524,10 +545,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
-    
-    // close cursor
-    if (crp != NULL)
-      crp->close(crp);
   }
 
   /**
@@ -548,6 +565,7 @@ namespace FILEDB
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor creation error");
+      CursorGuard crpguard (crp);
 
       // get first thing from the database 
       dbkey.data = dbdata.data = 0;
@@ -556,7 +574,6 @@ namespace FILEDB
       if (ret == 0) {
 	free (dbkey.data);
 	free (dbdata.data);
-	crp->close(crp);
 	return 0;
       }
 
@@ -566,10 +583,6 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
-    
-    // close cursor
-    if (crp != NULL)
-      crp->close(crp);
 
     return 1;
   }
-- 
2.43.0


From c83be3452c5441b24e172752c585ab2c7e7d8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 42/65] fix: exist does not take a failure to read the database
 for a missing key

---
 src/DBFunc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DBFunc.h b/src/DBFunc.h
index f2fffb7..30d81a1 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -625,6 +625,8 @@ namespace FILEDB
 	free (dbdata.data);
 	return 1;
       }
+      if (ret != FFDB_NOT_FOUND)
+	throw FileHashDBException ("DBFunc keyExist", "Get error");
     }
     catch (SerializeException& e) {
       throw;
-- 
2.43.0


From d819dba7453494e25021018875e1d6d49b211305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 43/65] fix: a flush that fails to write the database is
 reported

---
 src/DBFunc.cpp | 3 ++-
 src/DBFunc.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 48fc932..5a5120e 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -57,7 +57,8 @@ namespace FILEDB
 {
   void flushDatabase (FFDB_DB* dbh)
   {
-    dbh->sync (dbh, 0);
+    if (dbh->sync (dbh, 0) != 0)
+      throw FileHashDBException ("DBFunc flushDatabase", "Sync error");
   }
 
   bool fileExists (const std::string& filename)
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 30d81a1..fadf363 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -638,7 +638,7 @@ namespace FILEDB
   /**
    * flush data base to disk
    */
-  void flushDatabase (FFDB_DB* dbh);
+  void flushDatabase (FFDB_DB* dbh) noexcept (false);
 
 
   /**
-- 
2.43.0


From 7b27a0e3c6d39d5bc59496c4b19f475fbfcc9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:32 +0000
Subject: [PATCH 44/65] fix: a store that is not open refuses every operation

---
 src/AllConfStoreDB.h        | 27 +++++++++++++++++++++++++++
 src/ConfDataStoreDB.h       |  3 +++
 src/ConfDataStoreDBSimple.h | 24 +++++++++++++++++++++---
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..83b6dc3 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -234,6 +234,9 @@ namespace FILEDB
     template <typename K0 = K, typename D0 = D>
     int get (const K0& key, std::vector< D0 >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -293,6 +296,9 @@ namespace FILEDB
      */
     int getFromStringKey (const std::string& key, std::vector< D >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -387,6 +393,9 @@ namespace FILEDB
      */
     int insert (const K & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -441,6 +450,9 @@ namespace FILEDB
      */
     int insertWithStringKey (const std::string & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -532,6 +544,9 @@ namespace FILEDB
      */
     int update (const K& key, const D& v, const int config, const int index)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       (void)config;
       int ret = 0;
 
@@ -724,6 +739,9 @@ namespace FILEDB
      */
     int setConfigInfo (const ConfigInfo& config)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_config_info_t info;
       
       info.config = config.configNumber();
@@ -746,6 +764,9 @@ namespace FILEDB
     int getConfigInfo (unsigned int confignum,
 		       ConfigInfo& info)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int stat;
       ffdb_config_info_t cf;
 
@@ -768,6 +789,9 @@ namespace FILEDB
      */
     int getAllConfigInfo (std::vector<ConfigInfo>& configs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_all_config_info_t allcfigs;
       ConfigInfo cf;
       int stat, i;
@@ -800,6 +824,9 @@ namespace FILEDB
      */
     key_iterator begin (void) const
     {
+      if (!this->db->dbh_)
+        return end ();
+
       return DBKeyIterator < K, D >::init (this->db->dbh_);
     }
 
diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index 38a6f53..3daf8a8 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -306,6 +306,9 @@ namespace FILEDB
      * @return 0 on successful write, -1 on failure with proper errno set
      */
     template <typename K, typename D> int insert(const K &key, const D &data) {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -325,6 +328,9 @@ namespace FILEDB
      * @return 0 on success, otherwise the key not found
      */
     template <typename K, typename D> int get(const K &key, D &data) const {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -343,6 +349,9 @@ namespace FILEDB
      * @return true if the answer is yes
      */
     template <typename K> bool exist(const K &key) const {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
@@ -362,7 +371,8 @@ namespace FILEDB
      * by keys after this call.
      */
     template <typename K, typename D> void keys(std::vector<K> &keys) const {
-      allKeys< K, D >(db->dbh_, keys);
+      if (db->dbh_)
+        allKeys< K, D >(db->dbh_, keys);
     }
 
     /**
@@ -373,7 +383,8 @@ namespace FILEDB
      */
     template <typename K, typename D>
     void keysAndData(std::vector<K> &keys, std::vector<D> &values) const {
-      allPairs<K, D> (db->dbh_, keys, values);
+      if (db->dbh_)
+        allPairs<K, D> (db->dbh_, keys, values);
     }
 
     /**
@@ -381,7 +392,8 @@ namespace FILEDB
      */
     void flush (void)
     {
-      flushDatabase (db->dbh_);
+      if (db->dbh_)
+        flushDatabase (db->dbh_);
     }
 
     /**
@@ -403,6 +415,9 @@ namespace FILEDB
      */
     int insertUserdata (const std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       return ffdb_set_user_info (db->dbh_, 
 				 (unsigned char *)user_data.c_str(), user_data.length());
     }
@@ -415,6 +430,9 @@ namespace FILEDB
      */
     int getUserdata (std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       int ret;
       unsigned int len;
       unsigned char* data;
-- 
2.43.0


From 88d9f3e06c3b2d217c0219bf79230ac841d16169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:32 +0000
Subject: [PATCH 45/65] fix: opening a store fails if its configurations cannot
 be stored or read

---
 src/AllConfStoreDB.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 83b6dc3..9405694 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -121,8 +121,7 @@ namespace FILEDB
       allcfgs_ = std::shared_ptr<ffdb_all_config_info_t>(
           new ffdb_all_config_info_t,
           /* deleter function */ [=](ffdb_all_config_info_t *allcfgs_) {
-            if (allcfgs_->numconfigs > 0)
-              free(allcfgs_->allconfigs);
+            free(allcfgs_->allconfigs);
             delete allcfgs_;
           });
       allcfgs_->numconfigs = 0;
@@ -197,18 +196,32 @@ namespace FILEDB
       if (empty_) {
 	if (nbin_ == 0) {
 	  std::cerr << "One has to provide number of configurations." << std::endl;
+	  this->close ();
 	  return -1;
 	}
 
 	// update configuration information
-	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
+	if ((open_flags & O_ACCMODE) != O_RDONLY &&
+	    ffdb_set_all_configs (this->db->dbh_, &*allcfgs_) != 0) {
+	  std::cerr << "Cannot store the configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
       }
       else {
 	// update configuration information
-	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
+	ffdb_all_config_info_t stored;
+	if (ffdb_get_all_configs (this->db->dbh_, &stored) != 0) {
+	  std::cerr << "Cannot read the configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
+	free (allcfgs_->allconfigs);
+	*allcfgs_ = stored;
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
 	  std::cerr << "number of configurations = 0 on an existing database." << std::endl;
+	  this->close ();
 	  return -1;
 	}
       }
-- 
2.43.0


From ed31b03db63349fa83056c40639723c30f33eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 46/65] fix: update refuses an index outside of the
 configurations

---
 src/AllConfStoreDB.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 9405694..1dbe8d8 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -563,6 +563,11 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update configuration index " << index << " is not within " << nbin_ << std::endl;
+	return -1;
+      }
+
       if (empty_) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
-- 
2.43.0


From 7395655c5702f713cb2e73259036c8b42741662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 47/65] fix: configuration file names are always terminated

---
 src/AllConfStoreDB.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 1dbe8d8..b312660 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -169,9 +169,11 @@ namespace FILEDB
       for (std::size_t i = 0; i < names.size(); i++) {
 	if (names[i] == "N/A")
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
-	else
+	else {
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
 		   _FFDB_MAX_FNAME);
+	  allcfgs_->allconfigs[i].fname[_FFDB_MAX_FNAME - 1] = '\0';
+	}
       }
     }
       
@@ -767,6 +769,7 @@ namespace FILEDB
       info.inserted = config.inserted ();
       info.mtime = config.modifiedTime();
       strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      info.fname[_FFDB_MAX_FNAME - 1] = '\0';
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
-- 
2.43.0


From ea8d1ea0fe160f924ae71509a37938f03b21d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 48/65] fix: setConfigInfo stores the type of the configuration

---
 src/AllConfStoreDB.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index b312660..f972245 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -767,6 +767,7 @@ namespace FILEDB
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
       strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
       info.fname[_FFDB_MAX_FNAME - 1] = '\0';
-- 
2.43.0


From c5a3b619a1200f29ade24e4353b863fae53d2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 49/65] fix: getAllConfigInfo frees the configurations it read

---
 src/AllConfStoreDB.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f972245..013e559 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -830,6 +830,7 @@ namespace FILEDB
 
 	  configs.push_back (cf);
 	}
+	free (allcfigs.allconfigs);
       }
       return stat;
     }
-- 
2.43.0


From 6b96f11e685ac281862aeaaa18fe83e896613e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 50/65] fix: listing a store with empty data does not divide by
 zero

---
 src/AllConfStoreDB.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 013e559..485162f 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -671,7 +671,7 @@ namespace FILEDB
 	  abort ();
 	}
  
-        vals.reserve(bvalues[i].length()/bsize);
+        vals.reserve(nbin_);
 	for (std::size_t k = 0; k < bvalues[i].length(); k += bsize) {
 	  D elem;
 	  std::string tmp;
-- 
2.43.0


From ae2cb4ec40d57b1e513d72515b7dd61cfbf33b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 51/65] fix: a get that fails does not add part of the elements
 to the result

---
 src/AllConfStoreDB.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 485162f..c656435 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -283,6 +283,7 @@ namespace FILEDB
       }
 
       // now split this data blob into a vector
+      std::vector< D0 > elems;
       char *rdata = (char *)&cdata[0];
       for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
 	D0 elem;
@@ -296,8 +297,9 @@ namespace FILEDB
 	  return -1;
 	}
 	// add to array
-	vs.push_back (elem);
+	elems.push_back (elem);
       }
+      vs.insert (vs.end(), elems.begin(), elems.end());
 
       return 0;
     }
@@ -339,6 +341,7 @@ namespace FILEDB
       }
 
       // now split this data blob into a vector
+      std::vector< D > elems;
       char *rdata = (char *)&cdata[0];
       for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
 	D elem;
@@ -352,8 +355,9 @@ namespace FILEDB
 	  return -1;
 	}
 	// add to array
-	vs.push_back (elem);
+	elems.push_back (elem);
       }
+      vs.insert (vs.end(), elems.begin(), elems.end());
 
       return 0;
     }
-- 
2.43.0


From 7f10bed4af00a0db54ef4d51e532c9498c6e4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 52/65] fix: a close that fails is returned, not thrown out of
 a destructor

---
 src/ConfDataStoreDBSimple.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index 3daf8a8..ed785c2 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -106,7 +106,8 @@ namespace FILEDB
       ~DB() { close(); }
 
       int open(const std::string &file, int open_flags, int mode) {
-        close();
+        if (close() != 0)
+          return -1;
         dbh_ = openDatabaseSimple(file, open_flags, mode, &options_);
 	if (!dbh_)
 	  return -1;
@@ -114,14 +115,14 @@ namespace FILEDB
         return 0;
       }
 
-      void close(void) {
+      int close(void) {
         int ret = 0;
         if (dbh_) {
           ret = dbh_->close(dbh_);
           dbh_ = nullptr;
+          filename_.clear();
         }
-        if (ret != 0)
-          throw std::runtime_error("Error closing filedb database: " + filename_);
+        return ret;
       }
     };
 
@@ -293,8 +294,7 @@ namespace FILEDB
 
     int close (void)
     {
-      db->close();
-      return 0;
+      return db->close();
     }
 
     /**
-- 
2.43.0


From 7e75647bfab5f2df85421d7c3967526c35e1ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 53/65] fix: getAllConfigInfo frees the configurations also if
 it throws

---
 src/AllConfStoreDB.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index c656435..06d6e04 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -824,6 +824,8 @@ namespace FILEDB
       stat = ffdb_get_all_configs (this->db->dbh_, &allcfigs);
 
       if (stat == 0) {
+	// free the configurations at the end of this scope
+	std::shared_ptr<ffdb_config_info_t> guard (allcfigs.allconfigs, free);
 	for (i = 0; i < allcfigs.numconfigs; i++) {
 	  cf.configNumber (allcfigs.allconfigs[i].config);
 	  cf.index (allcfigs.allconfigs[i].index);
@@ -834,7 +836,6 @@ namespace FILEDB
 
 	  configs.push_back (cf);
 	}
-	free (allcfigs.allconfigs);
       }
       return stat;
     }
-- 
2.43.0


From c7f06aa4bae696e8fd244236e675da465031031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 54/65] fix: a key iterator that cannot read its first key does
 not pass for an empty database

---
 src/DBCursor.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/DBCursor.h b/src/DBCursor.h
index 64e4607..d0720f8 100644
--- a/src/DBCursor.h
+++ b/src/DBCursor.h
@@ -298,8 +298,13 @@ namespace FILEDB
       int  ret;
       
       try {
-	dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
-	
+	ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
+	if (ret != 0) {
+	  std::cerr << "Fatal: cannot create DB cursor" << std::endl;
+	  ::exit (143);
+	}
+	DBCursor cursor (crp);
+
 	key.data = data.data = 0;
 	key.size = data.size = 0;
 	ret = crp->get (crp, &key, &data, FFDB_NEXT);
@@ -308,21 +313,22 @@ namespace FILEDB
 	  // convert into key object
 	  std::string keyObj;
 	  keyObj.assign((char*)key.data, key.size);
-	  mykey.readObject (keyObj);
-
 	  free (key.data); free(data.data);
 
-	  return DBKeyIterator<T, D>(DBCursor(crp), mykey, 0);
+	  mykey.readObject (keyObj);
+
+	  return DBKeyIterator<T, D>(cursor, mykey, 0);
 	}
 	else if (ret != FFDB_NOT_FOUND) {
 	  std::cerr <<"Fatal: DB cursor  error " << std::endl;
 	  ::exit (143);
 	}
 	else
-	  return DBKeyIterator<T, D>(DBCursor(crp), mykey, 1);
+	  return DBKeyIterator<T, D>(cursor, mykey, 1);
       }
       catch (SerializeException& e) {
 	std::cerr << "Fatal: DB cursor error: " << e.what () << std::endl;
+	::exit (143);
       }
       return DBKeyIterator<T, D>(DBCursor(), mykey, 1);
     }
-- 
2.43.0


From 9a992dfc2d4deac3acb50e1700f7b91a3f100441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 55/65] fix: fileExists of several stores looks at all the
 files it is given

---
 src/AllConfStoreMultipleDB.h  | 10 ++++------
 src/ConfDataStoreMultipleDB.h | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..808838e 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -100,15 +100,13 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
-	if (! ret)
-	  return ret;
+	if (! FILEDB::fileExists(files[i]))
+	  return false;
       }
 
-      return ret;
+      return true;
     }
 
 
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..30e41df 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -114,15 +114,13 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
-	if (! ret)
-	  return ret;
+	if (! FILEDB::fileExists(files[i]))
+	  return false;
       }
 
-      return ret;
+      return true;
     }
 
 
-- 
2.43.0


From 702dd9c3bc5ddf7de6e7fbd90ce9953c9d4826cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 56/65] fix: closing several stores closes all of them

---
 src/AllConfStoreMultipleDB.h  | 5 ++---
 src/ConfDataStoreMultipleDB.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index 808838e..fcdf365 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -138,9 +138,8 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
-	ret = dbs_[i].close();
-	if (ret != 0)
-	  return ret;
+	if (dbs_[i].close() != 0)
+	  ret = -1;
       }
 
       return ret;
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 30e41df..7182ed1 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -152,9 +152,8 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
-	ret = dbs_[i].close();
-	if (ret != 0)
-	  return ret;
+	if (dbs_[i].close() != 0)
+	  ret = -1;
       }
 
       return ret;
-- 
2.43.0


From 21bcc2194a4017baa8559498a7b4d5da5cfd16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 57/65] fix: a store that cannot be read is not taken for one
 without the key

---
 src/AllConfStoreMultipleDB.h  | 3 ++-
 src/ConfDataStoreMultipleDB.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index fcdf365..0d2261f 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -166,7 +166,8 @@ namespace FILEDB
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
 	  ret = dbs_[i].get(key, vs);
-	  if (ret == 0)
+	  // the next store is asked only if this one does not have the key
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 7182ed1..4264691 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -173,7 +173,8 @@ namespace FILEDB
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
 	  ret = dbs_[i].get(key, data);
-	  if (ret == 0)
+	  // the next store is asked only if this one does not have the key
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
@@ -198,7 +199,8 @@ namespace FILEDB
       for(int i=0; i < dbs_.size(); ++i)
       {
 	ret = dbs_[i].getBinary(key, data);
-	if (ret == 0)
+	// the next store is asked only if this one does not have the key
+	if (ret != FFDB_NOT_FOUND)
 	  break;
       }
       return ret;
-- 
2.43.0


From dfaadd43f33dbf82a2f2f1a0d92690e4c632bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 58/65] fix: several stores that are not open have no
 configuration

---
 src/AllConfStoreMultipleDB.h  | 5 ++++-
 src/ConfDataStoreMultipleDB.h | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index 0d2261f..be1d495 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -89,6 +89,9 @@ namespace FILEDB
      */
     virtual unsigned int getMaxNumberConfigs (void) const
     {
+      if (dbs_.size() == 0)
+	return 0;
+
       int ret = dbs_[0].getMaxNumberConfigs();
 
       return ret;
@@ -149,7 +152,7 @@ namespace FILEDB
     /**
      * Number of configuration (bins) of this ensemble
      */
-    int size (void) const {return dbs_[0].size();}
+    int size (void) const {return dbs_.size() == 0 ? 0 : dbs_[0].size();}
 
 
     /**
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 4264691..2242675 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -103,6 +103,9 @@ namespace FILEDB
      */
     virtual unsigned int getMaxNumberConfigs (void) const
     {
+      if (dbs_.size() == 0)
+	return 0;
+
       int ret = dbs_[0].getMaxNumberConfigs();
 
       return ret;
-- 
2.43.0


From a803f75b90cd67d9792ded6145ec7c04b69b8d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 59/65] fix: getUserdata frees its buffer if it throws

---
 src/ConfDataStoreDB.h       | 10 +++-------
 src/ConfDataStoreDBSimple.h | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index 941f2c9..0d8db28 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -558,16 +558,12 @@ namespace FILEDB
 
       int ret;
       unsigned int len;
-      unsigned char* data;
 
       len = ffdb_max_user_info_len (db->dbh_);
-      data = new unsigned char[len];
-      ret = ffdb_get_user_info (db->dbh_, data, &len);
+      std::vector<unsigned char> data (len);
+      ret = ffdb_get_user_info (db->dbh_, data.data(), &len);
       if (ret == 0) 
-	user_data.assign((char *)data, len);
-
-      // free memory
-      delete []data;
+	user_data.assign((char *)data.data(), len);
 
       return ret;
     }
diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index ed785c2..72b5759 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -435,16 +435,12 @@ namespace FILEDB
 
       int ret;
       unsigned int len;
-      unsigned char* data;
 
       len = ffdb_max_user_info_len (db->dbh_);
-      data = new unsigned char[len];
-      ret = ffdb_get_user_info (db->dbh_, data, &len);
+      std::vector<unsigned char> data (len);
+      ret = ffdb_get_user_info (db->dbh_, data.data(), &len);
       if (ret == 0) 
-	user_data.assign((char *)data, len);
-
-      // free memory
-      delete []data;
+	user_data.assign((char *)data.data(), len);
 
       return ret;
     }
-- 
2.43.0


From 9d706f013245a20836af223255fb130f9555404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 60/65] fix: a merge with little memory takes one element at a
 time

---
 src/ConfDataDBMerger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..0d11454 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -253,8 +253,13 @@ namespace FILEDB
       // calculate size for one key and its data for all configuration
       unsigned int asize = (key.length() + data.length()) * numconfs;
 
-      // number of elements each iteration to use
-      chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
+      // number of elements each iteration to use, at least one
+      if (asize == 0 || max_memory/asize > numelems)
+	chunk = numelems;
+      else
+	chunk = max_memory/asize;
+      if (chunk == 0)
+	chunk = 1;
 
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
-- 
2.43.0


From 44c19aff580c3e95dba2dcf965cc62320ac1654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 61/65] fix: a merge that cannot write its result fails

---
 src/ConfDataDBMerger.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 0d11454..4a5e576 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -220,7 +220,10 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << "Cannot insert merged data" << std::endl;
+	  ::exit (143);
+	}
       }
     }
 
@@ -283,7 +286,10 @@ namespace FILEDB
 	  cinfo = *ite;
 	  cinfo.insert(1);
 	  cinfo.modifiedTime ((int)current_time());
-	  dbh_->setConfigInfo (cinfo);
+	  if (dbh_->setConfigInfo (cinfo) != 0) {
+	    std::cerr << "Cannot store information of configuration " << cinfo.configNumber() << std::endl;
+	    ::exit (143);
+	  }
 	}
       }
     }
-- 
2.43.0


From 0f4b63109dca77c0833a2f79111b01dc839df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 62/65] fix: a configuration without database does not get the
 one of its predecessor

---
 src/ConfDataDBMerger.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 4a5e576..ef3b484 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -335,6 +335,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From 4a5dd644e1235c8f8ada9adf83aad899ffa39f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 63/65] fix: a merge that throws closes the databases it opened

---
 src/ConfDataDBMerger.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index ef3b484..befdce2 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -158,8 +158,7 @@ namespace FILEDB
 
       // check whether this config info has valid urlname
       if (info.urlname().length() > 0) {
-	ConfDataStoreDB< K, D >* sdb = 0;
-	sdb = new ConfDataStoreDB< K, D > ();
+	std::unique_ptr< ConfDataStoreDB< K, D > > sdb (new ConfDataStoreDB< K, D > ());
 	sdb->setCacheSize (dbasecachesize);
 	if (sdb->open  (info.urlname(), O_RDONLY, 0400) != 0) {
 	  std::cerr << __FILE__ << " cannot open individual database " << info.urlname() << std::endl;
@@ -197,9 +196,6 @@ namespace FILEDB
 #endif
 	  bag.find (keys[i])->second[info.index()] = tdata;
 	}
-
-	// free memory
-	delete sdb;
       }
       else
 	std::cerr << "Skip this configuration " << info << std::endl;
@@ -387,8 +383,7 @@ namespace FILEDB
       }
 
       // open the first valid configuration
-      ConfDataStoreDB< K, D >* fsconfdb = 0;
-      fsconfdb = new ConfDataStoreDB< K, D > ();
+      std::unique_ptr< ConfDataStoreDB< K, D > > fsconfdb (new ConfDataStoreDB< K, D > ());
       if (fsconfdb->open (configs_[i].urlname(), O_RDONLY, 0400) != 0) {
 	std::cerr << __FILE__ << " cannot open individual database " << configs_[i].urlname() << std::endl;
 	::exit (1);
@@ -460,9 +455,6 @@ namespace FILEDB
       
       // Update Cinfiguration Information
       updateConfigInfo ();
-
-      // free memory
-      delete fsconfdb;
     }
 
   };
-- 
2.43.0


From f5319a251c4a579857461ec3f9a18b2622d3baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 64/65] fix: the padding of a vector of floats is written as
 zero

---
 src/VFloatData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..fafce92 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -125,7 +125,7 @@ namespace FILEDB
   {
     float* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
-- 
2.43.0


From 38459f7ec05134de48e8b2cf7874d751cedf93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:52 +0000
Subject: [PATCH 65/65] fix: reading a vector of floats does not go past a
 short buffer

---
 src/VFloatData.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index fafce92..e56ea73 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -173,6 +173,9 @@ namespace FILEDB
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
-- 
2.43.0

