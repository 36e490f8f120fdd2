From 893e57f1c08a238737bf2ba372dbc9741a4d69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:34 +0000
Subject: [PATCH 01/51] fix: do not read past the caller's buffer when the last
 data page chunk is nearly full

---
 filehash/ffdb_page.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..c61a1f0 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -724,6 +724,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -858,8 +860,11 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       /* check whether data will fit this page */
       if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
 	copylen = rlen;
-      else 
+      else {
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
+      }
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From 6bf04f23fdc0f0b4eec784ad4889f84e38fc4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:36 +0000
Subject: [PATCH 02/51] fix: split bucket 0 when a table created with one
 bucket first grows

---
 filehash/ffdb_hash.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..08337b1 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1079,15 +1079,16 @@ _ffdb_expand_table (ffdb_htab_t* hashp)
   /* The number of buckets is increased by one, obviously */
   new_bucket = ++hashp->hdr.max_bucket;
   
-  /* which bucket to split */
-  old_bucket = (hashp->hdr.max_bucket & hashp->hdr.low_mask);
-
   /* If new bucket is greater than high mask, we do doubling again */
   if (new_bucket > hashp->hdr.high_mask) {
     hashp->hdr.low_mask = hashp->hdr.high_mask;
     hashp->hdr.high_mask = new_bucket | hashp->hdr.low_mask;
   }
 
+  /* which bucket to split. This has to be done after low_mask is updated,
+   * low_mask is not meaningful yet for a table created with one bucket */
+  old_bucket = (new_bucket & hashp->hdr.low_mask);
+
   /*
    * If the split point is increasing (hdr.max_bucket's log base 2
    * increases), we need to copy the current contents of the spare
-- 
2.43.0


From 0195329b0c8f58f2f940ee6413b896b072b247e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 03/51] fix: refuse keys that cannot fit on an empty bucket
 page instead of losing them

---
 filehash/ffdb_page.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..8a82940 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -352,7 +352,8 @@ typedef struct _ffdb_data_header_
  * we are not dealing with the case that a single key cannot be fit
  * into a page
  */
-#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
+/* a key has to satisfy PAIRFITS on an empty page: see PAIRSIZE */
+#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t) - (sizeof(int) - 1))
 
 #define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
-- 
2.43.0


From 0840fabcefd30d58903b11228bd279d900f90265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 04/51] fix: release the bucket page when a no-overwrite put
 finds the key

---
 filehash/ffdb_hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 08337b1..dff37bf 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1319,6 +1319,8 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      /* the bucket page is not needed any more */
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From ded5644ff0359410a6101c2fb62b509a883b8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 05/51] fix: release pages when a get fails or the stored value
 is empty

---
 filehash/ffdb_page.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c61a1f0..a8b2bdd 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,8 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  if (rlen == 0) /* nothing to copy: release this page */
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1555,6 +1559,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2740,6 +2746,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From b2023fac0d7ad54540964801d3e039a4d948301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 06/51] fix: keep a page pinned until its last reference is put
 back

---
 filehash/ffdb_pagepool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..456c565 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,13 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /* This thread still holds the page through another reference */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From 3eebbce339a449b89c2f6cdd3a205312862e0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:51 +0000
Subject: [PATCH 07/51] fix: cursor on an empty database, and moved again after
 its end

---
 filehash/ffdb_page.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index a8b2bdd..3a86476 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2792,6 +2792,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   unsigned char* ekdata;
   unsigned int   eksize;
 
+  /* A cursor which is not on an item (past the end) cannot be moved */
+  if ((flags == FFDB_NEXT || flags == FFDB_PREV) && !cursor->item.pagep) 
+    return (cursor->item.status == ITEM_ERROR) ? -1 : FFDB_NOT_FOUND;
+
   if (flags == FFDB_FIRST) {
     if (cursor->item.pagep) {
       /* need to release the previous page */
@@ -2808,11 +2812,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket >= hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2824,13 +2832,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2855,6 +2856,11 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2865,13 +2871,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
@@ -2971,6 +2970,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From 801b051eafc76ff95e9736ca031fce940e55df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 08/51] fix: do not check the output argument of
 ffdb_get_config on input

---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index dff37bf..d32987b 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1528,13 +1528,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From d5613ae000767c504505e209003ec18e85e7273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 09/51] fix: do not rearrange pages on close when the last
 level has none

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3a86476..f362695 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2388,6 +2388,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* There may be no data or overflow page on the last level yet */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From 16d6b74d315f9a1cd0c2cc9c26a115860f012924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 10/51] fix: write freed overflow pages back to disk as deleted
 pages

---
 filehash/ffdb_page.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f362695..5262645 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1337,9 +1337,10 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
   if (addrtype == HASH_OVFL_PAGE) {
     _ffdb_free_ovflpage (hashp, pagep, isdoubling, &deleteit);
     if (deleteit) {
-      /* if this page need to be deleted */
+      /* if this page need to be deleted: it has to be written back so that
+       * its old content is not taken for an overflow page in use */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      return ffdb_put_page (hashp, pagep, HASH_DELETED_PAGE, 1);
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-- 
2.43.0


From 2e2789a461ce42e894b79514bee8837a34258ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:14 +0000
Subject: [PATCH 11/51] fix: refuse to change user or configuration information
 on a read-only handle

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index d32987b..870d6c1 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1460,6 +1460,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* user and configuration information of a read only file cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1509,6 +1515,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* user and configuration information of a read only file cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1541,6 +1553,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* user and configuration information of a read only file cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From b5b2f2c8dd6bc05c477c657fb87a0c18b801fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:14 +0000
Subject: [PATCH 12/51] fix: signal a page waiter before unlocking, it is freed
 by the woken thread

---
 filehash/ffdb_pagepool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 456c565..e9a91a3 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1262,14 +1262,15 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
     sleeper->wakeup = 0xdeafbeaf;
   }
 
-  FFDB_UNLOCK(pgp->lock);
-
   /* bp->waiters will not be changed until other threads are waken up */
 #if 0
   fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
+  /* signal before the lock is given up: the woken thread frees the sleeper */
   if (sleeper)
     FFDB_COND_SIGNAL(sleeper->cv);
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From dc92cd427864746ccd00c861d103457b55390f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:49 +0000
Subject: [PATCH 13/51] fix: lock the queue of open cursors, threads open and
 close cursors concurrently

---
 filehash/ffdb_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 870d6c1..6bc1e03 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1432,7 +1432,9 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  FFDB_LOCK (inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK (inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1639,7 +1641,9 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
+  FFDB_LOCK (hashp->lock);
   FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK (hashp->lock);
 
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
-- 
2.43.0


From b4a9aacb789be91c5fb37dc4a9d09174401eed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:27 +0000
Subject: [PATCH 14/51] fix: report a failed or incomplete page read instead of
 using the page

---
 filehash/ffdb_pagepool.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index e9a91a3..b64c83a 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -723,7 +723,8 @@ static int
 _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
 			      unsigned int flags, void** mem)
 {
-  int status, nbytes;
+  int status, nbytes = 0;
+  unsigned int nread;
   off_t off;
   struct _ffdb_hqh *head;
   ffdb_bkt_t* bp = 0;
@@ -764,14 +765,22 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    --pgp->curcache;
+    free (bp);
+    return EIO;
   }
-  nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  /* a read may return less than asked for */
+  nread = 0;
+  while (nread < pgp->pagesize &&
+	 (nbytes = read (pgp->fd, bp->page + nread, pgp->pagesize - nread)) > 0)
+    nread += nbytes;
+  if (nread != pgp->pagesize && (nread > 0 || nbytes < 0)) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    --pgp->curcache;
+    free (bp);
+    return EIO;
   }
-  else if (nbytes == 0) 
+  else if (nread == 0) 
     memset (bp->page, 0, pgp->pagesize);
 
 #ifdef _FFDB_STATISTICS
-- 
2.43.0


From b5d073045b096a262563d79b3d355e7464d3b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:27 +0000
Subject: [PATCH 15/51] fix: report pages that could not be written from sync
 and close

---
 filehash/ffdb_hash.c     | 17 +++++++++++------
 filehash/ffdb_pagepool.c | 27 +++++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 6bc1e03..1713e51 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -300,21 +300,23 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
-  ffdb_pagepool_close (hashp->mp);
+  if (ffdb_pagepool_close (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
 
   /* Reduce file size if possible */
   if (hashp->rearrange_pages)
     ffdb_reduce_filesize (hashp);
 
-  if (hashp->fp != -1)
-    close (hashp->fp);
+  if (hashp->fp != -1 && close (hashp->fp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
 
   if (hashp->fname)
     free (hashp->fname);
@@ -1394,7 +1396,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b64c83a..6edbdbf 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -264,6 +264,7 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
 {
   off_t offset;
   int nbytes;
+  unsigned int nwritten;
   int ret = 0;
 
 #ifdef _FFDB_STATISTICS
@@ -279,19 +280,27 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    /* a write may take less than asked for */
+    nwritten = 0;
+    while (nwritten < pgp->pagesize &&
+	   (nbytes = write(pgp->fd, bp->page + nwritten, 
+			   pgp->pagesize - nwritten)) > 0)
+      nwritten += nbytes;
+    if (nwritten != pgp->pagesize) 
       ret = -1;
   }
 
-  if (ret == 0)
-    FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
+  if (ret != 0)
+    return ret;
+
+  FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
 
   /* Update how many pages this file holds now */
   if (bp->pgno >= pgp->npages) {
     pgp->npages = bp->pgno + 1;
   }
 
-  return ret;
+  return 0;
 }
 
 
@@ -1408,6 +1417,7 @@ static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
   unsigned int num;
+  int ret = 0;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
@@ -1456,7 +1466,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1468,7 +1478,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
@@ -1507,9 +1517,10 @@ int
 ffdb_pagepool_close (ffdb_pagepool_t* pgp)
 {
   ffdb_bkt_t* bp;
+  int ret;
 
   /* First Sync Everything to disk */
-  ffdb_pagepool_sync (pgp);
+  ret = ffdb_pagepool_sync (pgp);
 
   FFDB_LOCK(pgp->lock);
   
@@ -1532,7 +1543,7 @@ ffdb_pagepool_close (ffdb_pagepool_t* pgp)
   FFDB_LOCK_FINI(pgp->lock);
 
   free (pgp);
-  return 0;
+  return ret;
 }
 
 /**
-- 
2.43.0


From aeb5415b7d8c33c8e878b3bace0972e88c162084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:27 +0000
Subject: [PATCH 16/51] fix: sync waits until the data is on disk

---
 filehash/ffdb_hash.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 1713e51..66a77a1 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1401,6 +1401,12 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
+  /* the pages have to be on the disk, not only in the system's cache */
+  if (hashp->save_file && fsync (hashp->fp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
+
   FFDB_UNLOCK(hashp->lock);
   return 0;
 }
-- 
2.43.0


From bbb02bc5bab6da6b86e41a0c6ed663d16078138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:12 +0000
Subject: [PATCH 17/51] fix: fail the open when an information page cannot be
 read

---
 filehash/ffdb_hash.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 66a77a1..cf75822 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -478,6 +478,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -510,6 +512,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -880,8 +884,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 || 
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read information pages of %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
-- 
2.43.0


From 3fb83c062c2d47122638613b2cf7ef7f19da3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:12 +0000
Subject: [PATCH 18/51] fix: stop at the header pages when looking for the last
 data page

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5262645..85913d6 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1101,7 +1101,7 @@ ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start)
   /* We start from the first page above reguler hash pages */
   ret = INVALID_PGNO;
   page = start;
-  while (!done) {
+  while (!done && page >= hashp->hdr.hdrpages) {
     pagep = ffdb_get_page (hashp, page, HASH_RAW_PAGE, 0, &tp);
     if (!pagep) {
       fprintf (stderr, "Cannot get page %d while looking for the last data page.\n",
-- 
2.43.0


From 55986b1c539b6eb520636432aacfcb0434e72d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:39 +0000
Subject: [PATCH 19/51] fix: report pages that could not be moved from open and
 close

An error while data or overflow pages are moved at the end of a level was
only printed: open and close went on with half of the pages moved.
---
 filehash/ffdb_hash.c | 18 +++++++++++++++---
 filehash/ffdb_page.c | 27 +++++++++++++++++++--------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index cf75822..e36c3f3 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -266,7 +266,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   int save_errno = 0;
 
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = errno ? errno : EIO;
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -957,8 +958,19 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   /* Check whether I need to move data pages back to original places if
    * new insert is expected or some pages was moved previously
    */
-  if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+  if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) {
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      fprintf (stderr, "Cannot move pages of %s back\n", fname);
+      ffdb_pagepool_close (hashp->mp);
+      close (hashp->fp);
+      free (hashp->fname);
+      free (hashp->split_buf);
+      free (hashp);
+      free (dbp);
+      errno = EIO;
+      return 0;
+    }
+  }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 85913d6..f1fb118 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2231,6 +2231,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param oldlast the last page of old page to be moved
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
+ * @param failed set to 1 when not every page could be moved
  *
  * @return last page number on the linked list after successful move. 
  * If there is no data pages being moved, INVALID_PGNO is returned
@@ -2238,7 +2239,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
 static pgno_t
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, int* failed)
 {
   pgno_t dlast, page, rpage, tp;
   pgno_t prevp, nextp;
@@ -2257,6 +2258,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
+      *failed = 1;
       return dlast;
     }
 
@@ -2280,6 +2282,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2309,6 +2312,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2337,6 +2341,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2353,6 +2358,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2383,6 +2389,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   pgno_t dlast, dfirst;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Find out how many pages are not used by reguler hash pages */
   num_unused = hashp->hdr.high_mask - hashp->hdr.max_bucket;
@@ -2429,18 +2436,18 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 
   /* move data pages first */
   _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
-  return 0;
+  return failed ? -1 : 0;
 }
 
 
@@ -2454,6 +2461,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
   pgno_t oldfirst, oldlast, newfirst, newlast;
   pgno_t lastdpage;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Check whether any pages has been moved when the database is closed */
   if (hashp->hdr.num_moved_pages == 0)
@@ -2485,14 +2493,17 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
   /* Move data pages first */
   lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+				newfirst, newlast, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
   
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
+
+  if (failed)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
-- 
2.43.0


From 5019c8f98f8f82acbb5b68469edca75db6a8cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 20/51] fix: refuse a page that does not hold keys when a key
 is looked up

After a close or sync that reported an error the file may not be consistent:
data pages were then read as if they were full of keys.
---
 filehash/ffdb_page.c | 54 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f1fb118..eac5e56 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1407,6 +1407,36 @@ int ffdb_release_item (ffdb_htab_t* hashp,
 }
 
 
+/**
+ * Get a page which holds keys: a bucket page or one of its overflow pages.
+ *
+ * A page of another type (the file is not consistent) is refused, since its
+ * content cannot be treated as keys. A bucket may be unused, but an overflow
+ * page always holds a key.
+ */
+static void *
+_ffdb_get_key_page (ffdb_htab_t* hashp, pgno_t addr,
+		    unsigned int addrtype, unsigned flags, pgno_t* page)
+{
+  void* mem = ffdb_get_page (hashp, addr, addrtype, flags, page);
+  int refused = 0;
+
+  if (mem && TYPE(mem) != HASH_BUCKET_PAGE && TYPE(mem) != HASH_DELETED_PAGE) 
+    refused = 1;
+  if (mem && addrtype != HASH_BUCKET_PAGE && NUM_ENT(mem) == 0)
+    refused = 1;
+
+  if (refused) {
+    fprintf (stderr, "Page %d does not hold keys: page type 0x%x\n", 
+	     *page, TYPE(mem));
+    ffdb_put_page (hashp, mem, TYPE(mem), 0);
+    errno = EINVAL;
+    return 0;
+  }
+  return mem;
+}
+
+
 /**
  * Routines to find a page for key and data pair
  */
@@ -1421,7 +1451,7 @@ int ffdb_find_item (ffdb_htab_t* hashp,
   unsigned char *ekdata = 0;
 
   /* first get page for this bucket */
-  item->pagep = ffdb_get_page (hashp, item->bucket, HASH_BUCKET_PAGE,
+  item->pagep = _ffdb_get_key_page (hashp, item->bucket, HASH_BUCKET_PAGE,
 			       FFDB_PAGE_CREATE, &item->pgno);
   if (item->pagep == 0) {
     fprintf (stderr, "Cannot get page for bucket %d\n", item->bucket);
@@ -1486,7 +1516,7 @@ int ffdb_find_item (ffdb_htab_t* hashp,
 	ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 0);
 
 	/* get the next page */
-	item->pagep = ffdb_get_page (hashp, nextp, HASH_OVFL_PAGE,
+	item->pagep = _ffdb_get_key_page (hashp, nextp, HASH_OVFL_PAGE,
 				     0, &item->pgno);
 	if (item->pagep == 0) {
 	  fprintf (stderr, "Cannot get next page for bucket %d at page %d\n", 
@@ -2820,7 +2850,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     }
       
     bucket = 0;
-    cursor->item.pagep = ffdb_get_page (hashp, bucket,
+    cursor->item.pagep = _ffdb_get_key_page (hashp, bucket,
 					HASH_BUCKET_PAGE, 0, &tp);
     if (!(cursor->item.pagep)) {
       fprintf (stderr, "Cannot get page for the first bucket\n");
@@ -2839,7 +2869,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       }
       bucket++;
 
-      cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
+      cursor->item.pagep = _ffdb_get_key_page (hashp, bucket, HASH_BUCKET_PAGE, 
 					  0, &tp);
       if (!(cursor->item.pagep)) {
 	fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
@@ -2860,7 +2890,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     }
     bucket = hashp->hdr.max_bucket;
     
-    cursor->item.pagep = ffdb_get_page (hashp, bucket,
+    cursor->item.pagep = _ffdb_get_key_page (hashp, bucket,
 					HASH_BUCKET_PAGE, 0, &tp);
     if (!(cursor->item.pagep)) {
       fprintf (stderr, "Cannot get page for the last bucket\n");
@@ -2879,7 +2909,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       }
       bucket--;
 
-      cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
+      cursor->item.pagep = _ffdb_get_key_page (hashp, bucket, HASH_BUCKET_PAGE, 
 					  0, &tp);
       if (!(cursor->item.pagep)) {
 	fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
@@ -2912,7 +2942,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	/* Increase bucket by one: next bucket */
 	cursor->item.bucket++;
 	/* Get new page */
-	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
+	cursor->item.pagep = _ffdb_get_key_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
 	if (!(cursor->item.pagep)) {
@@ -2936,7 +2966,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  cursor->item.pagep = 0;
 	  cursor->item.bucket++;
 
-	  cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket, 
+	  cursor->item.pagep = _ffdb_get_key_page (hashp, cursor->item.bucket, 
 					      HASH_BUCKET_PAGE, 0, &tp);
 	  if (!(cursor->item.pagep)) {
 	    fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
@@ -2948,7 +2978,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       }
       else {
 	/* Get new page */
-	cursor->item.pagep = ffdb_get_page (hashp, nextp,
+	cursor->item.pagep = _ffdb_get_key_page (hashp, nextp,
 					    HASH_RAW_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for next cursor bucket %d\n",
@@ -2983,7 +3013,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	/* decrease bucket by one */
 	cursor->item.bucket--;
 	/* Get new page */
-	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
+	cursor->item.pagep = _ffdb_get_key_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
 	if (!(cursor->item.pagep)) {
@@ -3008,7 +3038,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  cursor->item.pagep = 0;
 	  cursor->item.bucket--;
 
-	  cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket, 
+	  cursor->item.pagep = _ffdb_get_key_page (hashp, cursor->item.bucket, 
 					      HASH_BUCKET_PAGE, 0, &tp);
 	  if (!(cursor->item.pagep)) {
 	    fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
@@ -3021,7 +3051,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       }
       else {
 	/* Get next page */
-	cursor->item.pagep = ffdb_get_page (hashp, nextp,
+	cursor->item.pagep = _ffdb_get_key_page (hashp, nextp,
 					    HASH_RAW_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for prev cursor bucket %d\n",
-- 
2.43.0


From 1b0062c034d2dd1f145663bef167536fd1227da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:57 +0000
Subject: [PATCH 21/51] fix: report a put that could not add its key, data or
 split the bucket

A failing overflow page, data page or bucket split returned success, and
pages stayed locked for ever.
---
 filehash/ffdb_page.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index eac5e56..22a85b1 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -701,6 +701,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
       currpagep = ffdb_get_page (hashp, currp, HASH_DATA_PAGE,FFDB_CREATE, &tp);
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate data page at %d\n", currp);
+	ffdb_put_page (hashp, cpagep, HASH_DATA_PAGE, 0);
 	return -1;
       }
       if (reuse)
@@ -858,6 +859,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate page %d to overwrite data\n",
 		 currp);
+	ffdb_put_page (hashp, mem, TYPE(mem), 1);
 	return -1;
       }
 
@@ -1855,6 +1857,8 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
 				   key, val, item->data_chksum);
 
   if (status != 0) {
+    /* This page is not used */
+    NEXT_PGNO(item->pagep) = INVALID_PGNO;
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 0);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 0);
   }
@@ -1862,7 +1866,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -1932,7 +1936,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
 {
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
-  int needovfl, reuse;
+  int needovfl, reuse, status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1948,7 +1952,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -2013,12 +2017,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2037,6 +2041,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status = 0;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2067,9 +2072,9 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
     }
     
     /* get next page number */
@@ -2081,12 +2086,18 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d of bucket %d to split\n",
+		 nextpage, oldbucket);
+	status = -1;
+      }
+    }
     else
       break;
   }
-  return 0;
+  return status ? -1 : 0;
 }
 
 
-- 
2.43.0


From 2c2a760d1547c29ce7dda7b7abed87762611f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:16 +0000
Subject: [PATCH 22/51] fix: do not take a damaged page for one that was never
 written

A page whose sign was damaged was treated as an empty page and its keys
silently disappeared; only a blank page was never written.
---
 filehash/ffdb_page.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 22a85b1..4b55630 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -247,6 +247,18 @@ _ffdb_init_page (ffdb_htab_t* hashp, void* p, pgno_t page,
   return 0;
 }    
 
+/**
+ * Check whether a page has never been written: a hole inside the file
+ */
+static int
+_ffdb_page_is_blank (ffdb_htab_t* hashp, const void* page)
+{
+  const unsigned char* p = (const unsigned char *)page;
+  size_t size = (size_t)hashp->hdr.bsize;
+
+  return p[0] == 0 && memcmp (p, p + 1, size - 1) == 0;
+}
+
 /**
  * This is the routine called right after a page is read
  */
@@ -280,6 +292,11 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 #endif  
   
   if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
+    if (!_ffdb_page_is_blank (hashp, page)) {
+      fprintf (stderr, "Reading page %d: this is not a page of a database\n",
+	       pgno);
+      exit (123);
+    }
     /* This is a unintialized page */
     _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
   }
-- 
2.43.0


From dfcb8e287d40e4df8901f6519e70b10e1353c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 23/51] fix: a failed seek made the header be written over
 another page

---
 filehash/ffdb_hash.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index e36c3f3..46b3aea 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,7 +228,10 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "hash: could not seek to hash header");
+    return -1;
+  }
   num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
@@ -421,7 +424,10 @@ _ffdb_hget_header(ffdb_htab_t *hashp, unsigned int page_size)
    * XXX
    * This should not be printing to stderr on a "normal" error case.
    */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "Fatal error : hash could not seek to header");
+    return 0;
+  }
   num_copied = read(hashp->fp, hdr_dest, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "Fatal error : hash could not retrieve header");
-- 
2.43.0


From c1c2869a7d9b3724c863f79cf152bdcc7549fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 24/51] fix: a read error while opening a database aborted the
 process

---
 filehash/ffdb_hash.c | 26 +++++++++++++++-----------
 filehash/ffdb_hash.h |  2 +-
 filehash/ffdb_page.c | 12 ++++++++----
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 46b3aea..fdcf997 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -649,7 +649,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   ffdb_htab_t *hashp;
   unsigned int csize;
   unsigned long tcsize;
-  int ret, new_table, version_correct;
+  int ret, new_table, version_correct, failed = 0;
   FFDB_HASHINFO *info = (FFDB_HASHINFO *)arg;
 
   /**
@@ -967,22 +967,15 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) {
     if (ffdb_rearrage_pages_on_open (hashp) != 0) {
       fprintf (stderr, "Cannot move pages of %s back\n", fname);
-      ffdb_pagepool_close (hashp->mp);
-      close (hashp->fp);
-      free (hashp->fname);
-      free (hashp->split_buf);
-      free (hashp);
-      free (dbp);
-      errno = EIO;
-      return 0;
+      failed = 1;
     }
   }
 
 
   /* Find out current data page which is the last data page we are using */
   /* Otherwise the datapage assigned to new insert will start at wrong place */
-  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] > 0) {
-    hashp->curr_dpage = ffdb_last_data_page (hashp, hashp->hdr.spares[hashp->hdr.ovfl_point + 1] - 1);
+  if (!failed && hashp->hdr.spares[hashp->hdr.ovfl_point + 1] > 0) {
+    hashp->curr_dpage = ffdb_last_data_page (hashp, hashp->hdr.spares[hashp->hdr.ovfl_point + 1] - 1, &failed);
 
 #if 0
     fprintf (stderr, "Info: datapage will start at %d for level %d\n",
@@ -990,6 +983,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 #endif
   }
 
+  if (failed) {
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    free (dbp);
+    errno = EIO;
+    return 0;
+  }
+
 
 #if 0
   /**
diff --git a/filehash/ffdb_hash.h b/filehash/ffdb_hash.h
index 73d1603..29eb0d3 100644
--- a/filehash/ffdb_hash.h
+++ b/filehash/ffdb_hash.h
@@ -443,7 +443,7 @@ extern void ffdb_reduce_filesize (ffdb_htab_t* hashp);
  *
  * @return last data page number
  */
-extern pgno_t ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start);
+extern pgno_t ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start, int* failed);
 
 
 /**
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 4b55630..664a5c1 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1111,7 +1111,7 @@ _ffdb_ovfl_page (ffdb_htab_t* hashp, int* reuse)
  * at any level
  */
 pgno_t
-ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start)
+ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start, int* failed)
 {
   pgno_t page, ret, tp;
   void* pagep;
@@ -1125,7 +1125,8 @@ ffdb_last_data_page (ffdb_htab_t* hashp, pgno_t start)
     if (!pagep) {
       fprintf (stderr, "Cannot get page %d while looking for the last data page.\n",
 	       page);
-      abort ();
+      *failed = 1;
+      return INVALID_PGNO;
     }
     if (TYPE(pagep) == HASH_DATA_PAGE && NEXT_PGNO(pagep) == INVALID_PGNO) {
       done = 1;
@@ -2564,8 +2565,11 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
     return -1;
 
   /* If there are no data pages moved, unlikely but possible */
-  if (lastdpage == INVALID_PGNO) 
-    hashp->curr_dpage = ffdb_last_data_page (hashp, newfirst - 1);
+  if (lastdpage == INVALID_PGNO) {
+    hashp->curr_dpage = ffdb_last_data_page (hashp, newfirst - 1, &failed);
+    if (failed)
+      return -1;
+  }
 
   /* Reset the number of moved pages */
   hashp->hdr.num_moved_pages = 0;
-- 
2.43.0


From eb62740aa4f92a06d897d44d9cfc85b88c1c23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 25/51] fix: an ensemble of elements of different sizes was
 stored and read back split at the wrong places

---
 src/AllConfStoreDB.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..d77810e 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -420,6 +420,11 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	// elements are told apart by their common size
+	if (elem.size() != (std::size_t)bytesize_) {
+	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -474,6 +479,11 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	// elements are told apart by their common size
+	if (elem.size() != (std::size_t)bytesize_) {
+	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -510,8 +520,14 @@ namespace FILEDB
 
       // combine the vector of string into one big string
       std::string dstr;
-      for (unsigned int i = 0; i < v.size(); i++) 
+      for (unsigned int i = 0; i < v.size(); i++) {
+	// elements are told apart by their common size
+	if (v[i].size() != (std::size_t)bytesize_) {
+	  std::cerr << "Inserted element has size " << v[i].size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	  return -1;
+	}
 	dstr.append (v[i]);
+      }
 
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
-- 
2.43.0


From e07359a0d884f09c8ee51d663ee6eda2cb415ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 26/51] fix: AllConfStoreDB::setConfigInfo stored an
 uninitialised type and unterminated names

---
 src/AllConfStoreDB.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index d77810e..c427b4a 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -170,9 +170,11 @@ namespace FILEDB
       for (std::size_t i = 0; i < names.size(); i++) {
 	if (names[i] == "N/A")
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
-	else
+	else {
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
-		   _FFDB_MAX_FNAME);
+		   _FFDB_MAX_FNAME - 1);
+	  allcfgs_->allconfigs[i].fname[_FFDB_MAX_FNAME - 1] = '\0';
+	}
       }
     }
       
@@ -745,8 +747,10 @@ namespace FILEDB
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
-      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME - 1);
+      info.fname[_FFDB_MAX_FNAME - 1] = '\0';
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
-- 
2.43.0


From 1ae80d7eb594d671862d122c3884c46841c98265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 27/51] fix: AllConfStoreDB::open ignored failures to store or
 read the configurations, and kept the element size of the previous database

---
 src/AllConfStoreDB.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index c427b4a..fe21380 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -193,6 +193,9 @@ namespace FILEDB
       if (this->ConfDataStoreDB<K, D>::open(file, open_flags, mode) != 0)
         return -1;
       
+      // the size of the elements is a property of the opened database
+      bytesize_ = 0;
+
       // check whether this database is empty
       empty_ = this->isEmpty ();
 
@@ -203,11 +206,23 @@ namespace FILEDB
 	}
 
 	// update configuration information
-	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
+	if ((open_flags & O_ACCMODE) != O_RDONLY &&
+	    ffdb_set_all_configs (this->db->dbh_, &*allcfgs_) != 0) {
+	  std::cerr << "Cannot store configuration information." << std::endl;
+	  return -1;
+	}
       }
       else {
 	// update configuration information
-	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
+	ffdb_all_config_info_t stored;
+	if (ffdb_get_all_configs (this->db->dbh_, &stored) != 0) {
+	  std::cerr << "Cannot read configuration information." << std::endl;
+	  free (stored.allconfigs);
+	  return -1;
+	}
+	if (allcfgs_->numconfigs > 0)
+	  free (allcfgs_->allconfigs);
+	*allcfgs_ = stored;
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
 	  std::cerr << "number of configurations = 0 on an existing database." << std::endl;
@@ -805,6 +820,7 @@ namespace FILEDB
 	  configs.push_back (cf);
 	}
       }
+      free (allcfigs.allconfigs);
       return stat;
     }
 
-- 
2.43.0


From 03e6d6e65f8aba7572688433d0f7fa3bcf057992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 28/51] fix: AllConfStoreDB::update with an index out of range
 wrote outside of the record

---
 src/AllConfStoreDB.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index fe21380..1ed374c 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -568,6 +568,11 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is out of range, number of configurations " << nbin_ << std::endl;
+	return -1;
+      }
+
       if (empty_) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
-- 
2.43.0


From 5693d6b62ca9c93ba267f7856c6fd427865a8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 29/51] fix: the merger ignored failing inserts and lost the
 data of the key

---
 src/ConfDataDBMerger.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..e1fd6f3 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -220,7 +220,10 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << "Fatal: cannot insert merged data into the database" << std::endl;
+	  ::exit (143);
+	}
       }
     }
 
@@ -278,7 +281,11 @@ namespace FILEDB
 	  cinfo = *ite;
 	  cinfo.insert(1);
 	  cinfo.modifiedTime ((int)current_time());
-	  dbh_->setConfigInfo (cinfo);
+	  if (dbh_->setConfigInfo (cinfo) != 0) {
+	    std::cerr << "Fatal: cannot update information of configuration "
+		      << cinfo.configNumber() << std::endl;
+	    ::exit (143);
+	  }
 	}
       }
     }
-- 
2.43.0


From 4e3e767596a73a1961d83a7221810ac5bf296250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 30/51] fix: the merger gave a configuration without a database
 the data of the one before, and divided by zero when one element exceeds the
 memory limit

---
 src/ConfDataDBMerger.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index e1fd6f3..b6344a8 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -118,7 +118,8 @@ namespace FILEDB
 #endif
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	// configurations without a database are blank
+	thr.resize (numconfigs, std::string (data[i].size(), '\0'));
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
@@ -259,6 +260,10 @@ namespace FILEDB
       // number of elements each iteration to use
       chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
 
+      // there is at least one element, however little memory is allowed
+      if (chunk == 0)
+	chunk = 1;
+
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
       
@@ -331,6 +336,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From fc8c79699829718f76380d738902f1aa4c5f6e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 31/51] fix: a failing read of one of several databases was
 reported as not found or answered from another one

---
 src/AllConfStoreMultipleDB.h  |  7 ++++---
 src/ConfDataStoreMultipleDB.h | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..0b5dccb 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -101,9 +101,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
@@ -168,8 +168,9 @@ namespace FILEDB
       try {
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
+	  // a failing read does not tell that the key is not there
 	  ret = dbs_[i].get(key, vs);
-	  if (ret == 0)
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..7b33bf0 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -115,9 +115,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
@@ -175,8 +175,9 @@ namespace FILEDB
       try {
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
+	  // a failing read does not tell that the key is not there
 	  ret = dbs_[i].get(key, data);
-	  if (ret == 0)
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
@@ -200,8 +201,9 @@ namespace FILEDB
       int ret = -1;
       for(int i=0; i < dbs_.size(); ++i)
       {
+	// a failing read does not tell that the key is not there
 	ret = dbs_[i].getBinary(key, data);
-	if (ret == 0)
+	if (ret != FFDB_NOT_FOUND)
 	  break;
       }
       return ret;
-- 
2.43.0


From 29eecf1d310804459a4de68f37c57f1c56e53226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 32/51] fix: ConfDataStoreDB::exist of a database that is not
 open dereferenced a null pointer

---
 src/ConfDataStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
-- 
2.43.0


From cc16cff41379471e3a04ed5a189331a1ebf0b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:02 +0000
Subject: [PATCH 33/51] fix: reading the configuration table before it was
 stored returned uninitialised memory

---
 filehash/ffdb_hash.c | 3 ++-
 filehash/ffdb_page.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index fdcf997..3f79f4f 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1535,7 +1535,8 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   hashp = (ffdb_htab_t *)db->internal;
 
   configs->numconfigs = hashp->hdr.num_cfigs;
-  configs->allconfigs = (ffdb_config_info_t *)malloc(configs->numconfigs * sizeof(ffdb_config_info_t));
+  /* entries that were never stored are blank */
+  configs->allconfigs = (ffdb_config_info_t *)calloc(configs->numconfigs, sizeof(ffdb_config_info_t));
   if (!configs->allconfigs) {
     fprintf (stderr, "Cannot allocate memory space for all configurations.\n");
     errno = ENOMEM;
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 664a5c1..15b5be4 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2667,7 +2667,7 @@ ffdb_get_configs (ffdb_htab_t* hashp, ffdb_all_config_info_t* configs)
       return -1;
     }
     
-    for (k = 0; k < NUM_ENT(pagep); k++) {
+    for (k = 0; k < NUM_ENT(pagep) && cnum < configs->numconfigs; k++) {
       cfig = CONFIG_INFO(pagep, k);
       memcpy (&(configs->allconfigs[cnum++]), cfig,
 	      sizeof(ffdb_config_info_t));
-- 
2.43.0


From 6e89a853aba442981a31c301ebef7d8999f04705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:43 +0000
Subject: [PATCH 34/51] fix: writing to a database of the other byte order
 byte-swapped the cached pages

---
 filehash/ffdb_pagepool.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6edbdbf..e00d043 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,15 +265,23 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   unsigned int nwritten;
+  char* outpage;
   int ret = 0;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
-  if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+  /* Run through the user's filter: it turns the page into what is stored
+   * in the file, the page in the cache has to stay as it is */
+  outpage = bp->page;
+  if (pgp->pgout) {
+    outpage = (char *)malloc (pgp->pagesize);
+    if (!outpage)
+      return -1;
+    memcpy (outpage, bp->page, pgp->pagesize);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, outpage);
+  }
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
@@ -283,13 +291,16 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
     /* a write may take less than asked for */
     nwritten = 0;
     while (nwritten < pgp->pagesize &&
-	   (nbytes = write(pgp->fd, bp->page + nwritten, 
+	   (nbytes = write(pgp->fd, outpage + nwritten, 
 			   pgp->pagesize - nwritten)) > 0)
       nwritten += nbytes;
     if (nwritten != pgp->pagesize) 
       ret = -1;
   }
 
+  if (outpage != bp->page)
+    free (outpage);
+
   if (ret != 0)
     return ret;
 
-- 
2.43.0


From fbc56c2e9b123eee186801e697220cba275df24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 35/51] fix: a failing open leaked the page pool

---
 filehash/ffdb_hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 3f79f4f..4b8f70f 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -836,6 +836,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if ((ret = ffdb_pagepool_open_fd(hashp->mp, hashp->fp, 
 				   hashp->hdr.bsize, csize)) != 0) {
     fprintf (stderr, "Cannot open pagepool for %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
     close (hashp->fp);
     free (hashp);
     errno = ret;
@@ -866,6 +867,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    */
   hashp->fname = (char *)malloc (strlen (fname) + 1);
   if (!hashp->fname) {
+    ffdb_pagepool_close (hashp->mp);
     close (hashp->fp);
     free (hashp);
     return 0;
-- 
2.43.0


From 59635b07e1fdf522d92b8d78151635b97f2a0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 36/51] fix: a cursor leaked the key when its data could not be
 read

---
 filehash/ffdb_page.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 15b5be4..bb06abd 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2869,6 +2869,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   pgno_t bucket, tp, nextp;
   unsigned char* ekdata;
   unsigned int   eksize;
+  int needfree = 0;
 
   /* A cursor which is not on an item (past the end) cannot be moved */
   if ((flags == FFDB_NEXT || flags == FFDB_PREV) && !cursor->item.pagep) 
@@ -3128,6 +3129,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     key->size = eksize;
+    needfree = 1;
   }
   memcpy (key->data, ekdata, eksize);
 
@@ -3138,7 +3140,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.key_len = eksize;
     cursor->item.data_off = DATAP_OFF(cursor->item.pagep, cursor->item.pgndx);
 
-    return ffdb_get_item (hashp, key, data, &cursor->item, 0);
+    if (ffdb_get_item (hashp, key, data, &cursor->item, 0) != 0) {
+      /* there is no pair to return: give back the key space */
+      if (needfree) {
+	free (key->data);
+	key->data = 0;
+	key->size = 0;
+      }
+      return -1;
+    }
   }
   return 0;
 }
-- 
2.43.0


From f1bd139b8c441e4ee439504f1332e29780aa1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 37/51] fix: typed reads leaked cursor and data when they threw

---
 src/DBFunc.cpp | 12 ++++++----
 src/DBFunc.h   | 59 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..7aba249 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -81,7 +81,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     int  ret;
     
     try {
@@ -111,7 +111,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -126,7 +128,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     int  ret;
     
     try {
@@ -163,7 +165,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..ed06b47 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -303,9 +303,9 @@ namespace FILEDB
 	// convert object into a string
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
-	data.readObject (dataObj);
 	// I have to use free since I use malloc in c code
 	free(dbdata.data);
+	data.readObject (dataObj);
       }
       catch (SerializeException& e) {
 	ret = -1;
@@ -372,7 +372,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey;
-    ffdb_cursor_t *crp;
+    ffdb_cursor_t *crp = NULL;
     K    arg;
     int  ret;
     
@@ -389,21 +389,24 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
-	arg.readObject (keyObj);
-
-	// put this new key into the vector
-	keys.push_back (arg);
 
 	// free memory
 	free (dbkey.data);
 
 	dbkey.data = 0;
 	dbkey.size = 0;
+
+	arg.readObject (keyObj);
+
+	// put this new key into the vector
+	keys.push_back (arg);
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     } 
     
@@ -423,7 +426,7 @@ namespace FILEDB
 		bool only_one = false) noexcept(false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     K    arg;
     D    d;
     int  ret;
@@ -441,11 +444,17 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
-	arg.readObject (keyObj);
 
 	// convert into data object
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
+	arg.readObject (keyObj);
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -454,11 +463,6 @@ namespace FILEDB
 	// put this data into the other vector
 	data.push_back (d);
 
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
-
 	if (only_one)
 	{
 	  ret = FFDB_NOT_FOUND;
@@ -468,7 +472,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -486,7 +492,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     D    d;
     int  ret;
     
@@ -505,6 +511,12 @@ namespace FILEDB
 	// convert into data object
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -512,16 +524,13 @@ namespace FILEDB
 	
 	// put this data into the other vector
 	data.push_back (d);
-
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -539,7 +548,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     K    arg;
     int  ret;
     
@@ -563,7 +572,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor first error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
-- 
2.43.0


From 284de8753e1557fd1e8ef5798631490bbd4f0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 38/51] fix: threads putting at the same time deadlocked or
 damaged the table

---
 filehash/ffdb_hash.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 4b8f70f..d9ea7ce 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1300,6 +1300,9 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
   /* Calculate the hash item size */
   item.seek_size = PAIRSIZE(key, data);
 
+  /* One put at a time: the table may change until this one is done */
+  FFDB_LOCK(hashp->lock);
+
   /* calculate hash value for this key */
   bucket = _ffdb_call_hash (hashp, key->data, (unsigned int)key->size);
   item.bucket = bucket;
@@ -1311,11 +1314,11 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
   /* Now I need find a page on which this key may reside */
   /* Find item is thread safe */
   status = ffdb_find_item (hashp, key, (FFDB_DBT *)data, &item);
-  if (status != 0)  /* Something is really wrong */
+  if (status != 0) { /* Something is really wrong */
+    FFDB_UNLOCK(hashp->lock);
     return status;
+  }
 
-
-  FFDB_LOCK(hashp->lock);
   if (item.status == ITEM_NO_MORE) {
     /* There is no item found, we need to insert this item */
     /* Find out whether there is space on this page to fit this pair */
-- 
2.43.0


From 00ad7ae15977b374993b021abb646caa4828be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 39/51] fix: a get beside a put of another thread missed keys
 or failed

---
 filehash/ffdb_hash.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index d9ea7ce..ee197c6 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1184,7 +1184,7 @@ _ffdb_hash_get (const FFDB_DB* dbp, const FFDB_DBT* key,
   ffdb_htab_t* hashp;
   ffdb_hent_t item;
   unsigned int bucket;
-  int status;
+  int status, writable;
 
 #ifdef _FFDB_DEBUG
   fprintf (stderr, "ffdb_hash_get key %s\n", (char *)key->data);
@@ -1203,6 +1203,11 @@ _ffdb_hash_get (const FFDB_DB* dbp, const FFDB_DBT* key,
   /* Calculate the hash item size */
   item.seek_size = PAIRSIZE(key, data);
 
+  /* The table of a writable database may be changed by another thread */
+  writable = (hashp->flags & O_ACCMODE) != O_RDONLY;
+  if (writable)
+    FFDB_LOCK (hashp->lock);
+
   /* calculate hash value for this key */
   bucket = _ffdb_call_hash (hashp, key->data, key->size);
   item.bucket = bucket;
@@ -1214,17 +1219,23 @@ _ffdb_hash_get (const FFDB_DB* dbp, const FFDB_DBT* key,
   /* Now I need find a page on which this key may reside */
   status = ffdb_find_item (hashp, (FFDB_DBT *)key, 0, &item);
   if (status != 0){ /* Something is really wrong */
+    if (writable)
+      FFDB_UNLOCK (hashp->lock);
     return -1;
   }
 
   if (item.status == ITEM_NO_MORE) {
     ffdb_release_item (hashp, &item);
+    if (writable)
+      FFDB_UNLOCK (hashp->lock);
     return FFDB_NOT_FOUND;
   }
 
   /* Now the item is found, item contains page information */
   /* page os released after the call */
   status = ffdb_get_item (hashp, key, data, &item, 1);
+  if (writable)
+    FFDB_UNLOCK (hashp->lock);
 
   return status;
 }
@@ -1693,16 +1704,16 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
-  FFDB_LOCK (hashp->lock);
-  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
-  FFDB_UNLOCK (hashp->lock);
-
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
     ffdb_put_page (hashp, inc->item.pagep, TYPE(inc->item.pagep), 0);
     inc->item.pagep = 0;
   }
 
+  FFDB_LOCK (hashp->lock);
+  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK (hashp->lock);
+
   FFDB_LOCK_FINI(inc->lock);
   /* Free all memory */
   free (inc);
-- 
2.43.0


From 6306e0621f3443a96e865db754decfe3da8340b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 40/51] fix: the header could be written at another thread's
 file position

---
 filehash/ffdb_hash.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index ee197c6..98499a3 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,11 +228,7 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
-    fprintf(stderr, "hash: could not seek to hash header");
-    return -1;
-  }
-  num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
+  num_copied = pwrite(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t), 0);
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
     return -1;
-- 
2.43.0


From f112363183b944c6a15a2502f751bcd9e2961a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 41/51] fix: del reported success without deleting anything

---
 filehash/ffdb_hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 98499a3..2d6f2fa 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1398,7 +1398,10 @@ _ffdb_hash_delete (const FFDB_DB* dbp, const FFDB_DBT* key, unsigned int flag)
   (void)dbp;
   (void)key;
   (void)flag;
-  return 0;
+
+  /* not supported */
+  errno = ENOTSUP;
+  return -1;
 }
 
 
-- 
2.43.0


From c920b6a969edb2aa4eea77df5c638ac14934681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 42/51] fix: a merge that threw left the source database open

---
 src/ConfDataDBMerger.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index b6344a8..88f9d15 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -43,6 +43,7 @@
 #ifndef _FILEDB_CONF_DATA_DB_MERGER_H
 #define _FILEDB_CONF_DATA_DB_MERGER_H
 
+#include <memory>
 #include <vector>
 #include "ConfigInfo.h"
 #include "ConfDataStoreDB.h"
@@ -159,8 +160,7 @@ namespace FILEDB
 
       // check whether this config info has valid urlname
       if (info.urlname().length() > 0) {
-	ConfDataStoreDB< K, D >* sdb = 0;
-	sdb = new ConfDataStoreDB< K, D > ();
+	std::unique_ptr< ConfDataStoreDB< K, D > > sdb (new ConfDataStoreDB< K, D > ());
 	sdb->setCacheSize (dbasecachesize);
 	if (sdb->open  (info.urlname(), O_RDONLY, 0400) != 0) {
 	  std::cerr << __FILE__ << " cannot open individual database " << info.urlname() << std::endl;
@@ -198,9 +198,6 @@ namespace FILEDB
 #endif
 	  bag.find (keys[i])->second[info.index()] = tdata;
 	}
-
-	// free memory
-	delete sdb;
       }
       else
 	std::cerr << "Skip this configuration " << info << std::endl;
@@ -388,8 +385,7 @@ namespace FILEDB
       }
 
       // open the first valid configuration
-      ConfDataStoreDB< K, D >* fsconfdb = 0;
-      fsconfdb = new ConfDataStoreDB< K, D > ();
+      std::unique_ptr< ConfDataStoreDB< K, D > > fsconfdb (new ConfDataStoreDB< K, D > ());
       if (fsconfdb->open (configs_[i].urlname(), O_RDONLY, 0400) != 0) {
 	std::cerr << __FILE__ << " cannot open individual database " << configs_[i].urlname() << std::endl;
 	::exit (1);
@@ -461,9 +457,6 @@ namespace FILEDB
       
       // Update Cinfiguration Information
       updateConfigInfo ();
-
-      // free memory
-      delete fsconfdb;
     }
 
   };
-- 
2.43.0


From 9c1ff2bb6e1d8d520e58ba5ce8448200b271f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 43/51] fix: an ensemble store without memory wrote through a
 null pointer

---
 src/AllConfStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 1ed374c..1aa2ff7 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -140,6 +140,9 @@ namespace FILEDB
       allcfgs_->numconfigs = nbin_;
       allcfgs_->allconfigs =
           (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * nbin_);
+      if (nbin_ > 0 && !allcfgs_->allconfigs)
+	throw std::bad_alloc ();
+
       for (int i = 0; i < nbin_; i++) {
 	allcfgs_->allconfigs[i].config = configs[i];
 	allcfgs_->allconfigs[i].index = i;
-- 
2.43.0


From 5d30a0af4c70aecde6b0ee079aa3575a90fbb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 44/51] fix: a key iterator used a cursor that could not be
 made

---
 src/DBCursor.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DBCursor.h b/src/DBCursor.h
index 64e4607..48d0555 100644
--- a/src/DBCursor.h
+++ b/src/DBCursor.h
@@ -298,7 +298,11 @@ namespace FILEDB
       int  ret;
       
       try {
-	dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
+	ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
+	if (ret != 0) {
+	  std::cerr <<"Fatal: DB cursor  error " << std::endl;
+	  ::exit (143);
+	}
 	
 	key.data = data.data = 0;
 	key.size = data.size = 0;
-- 
2.43.0


From 6e4f0113ffd269fe30ff2ae3e77cf0dd6f1e8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 45/51] fix: sync left out pages held by an open cursor

---
 filehash/ffdb_pagepool.c | 23 +++++++++++++----------
 filehash/ffdb_pagepool.h |  4 ++--
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index e00d043..bd5d0d8 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -128,7 +128,8 @@ void ffdb_dump_stack (void)
  * Flush out some pages in order of page numbers
  */
 static int 
-_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages);
+_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages,
+		       int inuse);
 
 /* Test for valid page sizes. */
 #define	IS_VALID_PAGESIZE(x)						\
@@ -451,7 +452,7 @@ _ffdb_pagepool_reuse_bkt (ffdb_pagepool_t* pgp, ffdb_bkt_t** retbp)
 #ifdef _FFDB_DEBUG
     fprintf (stderr, "Flush %d pages out\n", pgp->maxcache/FFDB_WRITE_FRAC);
 #endif
-    _ffdb_pagepool_sync_i (pgp, pgp->maxcache/FFDB_WRITE_FRAC);
+    _ffdb_pagepool_sync_i (pgp, pgp->maxcache/FFDB_WRITE_FRAC, 0);
   }
 
   return ret;
@@ -1423,9 +1424,11 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 /**
  * Flush number of pages to disk
  * If numpages == 0, flush all dirty pages to disk
+ * If inuse == 0, leave out pages that are pinned or waited for
  */
 static int
-_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
+_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages,
+		       int inuse)
 {
   unsigned int num;
   int ret = 0;
@@ -1436,13 +1439,13 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   FFDB_SLIST_INIT (&slh);
 
   /* Walk through every bucket and check whether it is pinned
-   * If it is not pinned and it is dirty, I will sort these pages
-   * according to page number
+   * If it is not pinned (or pages in use are wanted) and it is dirty, 
+   * I will sort these pages according to page number
    */
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
-    if (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
-	bp->waiters == 0 && 
+    if ((inuse || (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
+		   bp->waiters == 0)) && 
 	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
       /* insert this bucket into a single linked list */
       sbp = (ffdb_sbkt_t *)malloc(sizeof(ffdb_sbkt_t));
@@ -1494,8 +1497,8 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, also those in use (a 
+ * cursor holds its current page)
  *
  * @param  pgp cache page pool pointer
  */
@@ -1506,7 +1509,7 @@ ffdb_pagepool_sync (ffdb_pagepool_t* pgp)
 
   FFDB_LOCK (pgp->lock);
 
-  ret = _ffdb_pagepool_sync_i (pgp, 0);
+  ret = _ffdb_pagepool_sync_i (pgp, 0, 1);
 
   FFDB_UNLOCK (pgp->lock);
 
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a218397..b52285c 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -375,8 +375,8 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, also those in use (a 
+ * cursor holds its current page)
  *
  * @param  pgp cache page pool pointer
  */
-- 
2.43.0


From f9f7eebd21b5f908002ef1c1c419e746dda79060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:43 +0000
Subject: [PATCH 46/51] fix: VFloatData refuses data too short for its header

readObject copied the class id and the element count out of the stored
bytes before looking at their length, and read beyond the end of records
of fewer than 8 bytes.
---
 src/VFloatData.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..63da2bb 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -173,6 +173,9 @@ namespace FILEDB
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
-- 
2.43.0


From 54943e4b0e7b8447526a1c6ef655bc25bd0c07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:06 +0000
Subject: [PATCH 47/51] fix: VFloatData keeps the values of its elements

writeObject converted every element to an int, swapped its bytes and
stored the resulting number in a float, so that fractions, negative and
most large numbers came back as something else. Elements are now stored
as their bits in network byte order, marked in the stored element count;
data stored before are still read as before. The padding was not
initialised either.
---
 src/VFloatData.cpp | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 63da2bb..cfb672e 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -32,6 +32,7 @@
  *
  */
 #include <stdlib.h>
+#include <string.h>
 #include <sstream>
 #include "VFloatData.h"
 
@@ -39,6 +40,13 @@ using namespace std;
 
 namespace FILEDB
 {
+  /**
+   * Flag in the stored number of elements: every element is stored as the
+   * bits of the float in network byte order. Data written before there was
+   * this flag have byte swapped whole numbers in floats of the machine.
+   */
+  static const unsigned int VFLOAT_BITS = 0x80000000U;
+
   /**
    * Constructor
    */
@@ -123,18 +131,19 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    std::vector<unsigned int> vcfbuf (data_.size());
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
-    num = hton_int(data_.size ());
+    num = hton_int(data_.size () | VFLOAT_BITS);
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // assign the bits of the data values to the array
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      ::memcpy (&vcfbuf[i], &data_[i], sizeof(float));
+      vcfbuf[i] = hton_int(vcfbuf[i]);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -142,7 +151,7 @@ namespace FILEDB
       ostrm.write ((const char *)&id, sizeof(unsigned short));
       ostrm.write ((const char *)&pad, sizeof(unsigned short));
       ostrm.write ((const char *)&num, sizeof(unsigned int));
-      ostrm.write ((const char *)vcfbuf, data_.size() * sizeof(float));
+      ostrm.write ((const char *)vcfbuf.data(), data_.size() * sizeof(float));
       if (ostrm.bad()) 
 	throw SerializeException ("VFloatData",
 				  "writing vector complex array error");
@@ -153,8 +162,6 @@ namespace FILEDB
     }
 
     output = ostrm.str();
-
-    delete []vcfbuf;
   }
 
   /**
@@ -167,9 +174,10 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
     unsigned short id;
-    unsigned int   num;
+    unsigned int   num, bits;
+    bool hasbits;
+    float val;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
@@ -182,6 +190,8 @@ namespace FILEDB
 
     id = ntoh_short (id);
     num = ntoh_int (num);
+    hasbits = (num & VFLOAT_BITS) != 0;
+    num &= ~VFLOAT_BITS;
     
     if (id != serialID()) 
       throw SerializeException ("VFloatData", "Serial ID error");
@@ -189,17 +199,20 @@ namespace FILEDB
     if (num * sizeof(float) != input.length() - hlen) 
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
-    // copy all float values
-    vcfbuf = new float[num];
-    ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
-
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
-
-    delete []vcfbuf;
+    for (unsigned int i = 0; i < num; i++) {
+      if (hasbits) {
+	::memcpy (&bits, &buf[hlen + i * sizeof(float)], sizeof(float));
+	bits = ntoh_int (bits);
+	::memcpy (&data_[i], &bits, sizeof(float));
+      }
+      else {
+	::memcpy (&val, &buf[hlen + i * sizeof(float)], sizeof(float));
+	data_[i] = ntoh_int((int)val);
+      }
+    }
   }
 }
-- 
2.43.0


From ebfd75724f2ac9c87ec18fa14e61a75c4f6bd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 48/51] fix: an ensemble row has its elements even when they
 are empty

Rows were split by walking through their bytes: a row of no bytes came
back as a row without elements, and stringKeysAndData divided by zero.
Rows are now split into as many elements as there are configurations.
---
 src/AllConfStoreDB.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 1aa2ff7..541f4f4 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -286,10 +286,10 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
+      for (std::size_t i = 0; i < (std::size_t)nbin_; i++) {
 	D0 elem;
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i * bytesize_], bytesize_);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -339,10 +339,10 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
+      for (std::size_t i = 0; i < (std::size_t)nbin_; i++) {
 	D elem;
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i * bytesize_], bytesize_);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -390,9 +390,9 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (long i = 0; i < cdata.length(); i += bytesize_) {
+      for (long i = 0; i < nbin_; i++) {
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i * bytesize_], bytesize_);
 	// add to array
 	vs.push_back (tmp);
       }
@@ -677,11 +677,11 @@ namespace FILEDB
 	  abort ();
 	}
  
-        vals.reserve(bvalues[i].length()/bsize);
-	for (std::size_t k = 0; k < bvalues[i].length(); k += bsize) {
+        vals.reserve(nbin_);
+	for (std::size_t k = 0; k < (std::size_t)nbin_; k++) {
 	  D elem;
 	  std::string tmp;
-	  tmp.assign (&dbuf[k], bsize);
+	  tmp.assign (&dbuf[k * bsize], bsize);
 	  try {
 	    elem.readObject(tmp);
 	  }
-- 
2.43.0


From e3c50a8960879dea8e5904ce044ed6ff047de55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:42 +0000
Subject: [PATCH 49/51] fix: an ensemble learns the size of its elements from
 proper rows only

A refused insert, a failed update or a record that is no proper row set
the element size all the same, after which proper rows were refused or
could not be read until the store was opened again.
---
 src/AllConfStoreDB.h | 82 ++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 541f4f4..7d68534 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -276,10 +276,8 @@ namespace FILEDB
 	std::cerr << "Retrieved data size " << cdata.size() << " is not multiple of number of configurations " << nbin_ << std::endl;
 	return -1;
       }
-      if (bytesize_ == 0) 
-	bytesize_ = cdata.size()/nbin_;
-
-      if ((std::size_t)bytesize_ != cdata.size()/nbin_) {
+      const long bsize = cdata.size()/nbin_;
+      if (bytesize_ != 0 && bytesize_ != bsize) {
 	std::cerr << "Previous byte size " << bytesize_ << " is not the same as the current one " << cdata.size()/nbin_ << std::endl;
 	return -1;
       }
@@ -289,7 +287,7 @@ namespace FILEDB
       for (std::size_t i = 0; i < (std::size_t)nbin_; i++) {
 	D0 elem;
 	std::string tmp;
-	tmp.assign (&rdata[i * bytesize_], bytesize_);
+	tmp.assign (&rdata[i * bsize], bsize);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -301,6 +299,8 @@ namespace FILEDB
 	vs.push_back (elem);
       }
 
+      // a proper row tells the size of the elements
+      bytesize_ = bsize;
       return 0;
     }
 
@@ -329,10 +329,8 @@ namespace FILEDB
 	std::cerr << "Retrieved data size " << cdata.size() << " is not multiple of number of configurations " << nbin_ << std::endl;
 	return -1;
       }
-      if (bytesize_ == 0) 
-	bytesize_ = cdata.size()/nbin_;
-
-      if ((std::size_t)bytesize_ != cdata.size()/nbin_) {
+      const long bsize = cdata.size()/nbin_;
+      if (bytesize_ != 0 && bytesize_ != bsize) {
 	std::cerr << "Previous byte size " << bytesize_ << " is not the same as the current one " << cdata.size()/nbin_ << std::endl;
 	return -1;
       }
@@ -342,7 +340,7 @@ namespace FILEDB
       for (std::size_t i = 0; i < (std::size_t)nbin_; i++) {
 	D elem;
 	std::string tmp;
-	tmp.assign (&rdata[i * bytesize_], bytesize_);
+	tmp.assign (&rdata[i * bsize], bsize);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -354,6 +352,8 @@ namespace FILEDB
 	vs.push_back (elem);
       }
 
+      // a proper row tells the size of the elements
+      bytesize_ = bsize;
       return 0;
     }
 
@@ -380,10 +380,8 @@ namespace FILEDB
 	std::cerr << "Retreived data size " << cdata.size() << " is not multiple of number of configurations " << nbin_ << std::endl;
 	return -1;
       }
-      if (bytesize_ == 0) 
-	bytesize_ = cdata.size()/nbin_;
-
-      if (bytesize_ != cdata.size()/nbin_) {
+      const long bsize = cdata.size()/nbin_;
+      if (bytesize_ != 0 && bytesize_ != bsize) {
 	std::cerr << "Previous byte size " << bytesize_ << " is not the same as the current one " << cdata.size()/nbin_ << std::endl;
 	return -1;
       }
@@ -392,7 +390,7 @@ namespace FILEDB
       char *rdata = (char *)&cdata[0];
       for (long i = 0; i < nbin_; i++) {
 	std::string tmp;
-	tmp.assign (&rdata[i * bytesize_], bytesize_);
+	tmp.assign (&rdata[i * bsize], bsize);
 	// add to array
 	vs.push_back (tmp);
       }
@@ -415,8 +413,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
+      // if bytesize_ is not set, the first element tells
+      long bsize = bytesize_;
+      if (bsize == 0) {
 	std::string tmpstr;
 	try {
 	  v[0].writeObject (tmpstr);
@@ -426,7 +425,7 @@ namespace FILEDB
 		    << std::endl;
 	  return -1;
 	}
-	bytesize_ = tmpstr.size();
+	bsize = tmpstr.size();
       }
 
       // combine every element in the array into a string
@@ -441,8 +440,8 @@ namespace FILEDB
 	  return -1;
 	}
 	// elements are told apart by their common size
-	if (elem.size() != (std::size_t)bytesize_) {
-	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	if (elem.size() != (std::size_t)bsize) {
+	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bsize << std::endl;
 	  return -1;
 	}
 	dstr.append (elem);
@@ -456,6 +455,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -474,8 +475,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
+      // if bytesize_ is not set, the first element tells
+      long bsize = bytesize_;
+      if (bsize == 0) {
 	std::string tmpstr;
 	try {
 	  v[0].writeObject (tmpstr);
@@ -485,7 +487,7 @@ namespace FILEDB
 		    << std::endl;
 	  return -1;
 	}
-	bytesize_ = tmpstr.size();
+	bsize = tmpstr.size();
       }
 
       // combine every element in the array into a string
@@ -500,8 +502,8 @@ namespace FILEDB
 	  return -1;
 	}
 	// elements are told apart by their common size
-	if (elem.size() != (std::size_t)bytesize_) {
-	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	if (elem.size() != (std::size_t)bsize) {
+	  std::cerr << "Inserted element has size " << elem.size() << " not equal to the size of the others " << bsize << std::endl;
 	  return -1;
 	}
 	dstr.append (elem);
@@ -515,6 +517,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -534,16 +538,17 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = v[0].size();
+      // if bytesize_ is not set, the first element tells
+      long bsize = bytesize_;
+      if (bsize == 0) 
+	bsize = v[0].size();
 
       // combine the vector of string into one big string
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
 	// elements are told apart by their common size
-	if (v[i].size() != (std::size_t)bytesize_) {
-	  std::cerr << "Inserted element has size " << v[i].size() << " not equal to the size of the others " << bytesize_ << std::endl;
+	if (v[i].size() != (std::size_t)bsize) {
+	  std::cerr << "Inserted element has size " << v[i].size() << " not equal to the size of the others " << bsize << std::endl;
 	  return -1;
 	}
 	dstr.append (v[i]);
@@ -553,6 +558,8 @@ namespace FILEDB
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
       }
+      else
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -604,11 +611,8 @@ namespace FILEDB
 	  std::cerr << "Retreived data size " << cdata.size() << " is not multiple of number of configurations " << nbin_ << std::endl;
 	  return -1;
 	}
-	// this the first time I am calling this get
-	if (bytesize_ == 0) 
-	  bytesize_ = cdata.size()/nbin_;
-
-	if ((std::size_t)bytesize_ != cdata.size()/nbin_) {
+	const long bsize = cdata.size()/nbin_;
+	if (bytesize_ != 0 && bytesize_ != bsize) {
 	  std::cerr << "Previous byte size " << bytesize_ << " is not the same as the current one " << cdata.size()/nbin_ << std::endl;
 	  return -1;
 	}
@@ -622,14 +626,14 @@ namespace FILEDB
 	  std::cerr << "Serialize a single value error: " << e.what() << std::endl;
 	  return -1;
 	}
-	if (tmp.size() != (std::size_t)bytesize_) {
-	  std::cerr << "Update a single item has length " << tmp.size() << " not equal to the length of the other " << bytesize_ << std::endl;
+	if (tmp.size() != (std::size_t)bsize) {
+	  std::cerr << "Update a single item has length " << tmp.size() << " not equal to the length of the other " << bsize << std::endl;
 	  return -1;
 	}
 
 	// Now update the content of this string
 	char *rdata = (char *)&cdata[0];
-	::memcpy (&rdata[index*bytesize_], &tmp[0], bytesize_);
+	::memcpy (&rdata[index*bsize], &tmp[0], bsize);
 
 	// Now insert this one into the database again
 	try {
@@ -640,6 +644,8 @@ namespace FILEDB
 	  ret = -1;
 	}
 
+	if (ret == 0)
+	  bytesize_ = bsize;
 	return ret;
       }
 
-- 
2.43.0


From b49eeab6e277e1badf7c339d7fffa1ef1bba15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:49 +0000
Subject: [PATCH 50/51] fix: opening a store puts the process's umask back

openDatabase and openDatabaseSimple set the file creation mask of the
process to 0 so that a new database has exactly the given mode, and left
it there: every file the program made afterwards was writable by all.
---
 src/DBFunc.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/DBFunc.h b/src/DBFunc.h
index ed06b47..42e1f45 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -127,11 +127,13 @@ namespace FILEDB
     // open database
     std::cerr << "Open store database " << dbase << std::endl;
 
-    // turn off umask
-    ::umask (0);
+    // turn off umask while the file is created
+    mode_t oldmask = ::umask (0);
 
     dbh = ffdb_dbopen (dbase.c_str(), open_flags, mode, (const void *)info);
 
+    ::umask (oldmask);
+
     return dbh;
   }
 
@@ -153,11 +155,13 @@ namespace FILEDB
     // open database
     std::cerr << "Open store database " << dbase << std::endl;
 
-    // turn off umask
-    ::umask (0);
+    // turn off umask while the file is created
+    mode_t oldmask = ::umask (0);
 
     dbh = ffdb_dbopen (dbase.c_str(), open_flags, mode, (const void *)info);
 
+    ::umask (oldmask);
+
     return dbh;
   }
 
-- 
2.43.0


From 9a09ff8030eb19d4340f444b0e232ac048e82ade Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:12:32 +0000
Subject: [PATCH 51/51] fix: refuse user and configuration information that
 needs more pages than the header can count

The header keeps the numbers of pages of user information and of the
configuration table in 16 bits. A database made with more (40 MB of user
information on 512 byte pages) was created and the information reported
as stored, and read back as something else. Creating it fails now.
---
 filehash/ffdb_hash.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 2d6f2fa..1184faa 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -544,6 +544,9 @@ _ffdb_num_config_info_pages (ffdb_htab_t* hashp, unsigned int num)
 }
 
 
+/* The largest number of pages for user and configuration information */
+#define MAX_INFO_PAGES 65535
+
 /**
  * Initialize the hash table if this is a new file
  * Initialize hash table with 'nb' number of buckets
@@ -575,6 +578,12 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
     hashp->hdr.uinfolen = info->userinfolen;
   else
     hashp->hdr.uinfolen = FFDB_DEFAULT_UINFO_LEN;
+  /* The header keeps numbers of pages of information as 16 bit values */
+  if (hashp->hdr.uinfolen / (hashp->hdr.bsize - PAGE_OVERHEAD) >= MAX_INFO_PAGES) {
+    fprintf (stderr, "User information of %u bytes needs too many pages.\n",
+	     hashp->hdr.uinfolen);
+    return -1;
+  }
   uinfosize = hashp->hdr.uinfolen + sizeof(unsigned int);
 
   /* This is user information */
@@ -596,6 +605,11 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* total number of configuration size */
   nhdr_pages += (_ffdb_num_config_info_pages (hashp, hashp->hdr.num_cfigs));
+  if (nhdr_pages > MAX_INFO_PAGES) {
+    fprintf (stderr, "User information and %u configurations need too many pages.\n",
+	     hashp->hdr.num_cfigs);
+    return -1;
+  }
   hashp->hdr.cfig_npages = nhdr_pages - pg;
 
   /* Assign the number of header pages */
@@ -853,7 +867,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
       ffdb_pagepool_close (hashp->mp);
       close (hashp->fp);
       free (hashp);
-      errno = ENOMEM;
+      errno = EINVAL;
       return 0;
     }
   }
-- 
2.43.0

