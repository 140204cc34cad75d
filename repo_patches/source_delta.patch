From 5780b9ac66995e28ab4ca1222b083a2ab3700224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 001/162] fix: hashtab: release the bucket lock when an insert
 finds a duplicate or fails

---
 src/hashtable/hashtab.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..ad1e6f9 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -455,8 +455,10 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     }
 
     lockmgr_unlock(&tab->lock);
+    return retval;
 
 _done:
+    lockmgr_unlock(&b->lock);
     return retval;
 }
 
-- 
2.43.0


From aaef1dfeefd09a88dd5022233131eefa3086b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 002/162] fix: hashtab: sorted iterator passes the items, not
 their addresses, to the comparison function

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..8051665 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -315,7 +315,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
-- 
2.43.0


From 438c1bd956201f3a0a252f61553d926ddf76bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 003/162] fix: hashtab: conditional remove passes the item, not
 its address, to the predicate

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index ad1e6f9..f20fda5 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -303,7 +303,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
-- 
2.43.0


From 598364b31196e2ae19782af6138d1de823bd8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 004/162] fix: hashtab: bucket iterator looks in the bucket the
 key is stored in

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 8051665..9584715 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -443,7 +443,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
-- 
2.43.0


From 0c9bddb5228a06966db63c44f25c2609057f92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 005/162] fix: hashtab: sorted iterator no longer locks the
 table a second time

---
 src/hashtable/hashtab_iter.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 9584715..dd71904 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -334,7 +334,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
+    // _mk_iter() holds the table lock
     sorted->max = tab->stats.nodes;
     if (sorted->max == 0) goto _done;
 
@@ -366,7 +366,6 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     ok = 0;
 
 _done:
-    lockmgr_unlock(&tab->lock);
     return ok;
 }
 
-- 
2.43.0


From 71024d8cc53b7cf49610d2ff60d92fa32c0f4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:41 +0000
Subject: [PATCH 006/162] fix: fast-ht: removing the last node of a bucket
 lowers the fill count

Adding and removing the same key over and over doubled the table without bound.
---
 src/hashtable/fast-ht.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..b3e6eaa 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -579,7 +579,7 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->fp = __clear_fp(g->fp, slot);
         g->hk[slot] = 0;
         g->hv[slot] = 0;
-        b->nodes--;
+        if (--b->nodes == 0) h->fill--;
         h->nodes--;
         return 1;
     }
-- 
2.43.0


From 9d4c51636a919c415fd9ac5b75c23747c318adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:58 +0000
Subject: [PATCH 007/162] fix: fast-ht: new bags start with all seven slots
 free

A zeroed fingerprint means 'all occupied', so every bag held one node only;
with free slots in use the fingerprints of the other slots must be kept when
one is set or cleared.
---
 src/hashtable/fast-ht.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index b3e6eaa..02f7e73 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -165,7 +165,7 @@ static inline uint64_t
 __update_fp(uint64_t fp, uint64_t k, int slot)
 {
     uint8_t ctrl = __control(fp) & ~(1 << slot);
-    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __h2(fp);
+    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __fp(fp);
 
     return h2 | (_U64(ctrl) << 56);
 }
@@ -177,7 +177,7 @@ static inline uint64_t
 __clear_fp(uint64_t fp, int slot)
 {
     uint8_t ctrl = __control(fp) | (1 << slot);
-    uint64_t h2  = __h2(fp) & ~(_U64(0xff) << (8 * slot));
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
     return h2 | (_U64(ctrl) << 56);
 }
 
@@ -284,6 +284,7 @@ __insert(hb *b, uint64_t k, void *v)
 
     if (!bg) {
         bg   = __NEWZ(bag);
+        bg->fp = __mkfp(0, 0x7f);
         slot = 0;
         b->bags++;
         SL_INSERT_HEAD(&b->head, bg, link);
@@ -321,6 +322,7 @@ __insert_quick(hb *b, uint64_t k, void *v)
 
     // Make a new bag and put our element there.
     g = __NEWZ(bag);
+    g->fp = __mkfp(0, 0x7f);
     g->fp = __update_fp(g->fp, k, 0);
     g->hk[0] = k;
     g->hv[0] = v;
-- 
2.43.0


From 62adc1948d0d3bf7f1d241ef7f53c85c8ed5c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 008/162] fix: bloom: counters of a counting filter no longer
 wrap to zero

Adding an element 256 times made it (and others) absent.
---
 src/hashtable/bloom.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..de0c3aa 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -249,7 +249,8 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // a counter that reaches the maximum stays there
+        if (b->bitmap[j] < UINT8_MAX) b->bitmap[j]++;
     }
 
     b->size++;
@@ -272,7 +273,7 @@ counting_bloom_remove(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
         if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
+            if (b->bitmap[j] < UINT8_MAX) b->bitmap[j] -= 1;
             r = 1;
         }
     }
-- 
2.43.0


From f1db3aa83c4ce7e6e67b60a97b590b39e7d9015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 009/162] fix: bloom: removing an absent element leaves a
 counting filter unchanged

It decremented the counters it shared with elements that are present.
---
 src/hashtable/bloom.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index de0c3aa..46a8117 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -257,6 +257,8 @@ counting_bloom_probe(bloom* b, uint64_t val)
 }
 
 
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 /*
  * Return False if element was not found, True otherwise.
  */
@@ -269,6 +271,9 @@ counting_bloom_remove(bloom* b, uint64_t val)
     uint64_t i;
     uint64_t r = 0;
 
+    // Don't take away the counts of other elements.
+    if (!counting_bloom_find(b, val)) return 0;
+
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-- 
2.43.0


From 43d186ffdfa330b4d8b7de0964fe7fe8d0d6d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 010/162] fix: xorfilter: size the fingerprint array by the
 filter size

It was sized by the number of keys, which is smaller for fewer than 19 keys:
building and querying such a filter went past the end of the array.
---
 src/hashtable/xorfilter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..2a4b352 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -281,7 +281,7 @@ Xorfilter_new8(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, xorfilter_size(x));
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -305,8 +305,8 @@ Xorfilter_new16(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
     x->is_16 = 1;
+    x->ptr   = NEWZA(uint8_t, xorfilter_size(x));
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
         uint16_t fp = __xfp16(ki.hash);
-- 
2.43.0


From 662bb0c0aa198eb80156b3dc58dca2d15fdb996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 011/162] fix: xorfilter: release the key stack when
 construction fails

---
 src/hashtable/xorfilter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 2a4b352..73fc36f 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -277,6 +277,7 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
@@ -301,6 +302,7 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
-- 
2.43.0


From 1f099d71f0f0bfa15d0339fd58ff203c77b5cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 012/162] fix: xorfilter: marshal returns a negative error when
 mmap fails

---
 src/hashtable/xorfilter_marshal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..0779857 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -148,7 +148,7 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = -errno;
+        r = errno;
         goto fail;
     }
 
-- 
2.43.0


From 298246f46f5a199679326d56fd9464e6bbe89861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 013/162] fix: bloom: marshal does not replace the target when
 the data cannot be synced

---
 src/hashtable/bloom_marshal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..25bec05 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -601,8 +601,10 @@ Bloom_marshal(Bloom *b, const char *fname)
     cksum(&m.ck, start+m.datasize, start, m.datasize);
     VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
     close(fd);
     if (rename(file, fname) < 0) {
         r = -errno;
-- 
2.43.0


From 20ef7560de00c3efef8397f3da6e0a703f06fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 014/162] fix: xorfilter: marshal does not replace the target
 when the data cannot be synced

---
 src/hashtable/xorfilter_marshal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 0779857..e747677 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -167,8 +167,10 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
     close(fd);
 
     if (rename(file, fname) < 0) {
-- 
2.43.0


From 685e1558bd5b0483ff134905babad3eb76ba3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 015/162] fix: bloom: release the offset table when marshal
 fails

---
 src/hashtable/bloom_marshal.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 25bec05..84f8380 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -559,7 +559,11 @@ Bloom_marshal(Bloom *b, const char *fname)
     snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
 
     fd = mkostemp(file, 0);
-    if (fd < 0) return -errno;
+    if (fd < 0) {
+        r = -errno;
+        VECT_FINI(&m.offs);
+        return r;
+    }
 
     if (ftruncate(fd, sz) < 0) {
         r = errno;
@@ -615,6 +619,7 @@ Bloom_marshal(Bloom *b, const char *fname)
     return 0;
 
 fail:
+    VECT_FINI(&m.offs);
     close(fd);
     unlink(file);
     return -r;
-- 
2.43.0


From b2215c2c68afd05e42350624a2c95e558a0c127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 016/162] fix: bloom: deleting a memory mapped filter removes
 the mapping

---
 src/hashtable/bloom.c          |  6 +++++-
 src/hashtable/bloom_internal.h |  4 ++++
 src/hashtable/bloom_marshal.c  | 11 ++++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 46a8117..668ffa0 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -122,6 +122,7 @@
 #include <limits.h>
 #include <inttypes.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 
 #include "utils/utils.h"
 #include "utils/bloom.h"
@@ -373,8 +374,11 @@ standard_bloom_init(bloom* b, size_t n, double e)
 static void
 bloom_fini(bloom* b)
 {
-    if (!(b->flags & BLOOM_BITMAP_MMAP))
+    if (!(b->flags & BLOOM_BITMAP_MMAP)) {
         DEL(b->bitmap);
+    } else if (b->map) {
+        munmap(b->map, b->mapsize);
+    }
 }
 
 
diff --git a/src/hashtable/bloom_internal.h b/src/hashtable/bloom_internal.h
index 92b116f..f66550f 100644
--- a/src/hashtable/bloom_internal.h
+++ b/src/hashtable/bloom_internal.h
@@ -69,6 +69,10 @@ struct bloom
     uint32_t __pad0;    // padding
     double   e;         // expected error rate
 
+    // The file mapping that holds the bitmaps; set in the first filter
+    // of an instance that uses one (BLOOM_BITMAP_MMAP).
+    void    *map;
+    uint64_t mapsize;
 };
 typedef struct bloom bloom;
 
diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 84f8380..802b308 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -719,8 +719,17 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     assert(p_b);
     *p_b = m.b;
 
-    if (!do_mmap) munmap(mptr, st.st_size);
+    if (do_mmap) {
+        bloom *f = m.b->filter;
 
+        if (m.b->typ == BLOOM_TYPE_SCALE)
+            f = ((scalable_bloom *)m.b->filter)->bfa;
+
+        f->map     = mptr;
+        f->mapsize = st.st_size;
+    } else {
+        munmap(mptr, st.st_size);
+    }
 
     /*
      * POSIX allows us to close() and still keep the memory mapping
-- 
2.43.0


From 4346be6867808565b3ea45bfa4c5afdcc3fe3ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 017/162] fix: xorfilter: deleting a memory mapped filter
 removes the mapping

---
 src/hashtable/xorfilt_internal.h  | 2 ++
 src/hashtable/xorfilter.c         | 4 +++-
 src/hashtable/xorfilter_marshal.c | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index d432294..40de6d2 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -41,6 +41,8 @@ struct Xorfilter {
     uint32_t n;     // number of elements
     uint8_t  is_16;
     uint8_t  is_mmap;
+    void    *map;   // file mapping that holds the filter (is_mmap)
+    uint64_t mapsize;
 };
 typedef struct Xorfilter Xorfilter;
 
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 73fc36f..0b0d180 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -43,6 +43,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 #include "fast/vect.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
@@ -351,7 +352,8 @@ Xorfilter_bpe(Xorfilter *x)
 void
 Xorfilter_delete(Xorfilter *x)
 {
-    if (x->ptr && !x->is_mmap) DEL(x->ptr);
+    if (x->is_mmap)  munmap(x->map, x->mapsize);
+    else if (x->ptr) DEL(x->ptr);
     DEL(x);
 }
 /* EOF */
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index e747677..93de3ca 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -250,6 +250,8 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     if (do_mmap) {
         zx.ptr     = p;
         zx.is_mmap = 1;
+        zx.map     = mptr;
+        zx.mapsize = st.st_size;
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-- 
2.43.0


From cc87ed5967c7e1c6fa8f4464e5c1d645a7a29746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:02 +0000
Subject: [PATCH 018/162] fix: bloom: a filter added by a scalable filter
 starts with no elements

---
 src/hashtable/bloom.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 668ffa0..611b49a 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -329,6 +329,7 @@ counting_bloom_init(bloom* b, size_t n, double e)
     b->k      = k;
     b->m      = s;
     b->e      = e;
+    b->size   = 0;
     b->bmsize = bytes;
     b->flags  = 0;
 
@@ -358,6 +359,8 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->m = msub;
     b->e = e;
 
+    // filters added by a scalable filter are in uninitialized memory
+    b->size    = 0;
     b->bmsize  = bytes;
     b->flags   = 0;
 
-- 
2.43.0


From 1c1f152b02245f178b7f3ab62d889f53072bdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 019/162] fix: mempool: a pool of a single block can be created

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..c490f46 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size >= a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From c36a89dff01d6174297943448c9934cf575905a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 020/162] fix: mempool: release the pool when its first chunk
 cannot be allocated

---
 src/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index c490f46..595019b 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -397,8 +397,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        tr->free(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
-- 
2.43.0


From f717118c49059eada1e8896c788cd0da49defd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 021/162] fix: mempool: memory too small for a pool is refused

---
 src/mempool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 595019b..03fc037 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -435,6 +435,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -490,6 +491,8 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize <= (uint64_t)(ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
+
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
-- 
2.43.0


From 66bcf53d4b3051fb879db1480f994b13ace5d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 022/162] fix: arena: huge requests fail instead of overlapping
 other blocks

---
 src/arena.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..7beb63d 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -31,6 +31,7 @@
 
 #include <errno.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include "utils/arena.h"
 #include "utils/utils.h"
 #include "fast/list.h"
@@ -128,6 +129,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* No such memory; rounding these sizes up would wrap around. */
+    if (nbytes > SIZE_MAX - sizeof(arena_node) - SYS_ALIGNMENT) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
@@ -142,7 +146,12 @@ arena_alloc(arena_t a, size_t nbytes)
 
     /* allocate a new node; but, try to allocate a few more bytes
      * to satisfy atleast few more such allocations.  */
-    chunk = nbytes < a->chunk_size ? a->chunk_size : nbytes * 16;
+    if (nbytes < a->chunk_size)      chunk = a->chunk_size;
+    else if (nbytes < SIZE_MAX / 32) chunk = nbytes * 16;
+    else                             chunk = nbytes;
+
+    if (chunk > SIZE_MAX - sizeof(arena_node)) goto _end;
+
     n     = (arena_node *) malloc(sizeof(arena_node) + chunk);
     if (!n) goto _end;
 
-- 
2.43.0


From ba1ebcc6331bf6db7527796c34c09b065ac86ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 023/162] fix: vect: growing a vector of capacity zero
 terminates

---
 inc/fast/vect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..b5a5d71 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -113,6 +113,7 @@ extern "C" {
                         do {                                        \
                             size_t n_ = v_->cap;                    \
                             if  (want_ >= n_) {                     \
+                                if (n_ == 0) n_ = 1;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
-- 
2.43.0


From 595cfde1c6dee5d8a71072f0b8e2231ee934e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 024/162] fix: vect: sampling writes to the storage in use
 after it has grown

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index b5a5d71..69c6f0f 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -284,10 +284,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
-                                            typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            typeof(a_->arr) x_ = a_->arr;       \
+                                            typeof(a_->arr) y_ = b_->arr;       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From b524309684166001bb590e109f85d28c49512448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 025/162] fix: llist: re-initializing operations use list_init

---
 inc/fast/llist.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..ae2c5aa 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -164,7 +164,7 @@ static inline void list_replace_init(struct list_head *old,
                      struct list_head *newl)
 {
     list_replace(old, newl);
-    INIT_LIST_HEAD(old);
+    list_init(old);
 }
 
 /**
@@ -174,7 +174,7 @@ static inline void list_replace_init(struct list_head *old,
 static inline void list_del_init(struct list_head *entry)
 {
     __list_del_entry(entry);
-    INIT_LIST_HEAD(entry);
+    list_init(entry);
 }
 
 /**
@@ -297,7 +297,7 @@ static inline void list_cut_position(struct list_head *list,
         (head->next != entry && head != entry))
         return;
     if (entry == head)
-        INIT_LIST_HEAD(list);
+        list_init(list);
     else
         __list_cut_position(list, head, entry);
 }
@@ -352,7 +352,7 @@ static inline void list_splice_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head, head->next);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
@@ -369,7 +369,7 @@ static inline void list_splice_tail_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head->prev, head);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
-- 
2.43.0


From 31d7af39f5cd2e0104eda4094c114b7ae1b77ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 026/162] fix: queue: dynamic queues can be initialized

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From b87ce1ec22006f5cd11bef619dfe6209c016f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 027/162] fix: minheap: removal at a position keeps the heap
 ordered and in bounds

---
 inc/utils/minheap.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 380be13..ba8c7e0 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -135,10 +135,16 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     swap (Heap, pos, --n);         // Swap with last value
 
-    while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
-        swap (Heap, pos, parent (pos));      // Push up if large key
+    if (pos < n)             // nothing moved if it was the last one
+    {
+        while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
+        {
+            swap (Heap, pos, parent (pos));      // Push up if large key
+            pos = parent (pos);
+        }
 
-    siftdown (pos);           // Push down if small key
+        siftdown (pos);           // Push down if small key
+    }
 
     it = Heap[n];
 
-- 
2.43.0


From e22c3e526634bfcf9a20f20809f985c8b5d9ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 028/162] fix: gstring: a copy has the length of its source

---
 src/gstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..8eb2857 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -258,6 +258,7 @@ gstr_copy(gstr * dest, const gstr* src)
 
     dest = grow_if(dest, len+1);
     memcpy(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
-- 
2.43.0


From c98834e40d6069fdfb2a30831cff6eddef6a90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 029/162] fix: gstring: unquote sets the right length and needs
 two quotes

---
 src/gstring.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 8eb2857..d37905f 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -350,10 +350,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
-- 
2.43.0


From e537ee3c160a80ae66289778d7808528027d7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 030/162] fix: gstring: reading a line that fills the buffer
 does not write past it

---
 src/gstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index d37905f..27be70e 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -388,7 +388,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len + 1 >= g->cap) {    // keep room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From dee83aa7c78296bc4064e323d481425eb8f08b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 031/162] fix: gstring: duplicating keeps all bytes of a string
 that holds a null

---
 src/gstring.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 27be70e..d167204 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -49,14 +49,13 @@ grow_if(gstr * g, int len)
 static inline gstr *
 __init_gstr(gstr *g, size_t n, const char *src)
 {
-    if (n == 0) n = 63;
+    size_t want = n == 0 ? 63 : n;
 
-    g->cap = NEXTPOW2(n+1);
+    g->cap = NEXTPOW2(want+1);
     g->str = NEWZA(char, g->cap);
     assert(g->str);
 
     if (src) {
-        n = strlen(src);
         memcpy(g->str, src, n+1);
         g->len = n;
     } else {
-- 
2.43.0


From 3dd32c446d9784d9981bde3c441cd57259af3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 032/162] fix: gstring: a string can be appended to itself

---
 src/gstring.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index d167204..e76dc33 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -119,9 +119,14 @@ gstr_fini(gstr *g)
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
+    // 'str' may be a part of 'g' and move with it
+    int    self = str >= g->str && str <= g->str + g->len;
+    size_t off  = self ? str - g->str : 0;
+
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    memmove(g->str + g->len, self ? g->str + off : str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
-- 
2.43.0


From c9e5e748d76697deb854c0e7b7774fca0ffe5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 033/162] fix: gstring: define gstr_finalize and gstr_cap

---
 src/gstring.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/gstring.c b/src/gstring.c
index e76dc33..e9b3127 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -292,6 +292,31 @@ size_t
 }
 
 
+/* Return the capacity of the gstr `g'. */
+size_t
+(gstr_cap)(gstr * g)
+{
+    return g ? g->cap : 0;
+}
+
+
+/*
+ * Unbind the underlying string from the gstr and return it.
+ */
+char *
+gstr_finalize(gstr * g)
+{
+    assert(g);
+
+    char * str = g->str;
+
+    g->str = 0;
+    g->len = 0;
+    g->cap = 0;
+    return str;
+}
+
+
 /* Remove leading and trailing white spaces from a string. */
 gstr*
 gstr_trim(gstr * g)
-- 
2.43.0


From 4b9f505041fc82b174ab0376778addcbcce1677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 034/162] fix: bits.h: characters above 127 stay inside the bit
 set

---
 src/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bits.h b/src/bits.h
index 094c722..44425b5 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -33,8 +33,8 @@ extern "C" {
 #define xword          uint32_t
 #define WORDBITS      (8 * sizeof(xword))
 #define BITVECTSIZE   (256 / WORDBITS)
-#define _word(c)      (((xword)(c)) / WORDBITS)
-#define _bitp(c)      (1 << (((xword)(c)) % WORDBITS))
+#define _word(c)      (((xword)(uint8_t)(c)) / WORDBITS)
+#define _bitp(c)      ((xword)1 << (((xword)(uint8_t)(c)) % WORDBITS))
 
 struct delim {
     xword    v[BITVECTSIZE];
-- 
2.43.0


From 497b05928356f5182fdebae5726ad584fd77041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 035/162] fix: escape: octal escapes are escaped once and fit
 characters above 127

---
 src/escape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..4289a03 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -80,7 +80,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", (unsigned char)c);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From a852b9cebc7f76194ccda7179b52a0c5eeb07ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 036/162] fix: unescape: hex digits above 9 have their value

---
 src/unescape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..2d9508e 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -234,12 +234,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
-- 
2.43.0


From a775361710be92a8d63b1915c2eb5d94e7d61084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 037/162] fix: pack: an unknown or missing type character is an
 error

---
 src/pack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..e4d1ab6 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -859,6 +859,8 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From d2f4291c6f412cf8ee9f25911549e65b883856a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 038/162] fix: pack: a count without a type is an error when
 packing too

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index e4d1ab6..edd7ddf 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -301,6 +301,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
-- 
2.43.0


From 9977274ca300dcc2446a5d8ac770dd8f7e4abd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 039/162] fix: pack: repeat counts larger than 32 bits are
 refused and cannot wrap the size check

---
 src/pack.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index edd7ddf..0a0550c 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -163,17 +163,14 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 
 // extract a length-prefix from 'fmt' starting with the digit in 'c'.
 #define __len_prefix(c, fmt) ({\
-                                const size_t max = ~((size_t)0) / 10;       \
+                                const size_t max = UINT32_MAX;              \
                                       size_t nn  = c - '0';                 \
                                 for (++fmt, c = *fmt; c; ++fmt) {           \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
-                                    if (nn > max ||                         \
-                                            (nn == max && v > (~((size_t)0) % 10))) {   \
-                                        return -E2BIG;                      \
-                                    }                                       \
                                     nn *= 10;                               \
                                     nn += v;                                \
+                                    if (nn > max) return -E2BIG;            \
                                 }                                           \
                                 nn;                                         \
                             })
@@ -290,7 +287,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && (num > (size_t)(pd->end - pd->ptr) / p->size))
            return -ENOSPC;
 
         c = p->pack(p, pd, num, arg);
@@ -392,7 +389,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && (num > (size_t)(pd->end - pd->ptr) / p->size))
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
-- 
2.43.0


From 80697b65e5268523001e82427dc284fd3d3b3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 040/162] fix: pack: a null string is packed as an empty one

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 0a0550c..6eaf32f 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -268,7 +268,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = 1 + (arg ? strlen((const char*)arg) : 0);
                 }
                 break;
 
-- 
2.43.0


From 1f63d6dac7b5a841588f9c55aade33d9b55fae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 041/162] fix: pack: unpacking a string does not read past the
 buffer

---
 src/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 6eaf32f..04c45f9 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -819,9 +819,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
-- 
2.43.0


From d24605a0811832558a66b374a18d779a9b850189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 042/162] fix: pack: unpacking a big-endian array reports out
 of memory

---
 src/pack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack.c b/src/pack.c
index 04c45f9..9195a9f 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -621,6 +621,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
-- 
2.43.0


From 1c165dcef7b618ce6b91214ac4cc62ea65b3c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 043/162] fix: pack: a pad character without a count is one pad
 byte

---
 src/pack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 9195a9f..574d7a9 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -258,6 +258,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         switch (c) {
             case 'x':
+                if (0 == num) num = 1;
                 break;  // do NOT consume an arg!
 
             case 'z':   // fallthrough
@@ -369,6 +370,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (0 == num) num = 1;
                 break;
 
             default:
-- 
2.43.0


From 1707431375351955f841c3dee00602d8e7a2d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 044/162] fix: pack: an array with a run-time count of one is
 packed from the array

---
 src/pack.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 574d7a9..9847f41 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -278,6 +278,17 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 if (have_vnum) {
                     num = vnum;
                     if (0 == num) goto next;
+
+                    // a counted element is always an array, also
+                    // when it holds just one item.
+                    if (1 == num) {
+                        switch (p->size) {
+                            case 1: arg = (void *)(uintptr_t)*(uint8_t *)arg;  break;
+                            case 2: arg = (void *)(uintptr_t)*(uint16_t *)arg; break;
+                            case 4: arg = (void *)(uintptr_t)*(uint32_t *)arg; break;
+                            case 8: arg = (void *)(uintptr_t)*(uint64_t *)arg; break;
+                        }
+                    }
                 } else {
                     // All other types need _atleast_ one arg.
                     // zero-length strings with no VLA will get an
-- 
2.43.0


From 5189f4aa09875e04fbfbf16d06aab71072bae133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 045/162] fix: pack: single floats and doubles are taken from
 their own arguments

---
 src/pack.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 9847f41..c7ae603 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -273,6 +273,24 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 }
                 break;
 
+            case 'f':
+            case 'D':
+                // a single float or double is passed by value and
+                // not as a pointer or an integer.
+                if (!have_vnum && num <= 1) {
+                    const double d = va_arg(ap, double);
+                    const float  f = d;
+                    uint32_t u32;
+                    uint64_t u64;
+
+                    memcpy(&u32, &f, sizeof u32);
+                    memcpy(&u64, &d, sizeof u64);
+                    arg = (void *)(uintptr_t)(c == 'f' ? u32 : u64);
+                    num = 1;
+                    break;
+                }
+                // fallthrough
+
             default:
                 arg = va_arg(ap, void *);
                 if (have_vnum) {
-- 
2.43.0


From ea35a8971edfd1848eac1e9b27252cd9a4d17964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 046/162] fix: pack: 'd' is a double as documented

---
 src/pack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index c7ae603..708e0b4 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -31,7 +31,7 @@
  *       i, I:    signed, unsigned 32-bit integer
  *       l, L:    signed, unsigned 64-bit integer
  *       f:       32-bit IEEE float
- *       D:       64-bit IEEE float
+ *       d, D:    64-bit IEEE float
  *       x:       padding (adds/consumes 0x0 bytes) without
  *                consuming input args.
  *       z, Z:    null-terminated string
@@ -274,6 +274,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 break;
 
             case 'f':
+            case 'd':
             case 'D':
                 // a single float or double is passed by value and
                 // not as a pointer or an integer.
@@ -936,6 +937,7 @@ static const packer le_packers[] = {
     _x('L', 8, le_l_pack, le_l_unpack),
 
     _x('f', 4, le_i_pack, le_i_unpack),
+    _x('d', 8, le_l_pack, le_l_unpack),
     _x('D', 8, le_l_pack, le_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
@@ -960,6 +962,7 @@ static const packer be_packers[] = {
     _x('L', 8, be_l_pack, be_l_unpack),
 
     _x('f', 4, be_i_pack, be_i_unpack),
+    _x('d', 8, be_l_pack, be_l_unpack),
     _x('D', 8, be_l_pack, be_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
-- 
2.43.0


From 8e925052eff61a109bd838a831fc25da69c104c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 047/162] fix: base64: encoding into a buffer that is too small
 is refused

---
 src/b64_encode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..44af217 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stdint.h>
 #include <assert.h>
 #include "utils/base64.h"
 
@@ -125,7 +126,11 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    // 4 chars for every 3 bytes, a newline for every full line, one
+    // in the end and the trailing null.
+    const int64_t nquads = ((int64_t)srclen + 2) / 3;
+    const int64_t nlines = nquads / (CHARS_PER_LINE/4);
+    if (destlen < (nquads * 4 + nlines + 2))
         return -ENOMEM;
 
     base64_encode_init(&state);
-- 
2.43.0


From 88c5df73cfd6e8a51c132b244cfaad716aea9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 048/162] fix: base64: '{' is not a base64 character

---
 src/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..1b63a8e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
-- 
2.43.0


From d8d5c34be91f8cf5ba68b2ce9e99242229d8e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 049/162] fix: base64: decoding into a buffer that is too small
 is refused

---
 src/b64_decode.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 1b63a8e..5cf5f69 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -41,7 +41,7 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
     char* plainchar      = plaintext_out;
     char fragment;
 
-    *plainchar = state_in->plainchar;
+    if (state_in->step != step_a) *plainchar = state_in->plainchar;
 
     switch (state_in->step)
     {
@@ -52,7 +52,7 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = 0;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
@@ -106,7 +106,14 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    int i, n = 0;
+
+    // every base64 character holds 6 bits
+    for (i = 0; i < srclen; i++) {
+        if (base64_decode_value(src[i]) >= 0) n++;
+    }
+
+    if (destlen < (n - (n / 4))) return -ENOMEM;
 
     base64_decode_init(&state);
 
-- 
2.43.0


From bdb726eabc39a5f53ecaec88457df3ee4ace1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 050/162] fix: hexdump: a failure to write is reported as a
 negative error

---
 src/hexdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..6648f35 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -64,7 +64,7 @@ __fp_writer(void *ctx, const char *buf, size_t n)
     FILE *fp = ctx;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From 03e59b0f6cc50d50f9d9472610d4d7c917608309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:10 +0000
Subject: [PATCH 051/162] fix: pack: repeat counts of more than one digit are
 accepted

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 708e0b4..553f90a 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -165,7 +165,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 #define __len_prefix(c, fmt) ({\
                                 const size_t max = UINT32_MAX;              \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (c = *++fmt; c; c = *++fmt) {           \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
                                     nn *= 10;                               \
-- 
2.43.0


From 27039974238701106fa76d727c2da47bc3de63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 052/162] fix: strtosize: every size that does not fit is
 reported

---
 src/strtosize.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..5ac2b4c 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -180,11 +180,9 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
     }
 
-    uint64_t res = v * mult;
+    if (mult > 0 && v > (_u(~0) / mult)) return -ERANGE;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
-
-    if (ret) *ret = res;
+    if (ret) *ret = v * mult;
     return 0;
 }
 
-- 
2.43.0


From 8db6d3b7c5af96cba4ae5acd6a63c8fcb90be70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 053/162] fix: strtosize: accept the documented suffix for
 bytes

---
 src/strtosize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strtosize.c b/src/strtosize.c
index 5ac2b4c..f7b531b 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':
+                if (*endptr && !isspace(*endptr)) return -EINVAL;
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
-- 
2.43.0


From 0ebb49dee67d19805e57a008d0d892695e705c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 054/162] fix: strtosize: text after the suffix is refused

---
 src/strtosize.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index f7b531b..d77efde 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -173,15 +173,18 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
 
         switch (*endptr) {
-            case 0:
             case 'B':
+                ++endptr;
                 break;
             case 'b':
                 mult /= 8;
+                ++endptr;
                 break;
             default:
-                if (!isspace(*endptr)) return -EINVAL;
+                break;
         }
+
+        if (*endptr && !isspace(*endptr)) return -EINVAL;
     }
 
     if (mult > 0 && v > (_u(~0) / mult)) return -ERANGE;
-- 
2.43.0


From d670cafc0948aef167b494ecddf94509b83d5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 055/162] fix: humanize: the fraction is a decimal fraction of
 the unit

---
 src/humanize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..1246b99 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,10 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // m < 1EB; so, multiplying by 10 can't overflow.
+                const unsigned int d0 = (m * 10) / p->sz,
+                                   d1 = (((m * 10) % p->sz) * 10) / p->sz;
+                snprintf(buf, bufsize, "%" PRIu64 ".%u%u %s", n, d0, d1, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From f1a5243e3f2c70bb3eea4c0b05ad515ff3ad4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 056/162] fix: strunquote: find the ending quote at the end of
 the string

---
 src/strunquote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..d111cae 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -42,9 +42,9 @@ strunquote(char* s, char** p_ret)
     if (q != '"' && q != '\'') return 0;
 
     int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    if (n < 1 || s[n] != q) return -1;
 
-    s[--n] = 0;
+    s[n] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From ead7e90ba861502ae0da13e69a7e11353d399dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 057/162] fix: strsplit_csv: an open quote is an error also
 when nothing follows it

---
 src/strsplit_csv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..76c53c5 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -126,8 +126,9 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
         }
     }
 
+    if (q) return -EINVAL;
+
     if (sub != p) {
-        if (q)            return -EINVAL;
         if (k == sv_size) return -ENOSPC;
 
         *p++ = 0;
-- 
2.43.0


From 4e1170ef234370905b9a9ba2a0e674435506ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 058/162] fix: strsplit: an array without slots is full

---
 src/strsplit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..4f15de9 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -111,7 +111,7 @@ static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->cap <= 0)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From 6ee013f4a700cddf7f63b37709d776c2e1504d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 059/162] fix: strsplitargs: quotes inside a word do not lose a
 character

---
 src/splitargs.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..d469088 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -56,9 +56,10 @@ strsplitargs(char **args, size_t n, char *s)
     int i = 0;
     int k = n;
     int inquote = 0;
-    int eow = 0;
+    int inword  = 0;
 
     char *p = s;    // start of substring
+    char *d = s;    // where the next char of the substring goes
 
 #define ADDARG(z)   do {\
                         if (k == 0) return -ENOSPC;\
@@ -69,38 +70,43 @@ strsplitargs(char **args, size_t n, char *s)
     for (; (c = *s); s++) {
         if (inquote) {
             if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
                 inquote = 0;
+            } else {
+                // we consume everything inside the quotes.
+                *d++ = c;
             }
-
-            // regardless, we consume everything inside the quotes.
             continue;
         }
 
         if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
+            if (inword) {
+                *d = 0;
+                ADDARG(p);
+                inword = 0;
+            }
             continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
+        // either c is a quote-char or a non-ws char. In either
+        // case, this is a new word if we are not in one.
+        if (!inword) {
+            p = d  = s;
+            inword = 1;
         }
 
-        // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
+        if (c == '"' || c == '\'') {
+            inquote = c;
+        } else {
+            *d++ = c;
         }
     }
 
     if (inquote) return -EINVAL;    // no ending quote
 
-    if (*p) ADDARG(p);
+    if (inword) {
+        *d = 0;
+        ADDARG(p);
+    }
 
     return i;   // total number of arguments
 }
-- 
2.43.0


From 5927d2594e205ae879faa7d0d55a76f63af664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 060/162] fix: parse-ip: malformed octets and masks are refused

---
 src/parse-ip.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..f0d495b 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -53,9 +53,14 @@ dtoi(size_t* pn, const char* s)
     size_t n = 0;
     int c;
 
+    if (!*s) return 0;
+
     for (; (c = *s); ++s) {
         if (!isdigit(c)) return 0;
 
+        // no number in an address or mask is this big
+        if (n > 0xffff)  return 0;
+
         n = n * 10 + (c - '0');
     }
 
@@ -92,9 +97,9 @@ parse_ipv4(uint32_t* p_z, const char* sx)
 
     for (s = sx; (c = *s); ++s) {
         if (n > 3) return 0;
-        if (m > 3) return 0;
 
         if (c != '.') {
+            if (m > 2) return 0;
             x[m++] = c;
             continue;
         }
@@ -110,18 +115,16 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    if (n != 3) return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
 
-    if (n < 4) return 0;
+    p[n] = z & 0xff;
 
     *p_z = dec_BE_u32(p);
     return 1;
@@ -152,7 +155,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) <= 0)  return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
-- 
2.43.0


From 7bb7048a8e55f847cf37ae18962519afc5a11ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 061/162] fix: parse-ip: a mask of length zero is no mask bits

---
 src/parse-ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index f0d495b..7d61808 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -172,7 +172,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z > 0 ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From 7e14767431afc171d0ea93fa30ee750209d428eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 062/162] fix: uuid: text with too many digits is refused and
 not written past the buffer

---
 src/uuid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..4a51c78 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -70,6 +70,8 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0) return -EINVAL;  // too many hex digits
+
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From a7414ad9d3a216fca0246d12f54533e633014f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 063/162] fix: uuid: a failure of the random source is reported

---
 src/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uuid.c b/src/uuid.c
index 4a51c78..c2b53fb 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -29,7 +29,7 @@ uuid_generate(uint8_t *buf, size_t bsiz)
     if (bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
-- 
2.43.0


From cde2dd66caac8fe5fb0896ec332ea9987e048674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 064/162] fix: ulid: the timestamp is in the generated id

---
 src/ulid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..8fb0904 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,12 +46,12 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
 
     getentropy(buf, 10);
     return 16;
-- 
2.43.0


From 68af75047c8d8f7edf21ccf8e9d6b30a555464df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 065/162] fix: ulid: a failure of the random source is reported

---
 src/ulid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index 8fb0904..422f8e4 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -53,7 +53,7 @@ ulid_generate(uint8_t *buf, size_t bsiz)
     *buf++ = 0xff & (ms >>  8);
     *buf++ = 0xff & ms;
 
-    getentropy(buf, 10);
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
-- 
2.43.0


From 988633cc4aa53f520d57d896601bb4adc3ad685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 066/162] fix: ulid: the text form has all bits of the third
 byte

---
 src/ulid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index 422f8e4..81d0f44 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -146,7 +146,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From 0251fe9ada5d2ab56cd939e0c7c47b9f819683aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 067/162] fix: ulid: text that does not fit in 128 bits is
 refused

---
 src/ulid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ulid.c b/src/ulid.c
index 81d0f44..caf9406 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // the first char can only hold three bits
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
-- 
2.43.0


From 1eb5b6c0b90a439761c8f45308d4679fd4877c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 068/162] fix: strmatch: KMP finds overlapping matches too

---
 inc/utils/strmatch.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index d8cc873..e008071 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -159,21 +159,20 @@ kmp_search<T>::matchall(const  T * text, int textlen)
 {
     std::vector<int> r;
 
-    int off = 0;
-    while(textlen > 0)
-    {
-        std::pair<bool, int> m = match(text, textlen);
-        if ( !m.first )
-            break;
-
-        int consume  = m.second + m_patlen; // nbytes to consume
-        int matchoff = off + m.second;      // offset relative to start of text
-
-        text        += consume;
-        textlen     -= consume;
-        off         += consume;
+    int i,
+        q = 0;
 
-        r.push_back(matchoff);
+    for (i = 0; i < textlen; i++)
+    {
+        while (q > 0 && !traits_type::eq(m_pat[q], text[i]))
+            q = m_prefix_tab[q - 1];
+        if ( traits_type::eq(m_pat[q], text[i]) )
+            q++;
+        if (q == m_patlen)
+        {
+            r.push_back(i + 1 - m_patlen);
+            q = m_prefix_tab[q - 1];        // matches can overlap
+        }
     }
     return r;
 }
-- 
2.43.0


From 5b87c52c82cfa87c79380d78f2ad5115103b34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 069/162] fix: strmatch: Boyer-Moore works with characters
 above 127

---
 inc/utils/strmatch.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index e008071..e0849d9 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -188,6 +188,7 @@ public:
     typedef std::char_traits<T>             traits_type;
     typedef typename traits_type::char_type char_type;
 #define _bm_alphabet_size       (1 << (sizeof(char_type) * 8))
+#define _bm_index(c)            ((c) & (_bm_alphabet_size - 1))
 
     boyer_moore_search(const T * pat, int patlen);
     ~boyer_moore_search();
@@ -239,7 +240,7 @@ template<typename T> void boyer_moore_search<T>::calc_bad_char()
         m_bad_char[i] = m_patlen;
 
     for (i = 0; i < m1; i++)
-        m_bad_char[m_pat[i]] = m1 - i;
+        m_bad_char[_bm_index(m_pat[i])] = m1 - i;
 }
 
 template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>& suff)
@@ -346,7 +347,7 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
             j += m_good_shift[0];
         }
         else
-            j += std::max(m_good_shift[i], m_bad_char[text[i+j]] - m_patlen + 1 + i);
+            j += std::max(m_good_shift[i], m_bad_char[_bm_index(text[i+j])] - m_patlen + 1 + i);
     }
 
     return r;
@@ -389,7 +390,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         {
             v           = m_patlen - 1 - i;
             turbo_shift = u - v;
-            bc_shift    = m_bad_char[text[i+j]] - m_patlen + 1 + i;
+            bc_shift    = m_bad_char[_bm_index(text[i+j])] - m_patlen + 1 + i;
             shift       = std::max(turbo_shift, bc_shift);
             shift       = std::max(shift, m_good_shift[i]);
             if (shift == m_good_shift[i])
-- 
2.43.0


From ab69329755e32dd6dd2c788bebc5d0c6253f4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 070/162] fix: strmatch: Rabin-Karp stays inside the text and
 works with long patterns

---
 inc/utils/strmatch.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index e0849d9..abb164b 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -466,14 +466,16 @@ template<typename T> std::vector<int>
 rabin_karp_search<T>::matchall(const T * text, int textlen)
 {
 #define _rehash(a,b,h)   ((((h) - ((a) * d)) << 1) + (b))
-    int d, i, j, q,
-        h_pat, h_txt;
-
+    int i, j, q;
+    unsigned int d, h_pat, h_txt;
 
     std::vector<int> r;
 
-    // compute d = 2^(m-1)
-    d = 1 << (m_patlen-1);
+    if (textlen < m_patlen)
+        return r;
+
+    // compute d = 2^(m-1) modulo 2^32
+    d = m_patlen <= 32 ? 1u << (m_patlen-1) : 0;
     for (h_pat = h_txt = i = 0; i < m_patlen; ++i)
     {
         h_pat = (h_pat << 1) + m_pat[i];
@@ -488,7 +490,8 @@ rabin_karp_search<T>::matchall(const T * text, int textlen)
         {
             r.push_back(j);
         }
-        h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
+        if (j < q)
+            h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
         ++j;
     }
 
-- 
2.43.0


From ac4b31173981114185cb7ada521aa489ae175b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 071/162] fix: byteorder: balance the parentheses of the
 constant conversions

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From 325762b81253cfe2ca96d81dbfe52e02564681d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 072/162] fix: getopt_long: optind of zero forgets an
 unfinished scan

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..4b72d68 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -185,7 +185,7 @@ getopt_internal(int nargc, char * const *nargv, const char *options)
      * XXX properly function again.  Work around this braindamage.
      */
     if (optind == 0)
-        optind = 1;
+        optind = optreset = 1;
 
     if (optreset)
         nonopt_start = nonopt_end = -1;
-- 
2.43.0


From 1faef0d90d3e4d583392e230378bd1db49845617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 073/162] fix: getopt_long: an exact match wins over an
 ambiguous abbreviation

---
 src/getopt_long.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 4b72d68..b512ed5 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -355,10 +355,11 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, nambig;
 
         current_argv = place;
-        match = -1;
+        match  = -1;
+        nambig = 0;
 
         optind++;
         place = EMSG;
@@ -392,19 +393,22 @@ getopt_long(int nargc, char * const *nargv, const char *options,
             if (strlen(long_options[i].name) ==
                 (unsigned)current_argv_len) {
                 /* exact match */
-                match = i;
+                match  = i;
+                nambig = 0;
                 break;
             }
             if (match == -1)        /* partial match */
                 match = i;
-            else {
-                /* ambiguous abbreviation */
-                if (PRINT_ERROR)
-                    warnx(ambig, (int)current_argv_len,
-                         current_argv);
-                optopt = 0;
-                return BADCH;
-            }
+            else
+                nambig++;           /* unless there is an exact match */
+        }
+        if (nambig > 0) {
+            /* ambiguous abbreviation */
+            if (PRINT_ERROR)
+                warnx(ambig, (int)current_argv_len,
+                     current_argv);
+            optopt = 0;
+            return BADCH;
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From 278d7722a7d64c99b0a4fe1aae6f994271c47d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 074/162] fix: getopt_long: the argument of an option is one of
 the arguments

---
 src/getopt_long.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index b512ed5..5459f4f 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -436,7 +436,9 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                      * optional argument doesn't use
                      * next nargv
                      */
-                    optarg = nargv[optind++];
+                    if (optind < nargc)
+                        optarg = nargv[optind];
+                    optind++;
                 }
             }
             if ((long_options[match].has_arg == required_argument)
-- 
2.43.0


From e695990c2a3e80594a1d3eaf3d764820ca20dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 075/162] fix: getopt_long: a colon after the leading + or -
 silences messages too

---
 src/getopt_long.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 5459f4f..7eee949 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -57,8 +57,7 @@ int optreset;/* reset getopt */
 
 
 #define IGNORE_FIRST        (*options == '-' || *options == '+')
-#define PRINT_ERROR         ((opterr) && ((*options != ':') \
-                                || (IGNORE_FIRST && options[1] != ':')))
+#define PRINT_ERROR         ((opterr) && (options[IGNORE_FIRST ? 1 : 0] != ':'))
 #define IS_POSIXLY_CORRECT  (getenv("POSIXLY_CORRECT") != NULL)
 #define PERMUTE             (!IS_POSIXLY_CORRECT && !IGNORE_FIRST)
 
-- 
2.43.0


From ecbd82476d9133137ead72ea02b6512e4083a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 076/162] fix: strmatch: turbo Boyer-Moore does not skip over
 matches

---
 inc/utils/strmatch.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index abb164b..08e460d 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -397,8 +397,9 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
                 u = std::min(m_patlen - shift, v);
             else
             {
-                if (turbo_shift < bc_shift)
-                    shift = std::max(shift, u+1);
+                // Don't widen the shift to u+1 here: that is only
+                // valid if the factor is a whole matched suffix; it
+                // may be a border of the pattern.
                 u = 0;
             }
         }
-- 
2.43.0


From ad579450e6f2af1f9f45f0268a46f7558e232460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 077/162] fix: freadline: keep an unterminated last line, leave
 room for the NUL, report read errors

---
 src/freadline.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..872dcc9 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -35,11 +35,13 @@ freadline(FILE* fp, unsigned char * str, int n)
     while (1)
     {
         int c = fgetc(fp);
-        if (c == EOF)
-            return 0;
+        if (c == EOF) {
+            if (ferror(fp))
+                return -errno;
 
-        if (ferror(fp))
-            return -errno;
+            // the last line may not have a line break
+            break;
+        }
 
         if (c == '\r')
         {
@@ -52,12 +54,16 @@ freadline(FILE* fp, unsigned char * str, int n)
         else if (c == '\n')
             break;
 
-        if (str == end)
+        // always leave room for the terminating NUL
+        if (str + 1 >= end)
             return -ENOSPC;
 
         *str++ = c;
     }
 
+    if (str >= end)
+        return -ENOSPC;
+
     *str = 0;
     return str - (end - n);
 }
-- 
2.43.0


From 3abf884fd0d578794d133084e8ff393cfe0d8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 078/162] fix: arc4random: a large request does not wrap the
 reseed counter

---
 src/arc4random.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..1ed8a9d 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,11 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    // A large request uses up all that one stir allows
+    if (st->rs_count <= len)
+        st->rs_count = 0;
+    else
+        st->rs_count -= len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From c6de3e946cf99dc59024c5bcdfcf7e7601b6725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 079/162] fix: rotatefile: a file exceeds a size in MB also by
 less than a MB

---
 src/rotatefile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..76e292f 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -85,8 +85,10 @@ rotate_filename_by_size(const char *filename, int nsaved,
     }
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
-    uint64_t actual_size = st.st_size / 1048576;
-    if (actual_size > size_mb)
+    // size_mb * 1048576 may not fit in 64 bits
+    uint64_t actual_size = st.st_size;
+    uint64_t actual_mb   = actual_size / 1048576;
+    if (actual_mb > size_mb || (actual_mb == size_mb && (actual_size % 1048576) > 0))
         return rotate_filename(filename, nsaved, flags);
 
     return 0;
-- 
2.43.0


From ac6be8ecf522554e464af7c21c4eac40d90ad26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 080/162] fix: rotatefile: refuse names too long to form the
 names of the copies

---
 src/rotatefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index 76e292f..e088faa 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -38,6 +38,10 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 
     (void)flags;
 
+    // Make sure that none of the names we form below are truncated
+    r = snprintf(f1, sizeof f1, "%s.%d", filename, nsaved+100);
+    if (r < 0 || (size_t)r >= sizeof f1) return -ENAMETOOLONG;
+
     // Delete older files upto a max of 100 extra files
     delete_old(filename, nsaved, nsaved+100);
 
-- 
2.43.0


From 0bbdc01a86dcf83eaddb03c6ab880e218d9f8c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 081/162] fix: rotatefile.h: close the extern C block

---
 inc/utils/rotatefile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/rotatefile.h b/inc/utils/rotatefile.h
index 9f9ec23..b5c638a 100644
--- a/inc/utils/rotatefile.h
+++ b/inc/utils/rotatefile.h
@@ -53,7 +53,7 @@ extern int rotate_filename_by_size(const char* filename, int nsaved,
                     uint64_t size_mb, unsigned int flags);
 
 #ifdef __cplusplus
-extern "C" {
+}
 #endif
 
 #endif /* ! __ROTATEFILE_H_1186176198__ */
-- 
2.43.0


From 5767d6b66600939502c4d0b74d77dd5de187ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 082/162] fix: mkdirhier: trailing slashes and directories made
 by others at the same time are not errors

---
 src/mkdirhier.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..e783291 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -34,6 +34,24 @@ sep(const char* p)
 }
 
 
+// Make a directory; it is not an error if it is already there (eg
+// someone else just made it).
+static int
+mkdir1(const char* path, mode_t mode)
+{
+    struct stat st;
+
+    if (mkdir(path, mode) == 0)
+        return 0;
+
+    int err = errno;
+    if (err == EEXIST && 0 == stat(path, &st) && S_ISDIR(st.st_mode))
+        return 0;
+
+    errno = err;
+    return -err;
+}
+
 int
 mkdirhier(const char* path, mode_t mode)
 {
@@ -68,19 +86,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = mkdir1(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return mkdir1(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From 38bfe16ab633c83cd75148a33ce07617ae402803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 083/162] fix: dirname: empty path, tiny buffer and repeated
 separators

---
 src/dirname.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..2ab2076 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -20,11 +20,13 @@ const char *
 dirname(char *buf, size_t bsize, const char *p)
 {
     size_t n = strlen(p);
-    if (bsize < (n+1)) return 0;
+    if (bsize < (n+1) || bsize < 2) return 0;
 
     memcpy(buf, p, n);
     buf[n] = 0;
 
+    if (n == 0) goto slash;
+
     char *s = buf + n - 1;
 
     // skip trailing '/'
@@ -37,6 +39,10 @@ found:
     s[1] = 0;   // remove the last slash.
     for (; s > buf; s--) {
         if (*s == '/') {
+            // there may be more than one separator
+            while (s > buf && s[-1] == '/') s--;
+            if (s == buf) goto slash;
+
             *s = 0;
             return buf;
         }
-- 
2.43.0


From d93d7a328c99126c25b38647fc6998656c0721d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:22 +0000
Subject: [PATCH 084/162] fix: mmap: a failed constructor closes its descriptor

---
 src/posix/mmap.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 0b9bf17..b65991a 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -49,8 +49,11 @@ mmap_file::mmap_file(const string& fname, unsigned int flags)
         throw sys_exception(geterror(), "Can't open '%s'", fn());
 
     struct stat st;
-    if ( ::fstat(fd, &st) < 0 )
-        throw sys_exception(geterror(), "Can't query '%s'", fn());
+    if ( ::fstat(fd, &st) < 0 ) {
+        syserror err = geterror();
+        ::close(fd);
+        throw sys_exception(err, "Can't query '%s'", fn());
+    }
 
 
     m_filesize = st.st_size;
-- 
2.43.0


From 797dc29b318f2cc84241e9687aa5b8d44cebab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 085/162] fix: fts: a followed link to an empty directory does
 not end the walk, its descriptor is closed once

---
 src/fts.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..450b0a7 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -69,6 +69,7 @@ __RCSID("$NetBSD: fts.c,v 1.40 2009/11/02 17:17:34 stacktic Exp $");
 static FTSENT	*fts_alloc(FTS *, const char *, size_t);
 static FTSENT	*fts_build(FTS *, int);
 static void	 fts_free(FTSENT *);
+static void	 fts_symclose(FTSENT *);
 static void	 fts_lfree(FTSENT *);
 static void	 fts_load(FTS *, FTSENT *);
 static size_t	 fts_maxarglen(char * const *);
@@ -263,8 +264,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -377,8 +376,7 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
-				(void)close(p->fts_symfd);
+			fts_symclose(p);
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -502,12 +500,12 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
 			saved_errno = errno;
-			(void)close(p->fts_symfd);
+			fts_symclose(p);
 			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
-		(void)close(p->fts_symfd);
+		fts_symclose(p);
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
@@ -885,6 +883,8 @@ mem1:				saved_errno = errno;
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    (cur->fts_flags & FTS_SYMFOLLOW) ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
@@ -1077,9 +1077,20 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 	return (p);
 }
 
+/* Close the descriptor that leads back over a followed symlink. */
+static void
+fts_symclose(FTSENT *p)
+{
+	if (p->fts_flags & FTS_SYMFOLLOW) {
+		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
+	}
+}
+
 static void
 fts_free(FTSENT *p)
 {
+	fts_symclose(p);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From 99ec8c8268bd90551b40cff0164c5a523e948ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 086/162] fix: fts: closing before reading, and reading no
 arguments

---
 src/fts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 450b0a7..3d2f2c3 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -193,6 +193,8 @@ fts_open(char * const *argv, int options,
 	if ((sp->fts_cur = fts_alloc(sp, "", 0)) == NULL)
 		goto mem3;
 	sp->fts_cur->fts_link = root;
+	sp->fts_cur->fts_parent = parent;
+	sp->fts_cur->fts_level = FTS_ROOTLEVEL;
 	sp->fts_cur->fts_info = FTS_INIT;
 
 	/*
@@ -211,12 +213,10 @@ fts_open(char * const *argv, int options,
 		}
 	}
 
-	if (nitems == 0)
-		fts_free(parent);
-
 	return (sp);
 
 mem3:	fts_lfree(root);
+	free(sp->fts_array);
 	fts_free(parent);
 mem2:	free(sp->fts_path);
 mem1:	free(sp);
-- 
2.43.0


From a53c427f9f1721f0d658e674bc417c7fd3313086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 087/162] fix: mpmc queue: the size is between zero and the
 capacity while threads wait

---
 inc/fast/mpmc_bounded_queue.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..bdc9a53 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -133,12 +133,11 @@ __mpmc_q_len(__mpmc_q *q) {
     uint64_t hd = atomic_load_explicit(&q->head, memory_order_relaxed),
              tl = atomic_load_explicit(&q->tail, memory_order_relaxed);
 
-    if (hd < tl) {
-        // wraparound
-        uint64_t diff = ~((uint64_t)0) - tl;
-        return diff + hd;
-    }
-    return (size_t)(hd - tl);
+    // Waiting consumers are ahead of 'head', and waiting producers
+    // are further ahead of 'tail' than the queue is long.
+    uint64_t n = hd - tl;
+    if ((int64_t)n < 0) return 0;
+    return (size_t)(n < q->sz ? n : q->sz);
 }
 
 // best effort - since we have concurrent readers/writers
-- 
2.43.0


From 5f0ef399996aec935149981d9f7b0dd1b854685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 088/162] fix: mpmc queue: MPMC_QUEUE_CAP compiles

---
 inc/fast/mpmc_bounded_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index bdc9a53..f4c9dfd 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -344,7 +344,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 701ad74eb6e76673ecf402052580ace9054a0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 089/162] fix: mpmc queue: MPMC_QUEUE_RESET compiles

---
 inc/fast/mpmc_bounded_queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index f4c9dfd..f9ba210 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -224,12 +224,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
-- 
2.43.0


From 14c4f85a9eccc471ce98f74b64312007bbf809a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:43 +0000
Subject: [PATCH 090/162] fix: ringbuf: a thread that sees slots reserved also
 sees the other end's index they were reserved by

---
 inc/fast/ringbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/ringbuf.h b/inc/fast/ringbuf.h
index 2328e27..beb517f 100644
--- a/inc/fast/ringbuf.h
+++ b/inc/fast/ringbuf.h
@@ -457,7 +457,7 @@ __rte_ring_mp_do_enqueue(struct rte_ring *r, void * const *obj_table,
         prod_next = prod_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->prod.head, &prod_head,
                              prod_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (unlikely(success == 0));
 
     /* write entries in ring */
@@ -594,7 +594,7 @@ __rte_ring_mc_do_dequeue(struct rte_ring *r, void **obj_table,
         cons_next = cons_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->cons.head, &cons_head,
                              cons_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (likely(success == 0));
 
 
-- 
2.43.0


From 1e18af5535a9ae1d610fcbbc472581caab39d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 091/162] fix: syncq: a wait interrupted by a signal is resumed

---
 inc/fast/syncq.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..b93503e 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -25,6 +25,7 @@ extern "C" {
 #endif /* __cplusplus */
 
 #include <stdint.h>
+#include <errno.h>
 #include <assert.h>
 #include <semaphore.h>
 #include <pthread.h>
@@ -109,7 +110,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notfull); \
+                                    while (sem_wait(&s_->notfull) != 0 && errno == EINTR) ; \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
@@ -126,7 +127,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_DEQ(q0)      ({\
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notempty); \
+                                    while (sem_wait(&s_->notempty) != 0 && errno == EINTR) ; \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t r_ = s_->rd++;\
                                     if (s_->rd == s_->sz) s_->rd = 0;\
-- 
2.43.0


From 16c87c642081ce80f5bb92429396d13b4e4b249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 092/162] fix: syncq: a failed initialization reports the error
 and releases what it made

---
 inc/fast/syncq.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b93503e..3382a4f 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -73,9 +73,18 @@ __syncobj_init(__syncobj* s, size_t n)
 {
     int r;
 
-    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -errno;
-    if ((r = sem_init(&s->notempty, 0, 0)) != 0)     return -errno;
-    if ((r = sem_init(&s->notfull,  0, n)) != 0)     return -errno;
+    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -r;
+    if (sem_init(&s->notempty, 0, 0) != 0) {
+        r = errno;
+        pthread_mutex_destroy(&s->lock);
+        return -r;
+    }
+    if (sem_init(&s->notfull,  0, n) != 0) {
+        r = errno;
+        sem_destroy(&s->notempty);
+        pthread_mutex_destroy(&s->lock);
+        return -r;
+    }
 
     s->rd = s->wr = 0;
     s->sz = n;
-- 
2.43.0


From 895b99ab6c236e2866a457cb44759f9a0de6cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 093/162] fix: job: define job_manager_destroy as declared

---
 src/posix/job.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index 33f8bb8..fecae6b 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -137,7 +137,7 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
  * for all threads to exit.
  */
 void
-job_manager_cleanup(job_manager* jm)
+job_manager_destroy(job_manager* jm)
 {
     SYNCQ_FINI(&jm->q);
     sem_destroy(&jm->done);
-- 
2.43.0


From 254ead2fd1d9ef547d2ce3fbbe131df970ff552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 094/162] fix: job: open the extern C block

---
 inc/posix/job.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/posix/job.h b/inc/posix/job.h
index d5203d4..7a18778 100644
--- a/inc/posix/job.h
+++ b/inc/posix/job.h
@@ -37,7 +37,7 @@
 #include "fast/syncq.h"
 
 #ifdef __cplusplus
-extern "C"
+extern "C" {
 #endif
 
 
-- 
2.43.0


From b2c29bbae23d26a30a81bbf418b7cc2ef9bf37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 095/162] fix: job: a wait for the workers interrupted by a
 signal is resumed

---
 src/posix/job.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index fecae6b..8346cd3 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -170,7 +170,8 @@ job_manager_wait(job_manager* jm)
     {
         /* Flag each thread that there are no more jobs. */
         job_manager_submit_job(jm, 0);
-        sem_wait(&jm->done);
+        while (sem_wait(&jm->done) != 0 && errno == EINTR)
+            ;
         rem--;
     }
 
-- 
2.43.0


From 74b8b5459dba6c5834de5ffde75d59d2aedca6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 096/162] fix: job: a failed initialization ends the workers it
 started and releases everything

---
 src/posix/job.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index 8346cd3..29311c6 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -98,14 +98,23 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     jm->threads  = NEWZA(job_context, nthreads);
+    if (!jm->threads) return -ENOMEM;
+
     jm->nthreads = nthreads;
 
 
     r = SYNCQ_INIT(&jm->q, JOB_MAX);
-    if (r != 0) return r;
+    if (r != 0) {
+        DEL(jm->threads);
+        return r;
+    }
 
-    if ((r = sem_init(&jm->done, 0, 0)) != 0)
-        return -errno;
+    if ((r = sem_init(&jm->done, 0, 0)) != 0) {
+        r = -errno;
+        SYNCQ_FINI(&jm->q);
+        DEL(jm->threads);
+        return r;
+    }
 
 
     /*
@@ -124,6 +133,11 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         if ((r = pthread_create(&t->id, 0, thread_func, t)) != 0)
         {
             error(0, r, "job manager coulnd't create thread-%d", i);
+
+            /* End the threads that did start. */
+            jm->nthreads = i;
+            job_manager_wait(jm);
+            job_manager_destroy(jm);
             return -r;
         }
     }
-- 
2.43.0


From f33449b9003f77b3a35843cdb5df003961c625a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 097/162] fix: work: define work_manager_destroy as declared

---
 src/posix/work.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/posix/work.c b/src/posix/work.c
index dd9811a..1ef9038 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -145,8 +145,8 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
  * Delete and destroy a work manager. Caller's responsibility to wait
  * for all threads to exit.
  */
-void
-work_manager_cleanup(work_manager* wm)
+int
+work_manager_destroy(work_manager* wm)
 {
     int i;
 
@@ -159,6 +159,7 @@ work_manager_cleanup(work_manager* wm)
 
     sem_destroy(&wm->done);
     DEL(wm->ctx);
+    return 0;
 }
 
 
-- 
2.43.0


From 3a086299caaf6d1377646976a56ca3cbca73c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 098/162] fix: work: destroy the lock along with the manager

---
 src/posix/work.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/posix/work.c b/src/posix/work.c
index 1ef9038..d4f3551 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -158,6 +158,7 @@ work_manager_destroy(work_manager* wm)
     }
 
     sem_destroy(&wm->done);
+    pthread_mutex_destroy(&wm->lock);
     DEL(wm->ctx);
     return 0;
 }
-- 
2.43.0


From ae9d3f7d9c0f346f4209706dfbd638d2cf34fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 099/162] fix: work: a wait for the workers interrupted by a
 signal is resumed

---
 src/posix/work.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/posix/work.c b/src/posix/work.c
index d4f3551..2b032fa 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -208,7 +208,8 @@ work_manager_wait(work_manager* wm)
     /* wait for them to acknowledge */
     while (rem > 0)
     {
-        sem_wait(&wm->done);
+        while (sem_wait(&wm->done) != 0 && errno == EINTR)
+            ;
         rem--;
     }
 
-- 
2.43.0


From 410bff94859cf79cc06150c5db97d45f2d215c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 100/162] fix: work: a failed initialization ends the workers
 it started and releases everything

---
 src/posix/work.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/posix/work.c b/src/posix/work.c
index 2b032fa..0523750 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -106,16 +106,24 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     wm->ctx      = NEWZA(worker_context, nthreads);
+    if (!wm->ctx) return -ENOMEM;
+
     wm->nthreads = nthreads;
     wm->next     = 0;
 
 
-    if ((r = sem_init(&wm->done, 0, 0)) != 0)
-        return -errno;
+    if ((r = sem_init(&wm->done, 0, 0)) != 0) {
+        r = -errno;
+        DEL(wm->ctx);
+        return r;
+    }
 
 
-    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0)
+    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0) {
+        sem_destroy(&wm->done);
+        DEL(wm->ctx);
         return -r;
+    }
 
 
     /*
@@ -126,18 +134,28 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         worker_context* wc  = &wm->ctx[i];
 
         r = SYNCQ_INIT(&wc->q, WORK_MAX);
-        if (r != 0) return -errno;
+        if (r != 0) goto fail;
 
         wc->func    = func;
         wc->context = ctx;
         wc->cpunr   = i;
         wc->done    = &wm->done;
 
-        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0)
-            return -r;
+        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0) {
+            SYNCQ_FINI(&wc->q);
+            r = -r;
+            goto fail;
+        }
     }
 
     return nthreads;
+
+fail:
+    /* End the threads that did start. */
+    wm->nthreads = i;
+    work_manager_wait(wm);
+    work_manager_destroy(wm);
+    return r;
 }
 
 
-- 
2.43.0


From 4693fcbafd614c45251416d8593fc7f5494780b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 101/162] fix: splitmix: multiply the mixed value

---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From df0595326b74b03e1cca45ece0fa5a94ef1fe5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 102/162] fix: xorshift: the last shift of xorshift64* is to
 the right

---
 src/prng/xorshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..96fc13e 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -37,7 +37,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From a6416622fd9e38072092eeac384a3aeb48444fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 103/162] fix: murmur3: the tail does not depend on the last
 block

---
 src/hashfunc/murmur3_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..e6e86c4 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,6 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
+  k1 = 0;
 
   switch(len & 3)
   {
@@ -231,6 +232,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = k3 = k4 = 0;
 
     switch(len & 15)
     {
@@ -323,6 +325,8 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
+
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From 02d86de6dadf1a3dc51bb49a785b962c6e51e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 104/162] fix: murmur3: the second half of the 128-bit hash is
 not a copy of the first

---
 src/hashfunc/murmur3_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index e6e86c4..5a2d581 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -279,7 +279,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
-- 
2.43.0


From 749fa4ca4d7e4d749a868ad09892db69c7cc2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 105/162] fix: siphash: the hash of a stream does not depend on
 how it is split

---
 inc/utils/siphash.h      |  3 +++
 src/hashfunc/siphash24.c | 50 +++++++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/inc/utils/siphash.h b/inc/utils/siphash.h
index 7905c10..a7e4487 100644
--- a/inc/utils/siphash.h
+++ b/inc/utils/siphash.h
@@ -29,6 +29,9 @@ extern "C" {
 struct siphash24_state
 {
     uint64_t v0, v1, v2, v3;
+
+    uint64_t len;       // total number of bytes so far
+    uint8_t  buf[8];    // the last (len % 8) bytes: not yet hashed
 };
 typedef struct siphash24_state siphash24_state;
 
diff --git a/src/hashfunc/siphash24.c b/src/hashfunc/siphash24.c
index 7ebdeeb..516309d 100644
--- a/src/hashfunc/siphash24.c
+++ b/src/hashfunc/siphash24.c
@@ -48,6 +48,7 @@
 */
 
 #include <stdint.h>
+#include <string.h>
 #include "utils/siphash.h"
 
 #if defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && \
@@ -166,45 +167,42 @@ siphash24_init(siphash24_state* st, const uint64_t* key)
     st->v1 = k1 ^ 0x646f72616e646f6dULL;
     st->v2 = k0 ^ 0x6c7967656e657261ULL;
     st->v3 = k1 ^ 0x7465646279746573ULL;
+
+    st->len = 0;
 }
 
 void
 siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
 {
-    uint64_t b = ((uint64_t)src_sz) << 56;
-    const uint64_t *in = (uint64_t*)src;
+    const uint8_t *in = (const uint8_t*)src;
+    size_t have = st->len & 7;
 
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
 
+    if (src_sz == 0) return;
 
-    while (src_sz >= 8)
+    st->len += src_sz;
+
+    while (have + src_sz >= 8)
     {
-        uint64_t mi = _le64toh(*in);
-        in += 1; src_sz -= 8;
+        uint64_t mi;
+        size_t   n = 8 - have;
+
+        memcpy(&st->buf[have], in, n);
+        memcpy(&mi, st->buf, 8);
+        mi = _le64toh(mi);
+
+        in += n; src_sz -= n; have = 0;
         v3 ^= mi;
         DOUBLE_ROUND(v0,v1,v2,v3);
         v0 ^= mi;
     }
 
-    uint64_t t = 0; uint8_t *pt = (uint8_t *)&t; uint8_t *m = (uint8_t *)in;
-    switch (src_sz)
-    {
-        case 7: pt[6] = m[6]; // fallthrough
-        case 6: pt[5] = m[5]; // fallthrough
-        case 5: pt[4] = m[4]; // fallthrough
-        case 4: *((uint32_t*)&pt[0]) = *((uint32_t*)&m[0]); break;
-        case 3: pt[2] = m[2]; // fallthrough
-        case 2: pt[1] = m[1]; // fallthrough
-        case 1: pt[0] = m[0]; // fallthrough
-    }
-    b |= _le64toh(t);
-
-    v3 ^= b;
-    DOUBLE_ROUND(v0,v1,v2,v3);
-    v0 ^= b;
+    // keep the partial block until there is more or until the end
+    memcpy(&st->buf[have], in, src_sz);
 
     st->v0 = v0;
     st->v1 = v1;
@@ -220,6 +218,16 @@ siphash24_finish(siphash24_state* st)
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
+    uint64_t b  = st->len << 56;
+    size_t i;
+
+    /* last block: the remaining bytes and the total length */
+    for (i = 0; i < (st->len & 7); i++)
+        b |= (uint64_t)st->buf[i] << (8 * i);
+
+    v3 ^= b;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= b;
 
     v2 ^= 0xff;
     DOUBLE_ROUND(v0,v1,v2,v3);
-- 
2.43.0


From b9b9f7ededc98c278a9b6685585c78d35afdccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 106/162] fix: hashtab: lock: lookup, insert and remove hold
 the table's lock, so that the buckets are not resized under them

---
 src/hashtable/hashtab.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index f20fda5..4121010 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -208,10 +208,13 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
-    lockmgr_lock(&b->lock);
+    // The table lock keeps the buckets from being resized and guards
+    // the statistics.
+    lockmgr_lock(&tab->lock);
+
+    b     = &tab->buckets[hash & (tab->size -1)];
 
     SL_FOREACH(p, &b->head, link) {
         if (p->hash != hash)            continue;
@@ -223,9 +226,10 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
         break;
     }
 
-    lockmgr_unlock(&b->lock);
-
     if (!ret) ++tab->stats.failed_lookups;
+
+    lockmgr_unlock(&tab->lock);
+
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,11 +253,11 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
-    lockmgr_lock(&b->lock);
+    lockmgr_lock(&tab->lock);
 
+    b      = &tab->buckets[hash & (tab->size -1)];
     p_next = &SL_FIRST(&b->head);
     while ((p = *p_next)) {
         if (p->hash == hash && (0 == (*cmp)(key, p->data))) {
@@ -268,7 +272,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
         }
     }
 
-    lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
@@ -380,9 +384,11 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
-    hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
+    hash_bucket* b;
 
-    lockmgr_lock(&b->lock);
+    lockmgr_lock(&tab->lock);
+
+    b = &tab->buckets[hash & (tab->size-1)];
     SL_FOREACH(e, &b->head, link) {
         if (e->hash != hash)            continue;
         if (0 != (*cmp)(data, e->data)) continue;
@@ -428,14 +434,11 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     e->data = data;
     e->hash = hash;
     SL_INSERT_HEAD(&b->head, e, link);
-    lockmgr_unlock(&b->lock);
 
 
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -454,11 +457,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
             retval = resize(tab);
     }
 
-    lockmgr_unlock(&tab->lock);
-    return retval;
-
 _done:
-    lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
-- 
2.43.0


From d10aabe75b56ff196f98da2104a85901deda6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 107/162] fix: hashtab: insert succeeds also when the table
 cannot grow

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 4121010..3c2452e 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -454,7 +454,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            (void)resize(tab);  // the item is in, even if we cannot grow
     }
 
 _done:
-- 
2.43.0


From 7de21e4c50e1e722d97dd200cc6297557d227b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 108/162] fix: hashtab: a sorted iterator without memory is not
 created

---
 src/hashtable/hashtab_iter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index dd71904..347cd3f 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,11 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init && (*it->op->init)(it, param) == -ENOMEM) {
+        tFREE(tab, it);
+        it     = 0;
+        retval = -ENOMEM;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -340,6 +343,10 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) {
+        ok = -ENOMEM;
+        goto _done;
+    }
 
     nodes = sorted->nodes;
     n     = tab->size;
-- 
2.43.0


From 3bc1a1ec8308fa2f3d8b8cb774d90cf89f125f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 109/162] fix: lockmgr: define the null lock as declared

---
 src/posix/cmutex.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/posix/cmutex.c b/src/posix/cmutex.c
index fa3f471..08b0d4d 100644
--- a/src/posix/cmutex.c
+++ b/src/posix/cmutex.c
@@ -76,4 +76,13 @@ const lockmgr Mutex_locker =
     .dtor   = mutex_delete,
 };
 
+/* no locking at all */
+const lockmgr Null_locker =
+{
+    .create = 0,
+    .lock   = 0,
+    .unlock = 0,
+    .dtor   = 0,
+};
+
 /* EOF */
-- 
2.43.0


From c86c75a0b015c9dfa6d3ed1eb67cd366f1600226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 110/162] fix: gstring: report exhausted memory as documented

---
 src/gstring.c     | 33 ++++++++++++++++++++++-----------
 src/gstring_var.c | 16 +++++++++-------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index e9b3127..b7b9c2a 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -29,7 +29,9 @@
 static gstr* grow_if(gstr * g, int len);
 
 
-/* Grow the gstr by additional 'len' bytes -- if necessary. */
+/* Grow the gstr by additional 'len' bytes -- if necessary.
+ * Return 0 and leave 'g' as it was if there is no memory.
+ */
 static gstr*
 grow_if(gstr * g, int len)
 {
@@ -37,9 +39,12 @@ grow_if(gstr * g, int len)
 
     if (g->cap < want) {
         want   = NEXTPOW2(want);
-        g->str = RENEWA(char, g->str, want);
+
+        char * str = RENEWA(char, g->str, want);
+        if (!str) return 0;
+
+        g->str = str;
         g->cap = want;
-        assert(g->str);
     }
 
     return g;
@@ -53,7 +58,10 @@ __init_gstr(gstr *g, size_t n, const char *src)
 
     g->cap = NEXTPOW2(want+1);
     g->str = NEWZA(char, g->cap);
-    assert(g->str);
+    if (!g->str) {
+        g->len = g->cap = 0;
+        return 0;
+    }
 
     if (src) {
         memcpy(g->str, src, n+1);
@@ -123,7 +131,8 @@ __append(gstr* g, const char* str, size_t len)
     int    self = str >= g->str && str <= g->str + g->len;
     size_t off  = self ? str - g->str : 0;
 
-    g = grow_if(g, len+1);
+    if (!grow_if(g, len+1)) return -1;
+
     memmove(g->str + g->len, self ? g->str + off : str, len);
     g->len += len;
     g->str[g->len] = 0;
@@ -165,7 +174,7 @@ gstr_append_ch(gstr* g, int ch)
 {
     assert(g);
 
-    g = grow_if(g, 1);
+    if (!grow_if(g, 1)) return -1;
 
     g->str[g->len++] = ch;
     g->str[g->len]   = 0;
@@ -246,8 +255,8 @@ gstr_chop_if(gstr * g, const char * s)
 
 /* Copy 'src' to 'dest'.
  * Returns:
- *   On success: Number of bytes copied
- *   On failure: -1 if no memory
+ *   On success: dest
+ *   On failure: 0 if no memory; 'dest' is unchanged.
  */
 gstr*
 gstr_copy(gstr * dest, const gstr* src)
@@ -258,9 +267,9 @@ gstr_copy(gstr * dest, const gstr* src)
     assert(src);
 
     len = src->len;
-    dest->len = 0;
 
-    dest = grow_if(dest, len+1);
+    if (dest->len < len && !grow_if(dest, len - dest->len)) return 0;
+
     memcpy(dest->str, src->str, len+1);
     dest->len = len;
     return dest;
@@ -420,8 +429,10 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         if (len + 1 >= g->cap) {    // keep room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
-            if (!str)
+            if (!str) {
+                g->str[g->len = len] = 0;
                 return -ENOMEM;
+            }
 
             g->str = str;
             g->cap = newcap;
diff --git a/src/gstring_var.c b/src/gstring_var.c
index 94ce858..e02518f 100644
--- a/src/gstring_var.c
+++ b/src/gstring_var.c
@@ -27,7 +27,7 @@
  *     $VAR
  *     ${VAR}
  *
- * Return number of chars consumed.
+ * Return number of chars consumed, -ENOMEM if there is no memory.
  */
 static int
 getvar(gstr *v, char * s)
@@ -48,7 +48,7 @@ getvar(gstr *v, char * s)
         // We know that we have atleast two chars after the '$'
         for (i = 1; (c = s[i]); i++) {
             if (c == '}') return i+1;
-            gstr_append_ch(v, c);
+            if (gstr_append_ch(v, c) < 0) return -ENOMEM;
         }
 
         // didn't find a close brace. We skip the entire var
@@ -69,7 +69,7 @@ getvar(gstr *v, char * s)
                 if (!isalnum(c)) goto out;
                 break;
         }
-        gstr_append_ch(v, c);
+        if (gstr_append_ch(v, c) < 0) return -ENOMEM;
     }
 
 out:
@@ -84,6 +84,7 @@ out:
 //    0 on success
 //    -ENOENT if variable can't be found
 //    -EINVAL if string is malformed
+//    -ENOMEM if out of memory
 int
 gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cookie)
 {
@@ -91,8 +92,8 @@ gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cooki
     int r    = 0;
     gstr g, v;
 
-    gstr_init(&g, gstr_len(g0));
-    gstr_init(&v, 64);
+    if (!gstr_init(&g, gstr_len(g0))) return -ENOMEM;
+    if (!gstr_init(&v, 64)) { r = -ENOMEM; goto fail; }
 
     int c = 0,
         prev;
@@ -102,7 +103,7 @@ gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cooki
         const char* z;
 
         if (c != '$') {
-            gstr_append_ch(&g, c);
+            if (gstr_append_ch(&g, c) < 0) { r = -ENOMEM; goto fail; }
             continue;
         }
 
@@ -114,13 +115,14 @@ gstr_varexp(gstr* g0, const char * (*find)(void *, const char* key), void* cooki
 
         // This could be a var. Expand it.
         n = getvar(&v, s+1);
+        if (n < 0) { r = n; goto fail; }
         if (gstr_len(&v) == 0) { r = -EINVAL; goto fail; }
 
         // var is in 'v.str'. Look it up.
         z = (*find)(cookie, v.str);
         if (!z) { r = -ENOENT; goto fail; }
 
-        gstr_append_str(&g, z);
+        if (gstr_append_str(&g, z) == (size_t)-1) { r = -ENOMEM; goto fail; }
         s += n;
     }
 
-- 
2.43.0


From 27fed879dcc514d981efe50e398e0bdc68fae7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 111/162] fix: escape: report exhausted memory

---
 src/escape.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/escape.c b/src/escape.c
index 4289a03..ae1aca4 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -26,13 +26,15 @@
  * 'escset', escape it with 'esc_char'.
  *
  * Note: 'esc_char' can't be in 'escset'.
+ *
+ * Returns 'g', or 0 (and leaves 'g' as it was) if out of memory.
  */
 gstr *
 gstr_escape(gstr *g, const char *escset, int esc_char)
 {
     char buf[8];
     delim d;
-    int c;
+    int c, r = 0;
 
     __init_delim(&d);
     for (; (c = *escset); escset++) {
@@ -42,54 +44,60 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
     assert(!__is_delim(&d, esc_char));
 
     // we stash the src pointer while we walk it.
-    const char *src = g->str;
-    const char *ptr = src;
+    const gstr old  = *g;
+    const char *ptr = old.str;
 
     // And re-initialize the pointer
-    g->str = NEWZA(char, g->cap);
-    g->len = 0;
-
-    assert(g->str);
+    if (!gstr_init(g, old.cap-1)) {
+        *g = old;
+        return 0;
+    }
 
     while ((c = *ptr++)) {
         if (c == esc_char) {
-            gstr_append_ch(g, c);
-            gstr_append_ch(g, c);
+            r |= gstr_append_ch(g, c) < 0;
+            r |= gstr_append_ch(g, c) < 0;
         } else if (__is_delim(&d, c)) {
-            gstr_append_ch(g, esc_char);
+            r |= gstr_append_ch(g, esc_char) < 0;
             switch (c) {
                 case '\a':
-                    gstr_append_ch(g, 'a');
+                    r |= gstr_append_ch(g, 'a') < 0;
                     break;
                 case '\b':
-                    gstr_append_ch(g, 'b');
+                    r |= gstr_append_ch(g, 'b') < 0;
                     break;
                 case '\f':
-                    gstr_append_ch(g, 'f');
+                    r |= gstr_append_ch(g, 'f') < 0;
                     break;
                 case '\n':
-                    gstr_append_ch(g, 'n');
+                    r |= gstr_append_ch(g, 'n') < 0;
                     break;
                 case '\r':
-                    gstr_append_ch(g, 'r');
+                    r |= gstr_append_ch(g, 'r') < 0;
                     break;
                 case '\t':
-                    gstr_append_ch(g, 't');
+                    r |= gstr_append_ch(g, 't') < 0;
                     break;
                 case '\v':
-                    gstr_append_ch(g, 'v');
+                    r |= gstr_append_ch(g, 'v') < 0;
                     break;
                 default:
                     snprintf(buf, sizeof buf, "0%3.3o", (unsigned char)c);
-                    gstr_append_str(g, buf);
+                    r |= gstr_append_str(g, buf) == (size_t)-1;
             }
         } else {
-            gstr_append_ch(g, c);
+            r |= gstr_append_ch(g, c) < 0;
         }
     }
 
+    if (r) {
+        DEL(g->str);
+        *g = old;
+        return 0;
+    }
+
     // And now free the old ptr
-    DEL(src);
+    free(old.str);
     return g;
 }
 /* EOF */
-- 
2.43.0


From 764105607af006aa18a9b874d1b0e5f7b80419e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 112/162] fix: strsplit: no memory is a failure, not an abort

---
 src/strsplit.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 4f15de9..daa22b2 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -44,14 +44,16 @@ static int __split_sqz(stra *strv, char * str, const delim *delim);
 
 
 /*
- * Initialize a new str vector.
+ * Initialize a new str vector; return true if successful, false
+ * otherwise.
  */
-static void
+static int
 _stra_init(stra * a)
 {
     a->size = 0;
     a->cap  = 16;
     a->arr  = (unsigned char **) calloc(a->cap, sizeof (unsigned char *));
+    return a->arr != 0;
 }
 
 
@@ -91,7 +93,7 @@ _stra_resize(stra * a)
 
     newarr  = (unsigned char **) realloc(a->arr,
                                  newcap * sizeof (unsigned char *));
-    assert(newarr);
+    if (!newarr) return 0;
 
     memset(newarr + a->cap, 0, a->cap * sizeof (unsigned char *));
     a->cap = newcap;
@@ -167,7 +169,7 @@ strsplit(int *strv_size, char * str, const char * tok, int sqz_consec)
 {
     stra a;
 
-    _stra_init(&a);
+    if (!_stra_init(&a)) return 0;
 
     if (!__split_common(&a, str, tok, sqz_consec)) {
         _stra_fini(&a);
-- 
2.43.0


From 30b1ddc11a47acb9a3ee8c44b7bde0a5c5d1696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 113/162] fix: bloom: creating a filter without memory fails
 instead of aborting

---
 src/hashtable/bloom.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 611b49a..cd8ae5c 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -314,6 +314,8 @@ counting_bloom_find(bloom* b, uint64_t val)
 /*
  * The number of slots needed to hold the bitmap is proportional to
  * the desired false positive error rate.
+ *
+ * Return 0 if there is no memory for it.
  */
 static bloom*
 counting_bloom_init(bloom* b, size_t n, double e)
@@ -324,7 +326,7 @@ counting_bloom_init(bloom* b, size_t n, double e)
 
     uint64_t bytes = (s * k);
     b->bitmap      = NEWZA(uint8_t, bytes);
-    assert(b->bitmap);
+    if (!b->bitmap) return 0;
 
     b->k      = k;
     b->m      = s;
@@ -353,7 +355,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
 
     uint64_t bytes = (units * UNITSIZE);
     b->bitmap      = NEWZA(uint8_t, bytes);
-    assert(b->bitmap);
+    if (!b->bitmap) return 0;
 
     b->k = k;
     b->m = msub;
@@ -446,14 +448,14 @@ maybe_grow_filter(scalable_bloom *sb)
         assert(x > sb->cap);
 
         bloom* bv = RENEWA(bloom, sb->bfa, x);
-        assert(bv);
+        if (!bv) return 0;
 
         sb->bfa = bv;
         sb->cap = x;
     }
 
     // Return pointer to un-initialized filter
-    return &sb->bfa[sb->len++];
+    return &sb->bfa[sb->len];
 }
 
 // insert a new element 'v' into a scalable filter
@@ -471,10 +473,12 @@ scalable_probe(scalable_bloom* sb, uint64_t v)
         uint64_t m = f->m * f->k * sb->scale;
         size_t n   = make_n(m, e);
 
-        // Get the next filter to use
+        // Get the next filter to use; without memory for one, stay
+        // with the filter we have.
         f = maybe_grow_filter(sb);
+        if (f && standard_bloom_init(f, n, e)) sb->len++;
 
-        standard_bloom_init(f, n, e);
+        f = &sb->bfa[sb->len - 1];
     }
 
     standard_bloom_probe(f, v);
@@ -566,10 +570,13 @@ static int
 setup_scalable_bloom(Bloom *b, uint32_t nfilt)
 {
     scalable_bloom* sb = NEWZ(scalable_bloom);
-    assert(sb);
+    if (!sb) return 0;
 
     sb->bfa = NEWZA(bloom, nfilt);
-    assert(sb->bfa);
+    if (!sb->bfa) {
+        DEL(sb);
+        return 0;
+    }
 
     sb->b     = b;
     b->find   = (int  (*)(void*, uint64_t))scalable_find;
@@ -601,9 +608,8 @@ setup_standard_bloom(Bloom *b)
     b->name   = "standard-bloom";
     b->typ    = BLOOM_TYPE_QUICK;
     b->filter = NEWZ(bloom);
-    assert(b->filter);
 
-    return 1;
+    return b->filter != 0;
 }
 
 
@@ -620,9 +626,8 @@ setup_counting_bloom(Bloom *b)
     b->name   = "counting-bloom";
     b->typ    = BLOOM_TYPE_COUNTING;
     b->filter = NEWZ(bloom);
-    assert(b->filter);
 
-    return 1;
+    return b->filter != 0;
 }
 
 
@@ -642,7 +647,7 @@ Bloom*
 __alloc_bloom(int typ, uint32_t n)
 {
     Bloom *b = NEWZ(Bloom);
-    assert(b);
+    if (!b) return 0;
 
     switch (typ) {
         case BLOOM_TYPE_SCALE:
@@ -658,8 +663,6 @@ __alloc_bloom(int typ, uint32_t n)
             break;
     }
 
-    if (typ == BLOOM_TYPE_SCALE) scalable_fini(b->filter);
-    DEL(b->filter);
     DEL(b);
     return 0;
 }
-- 
2.43.0


From 2e729b3ace1466bef1def459b868f7daba9d1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 114/162] fix: bloom: marshal and unmarshal report exhausted
 memory

---
 src/hashtable/bloom_marshal.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 802b308..c096a43 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -291,7 +291,8 @@ wrhdr(uint8_t *ptr, mstate *m)
 }
 
 
-// Calculate how big the marshal'd data is going to be
+// Calculate how big the marshal'd data is going to be; 0 if there
+// is no memory for the offsets.
 static uint64_t
 calc_marshal_size(mstate *m)
 {
@@ -307,6 +308,7 @@ calc_marshal_size(mstate *m)
         sz  = _ALIGN_UP(sz, 64);
 
         VECT_INIT(v, sb->len);
+        if (!v->arr) return 0;
 
         for (i = 0; i < sb->len; i++) {
             bloom *f   = &sb->bfa[i];
@@ -328,6 +330,7 @@ calc_marshal_size(mstate *m)
         offpair *o;
 
         VECT_INIT(v, 1);
+        if (!v->arr) return 0;
 
         sz += 8;    // one entry in the table
         o   = &VECT_GET_NEXT(v);
@@ -471,6 +474,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
         if (avail  < (n * 8)) return -EBADF;
 
         VECT_INIT(&m->offs, n);
+        if (!m->offs.arr) return -ENOMEM;
 
         // Decode offsets
         for (i = 0; i < n; i++) {
@@ -492,6 +496,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
         avail -= 16;
 
         VECT_INIT(&m->offs, 1);
+        if (!m->offs.arr) return -ENOMEM;
 
         o = &VECT_GET_NEXT(&m->offs);
         o->hdroff  = dec_LE_u64(p); p += 8;
@@ -554,7 +559,10 @@ Bloom_marshal(Bloom *b, const char *fname)
     memset(&m, 0, sizeof m);
     m.b  = b;
     m.ck = Checksums[BLOOM_CKSUM_DEFAULT];
-    sz   = m.ck.size + calc_marshal_size(&m);
+    sz   = calc_marshal_size(&m);
+    if (sz == 0) return -ENOMEM;
+
+    sz  += m.ck.size;
 
     snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
 
@@ -711,7 +719,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        r = rdfilter(start, o, f, do_mmap);
+        if (r < 0) {
+            errno = -r;
+            goto fail0;
+        }
     }
 
     VECT_FINI(&m.offs);
-- 
2.43.0


From c89bc5d4e262ddb79a1db682c16e7bbb557a574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 115/162] fix: xorfilter: no filter without memory for it

---
 src/hashtable/xorfilter.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 0b0d180..234e385 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -201,8 +201,11 @@ xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
     keyvect q;
     keyvect stack;
 
-    VECT_INIT(&q, cap);
-    VECT_INIT(&stack, n);
+
+    // A vector that is full grows at the next push; these never do.
+    VECT_INIT(&q, cap + 1);
+    VECT_INIT(&stack, n + 1);
+    if (!H || !q.arr || !stack.arr) goto fini;
 
     while (1) {
         memset(H, 0, cap * sizeof(H[0]));
@@ -275,6 +278,8 @@ Xorfilter *
 Xorfilter_new8(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
+    if (!x) return 0;
+
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
@@ -284,6 +289,12 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     }
 
     x->fp8 = NEWZA(uint8_t, xorfilter_size(x));
+    if (!x->fp8) {
+        VECT_FINI(&stack);
+        DEL(x);
+        return 0;
+    }
+
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -300,6 +311,8 @@ Xorfilter *
 Xorfilter_new16(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
+    if (!x) return 0;
+
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
@@ -310,6 +323,12 @@ Xorfilter_new16(uint64_t *keys, size_t n)
 
     x->is_16 = 1;
     x->ptr   = NEWZA(uint8_t, xorfilter_size(x));
+    if (!x->ptr) {
+        VECT_FINI(&stack);
+        DEL(x);
+        return 0;
+    }
+
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
         uint16_t fp = __xfp16(ki.hash);
-- 
2.43.0


From 24f90adc175bbdd2b30bc948517fcc404231b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 116/162] fix: xorfilter: unmarshal reports exhausted memory

---
 src/hashtable/xorfilter_marshal.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 93de3ca..ff8ecc0 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -255,14 +255,23 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-        assert(zx.ptr);
+        if (!zx.ptr) {
+            r = ENOMEM;
+            goto fail1;
+        }
 
         memcpy(zx.ptr, p, sz);
-        munmap(mptr, st.st_size);
     }
 
     Xorfilter *x = NEWZ(Xorfilter);
-    assert(x);
+    if (!x) {
+        if (!do_mmap) DEL(zx.ptr);
+        r = ENOMEM;
+        goto fail1;
+    }
+
+    if (!do_mmap) munmap(mptr, st.st_size);
+
     assert(p_x);
 
     *x   = zx;
-- 
2.43.0


From a5cce01033e8da8c3203bea0b661af62f9e768a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 117/162] fix: bitset: no set without memory for it

---
 inc/fast/bitset.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/inc/fast/bitset.h b/inc/fast/bitset.h
index 4e4895f..7c51fa7 100644
--- a/inc/fast/bitset.h
+++ b/inc/fast/bitset.h
@@ -45,7 +45,8 @@ typedef struct bitset bitset;
 
 
 /*
- * Create a new bitset and return a pointer to it.
+ * Create a new bitset and return a pointer to it; 0 if there is no
+ * memory.
  */
 static inline bitset*
 bitset_new(size_t n)
@@ -55,7 +56,7 @@ bitset_new(size_t n)
     void*    p = NEWZA(uint8_t, (sizeof(bitset) + (m * 8)));
     bitset*  b = (bitset *)p;
 
-    b->n = m;
+    if (b) b->n = m;
     return b;
 }
 
@@ -106,7 +107,7 @@ bitset_copy(bitset *a, bitset *b)
 
 /*
  * Duplicate bitset 'a', copy its contents to a newly created
- * instance and return it.
+ * instance and return it; return 0 if there is no memory.
  */
 static inline bitset*
 bitset_dup(bitset *a)
@@ -114,8 +115,10 @@ bitset_dup(bitset *a)
     void   *p = NEWZA(uint8_t, sizeof(bitset) + (8 * a->n));
     bitset *b = (bitset*)p;
 
-    b->n = a->n;
-    memcpy(b->w, a->w, 8 * a->n);
+    if (b) {
+        b->n = a->n;
+        memcpy(b->w, a->w, 8 * a->n);
+    }
     return b;
 }
 
-- 
2.43.0


From 83367a5a9aaa3a6eb0c45c26b0cf2a02143397d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 118/162] fix: getopt_long: an empty argument of -W is not the
 end-of-options marker

---
 src/getopt_long.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 7eee949..262284f 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -363,7 +363,8 @@ getopt_long(int nargc, char * const *nargv, const char *options,
         optind++;
         place = EMSG;
 
-        if (*current_argv == '\0') {        /* found "--" */
+        /* an empty argument of -W is not the end of the options */
+        if (*current_argv == '\0' && current_argv != nargv[optind-1]) { /* found "--" */
             /*
              * We found an option (--), so if we skipped
              * non-options, we have to permute.
-- 
2.43.0


From 5b585c7387ff9938fcaae65e58b196e7acd0cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 119/162] fix: error: a message that is empty or too long is
 still one line

---
 src/error.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..e592da4 100644
--- a/src/error.c
+++ b/src/error.c
@@ -80,7 +80,7 @@ error(int status, int err, const char *fmt, ...)
     fflush(stderr);
     if (program_name) fprintf(stderr, "%s: ", program_name);
 
-    char buf[2048];
+    char buf[2048] = "";
     int max = (sizeof buf) - 1; // for \0
 
     va_list ap;
@@ -88,14 +88,14 @@ error(int status, int err, const char *fmt, ...)
 
     int n = vsnprintf(buf, max, fmt, ap);
     if (n >= max || n < 0) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        // output truncated: vsnprintf() put the trailing zero at
+        // the end of what fits.
+        n = strlen(buf);
     }
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
@@ -110,17 +110,17 @@ error(int status, int err, const char *fmt, ...)
 static void
 vprint(FILE *fp, const char *fmt, va_list ap)
 {
-    char buf[2048];
+    char buf[2048] = "";
     size_t max = (sizeof buf) - 2; // for \n and \0
 
     int n = vsnprintf(buf, max, fmt, ap);
     if (n < 0 || ((size_t)n) >= max) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        // output truncated: vsnprintf() put the trailing zero at
+        // the end of what fits.
+        n = strlen(buf);
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From 6034b9df8b12bab3f4cc60b16d656a64d78ec115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 120/162] fix: syserror: use the text strerror_r() returns

---
 src/posix/syserror.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/posix/syserror.cpp b/src/posix/syserror.cpp
index daf6e4f..e278371 100644
--- a/src/posix/syserror.cpp
+++ b/src/posix/syserror.cpp
@@ -26,6 +26,20 @@ using namespace putils;
 
 namespace  putils {
 
+// strerror_r(3) comes in two flavors: POSIX fills the buffer and returns
+// an int; GNU returns the string - which need not be in the buffer.
+static inline const char *
+errtext(int, const char *buf)
+{
+    return buf;
+}
+
+static inline const char *
+errtext(const char *s, const char *)
+{
+    return s;
+}
+
 extern "C" int
 geterrno()
 {
@@ -40,13 +54,13 @@ geterror(int err, const string& prefix)
     //int err       = errno;
     char buf[256] = { 0 };
 
-    strerror_r(err, buf, sizeof buf);
-    
+    const char *txt = errtext(strerror_r(err, buf, sizeof buf), buf);
+
     syserror p(err, prefix);
 
     if (prefix.length() > 0)
         p.errstr += ": ";
-    p.errstr.append(buf);
+    p.errstr.append(txt);
     return p;
 }
 
-- 
2.43.0


From bd94ff5fa661839feb1e36ec606a26f8bb8b477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 121/162] fix: sysexception: a long message is cut, not fatal

---
 src/sysexception.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sysexception.cpp b/src/sysexception.cpp
index 1b34ebf..8d848e2 100644
--- a/src/sysexception.cpp
+++ b/src/sysexception.cpp
@@ -51,10 +51,11 @@ sys_exception::sys_exception(const syserror& e, const char * fmt, ...)
 
     va_list ap;
     va_start(ap, fmt);
-    size_t n = vsnprintf(buf, max, fmt, ap);
+    int r = vsnprintf(buf, max, fmt, ap);
     va_end(ap);
 
-    assert(n <= max);
+    // vsnprintf() returns the length of the untruncated text
+    size_t n = r < 0 ? 0 : min<size_t>(r, max-1);
 
     memcpy(m_buf, buf, n);
     m_buf[n++] = ':';
-- 
2.43.0


From 7863208044fc32923d3782c23d7c4ea211773ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 122/162] fix: c_resolve: a name too long for an interface is
 not one

---
 src/c_resolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..0fdef18 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -113,8 +113,9 @@ is_ifname(const char* name)
         struct ifreq ifr;
         memset(&ifr, 0, sizeof ifr);
 
-        strcopy(ifr.ifr_name, IFNAMSIZ, name);
-        if (ioctl(fd, SIOCGIFMTU, &ifr) == 0)
+        // a name that doesn't fit can't be that of an interface
+        if (strcopy(ifr.ifr_name, IFNAMSIZ, name) >= 0 &&
+            ioctl(fd, SIOCGIFMTU, &ifr) == 0)
             r = 1;
 
         close(fd);
-- 
2.43.0


From ac5b17d9e2b1a52060fca6246503fbf543bb9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 123/162] fix: c_resolve: a hardware address does not overrun
 the buffer

---
 src/c_resolve.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 0fdef18..9da59b5 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -140,6 +140,12 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            // "xx:" for every byte; the last ':' is the trailing zero
+            if (bufsiz < 6 * 3) {
+                errno = ENOSPC;
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
-- 
2.43.0


From 47d6a6461a9f76fa2d478beb53fdd4f4a6b4d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 124/162] fix: c_resolve: report why interfaces can't be listed

---
 src/c_resolve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 9da59b5..2eb331d 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -205,8 +205,11 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
         mask = F_INET|F_INET6;
 
     r = getifaddrs(&ifa);
-    if (r < 0)
+    if (r < 0) {
+        r = -errno;
+        VECT_FINI(&av);
         return r;
+    }
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
-- 
2.43.0


From e93759f036f9ed3367dfef4431a4bc707d46fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 125/162] fix: c_resolve: a failed lookup is never success

---
 src/c_resolve.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 2eb331d..0b46311 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -444,8 +444,15 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
-        return -errno;
+    if (n != 0) {
+        // errno is only meaningful for EAI_SYSTEM
+        switch (n) {
+            case EAI_SYSTEM: return errno > 0 ? -errno : -EIO;
+            case EAI_MEMORY: return -ENOMEM;
+            case EAI_AGAIN:  return -EAGAIN;
+            default:         return -ENOENT;
+        }
+    }
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From 32f656debe78d39d7888285b00d6f30b0a40aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 126/162] fix: progbar: any terminal width and any amount

---
 src/progbar.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..1280d38 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -39,21 +39,32 @@
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width+1];
+    char blank[p->width+1];
     char cur[32];
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
+    uint64_t pct = 100;
 
-    if (pct > 100) pct = 100;
+    if (p->cur < p->total) {
+        // scale huge amounts so that the product fits
+        uint64_t n = p->cur,
+                 d = p->total;
 
-    uint64_t done = pct / p->step;
+        if (d > UINT64_MAX / 100) {
+            n >>= 7;
+            d >>= 7;
+        }
+        pct = (100 * n) / d;
+    }
+
+    // The width need not divide 100.
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
-    assert(done < (sizeof fill)-1);
-    assert(rem  < (sizeof blank)-1);
+    assert(done < sizeof fill);
+    assert(rem  < sizeof blank);
 
     memset(fill, 'o', done); fill[done] = 0;
     memset(blank, '.', rem); blank[rem] = 0;
@@ -105,15 +116,16 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
 
     struct winsize w;
 
-    // try to get the actual width, else punt.
-    if (ioctl(fd, TIOCGWINSZ, &w) != 0) w.ws_col = 80;
+    // try to get the actual width, else punt. A terminal that doesn't
+    // know its size reports 0.
+    if (ioctl(fd, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) w.ws_col = 80;
 
     p->total = total;
     p->fd    = fd;
     p->cur   = 0;
     p->flags = flags;
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
-    p->step  = 100 / p->width;
+    p->step  = p->width > 0 ? 100 / p->width : 100;
 
     return 0;
 }
-- 
2.43.0


From 8e47b64691b12fbc28d946d38a61d2225199c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 127/162] fix: readpass: end of input is a failure

---
 src/readpass.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..0c3903e 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -92,7 +92,8 @@ portable_readpass(char ** passwd, const char * prompt,
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
         if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+            // errno says nothing about an EOF
+            r = ferror(readfrom) ? -errno : -EIO;
             warnp("Cannot read password");
             goto err2;
         }
@@ -101,7 +102,8 @@ portable_readpass(char ** passwd, const char * prompt,
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
         if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+            // errno says nothing about an EOF
+            r = ferror(readfrom) ? -errno : -EIO;
             warnp("Cannot read password");
             goto err2;
         }
-- 
2.43.0


From 9800ab7600a0143614ee4eea74aff129529c648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 128/162] fix: readpass: an empty line is an empty password

---
 src/readpass.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index 0c3903e..d3c6402 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -119,8 +119,8 @@ portable_readpass(char ** passwd, const char * prompt,
 ok:
     n = strlen(passbuf);
     if (n > 0) {
-        if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
+        if (passbuf[n-1] == '\n')           passbuf[--n] = 0;
+        if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
     }
 
 
-- 
2.43.0


From ff5ff8c1a1edba25bee7b0f0722b01f43dcb95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 129/162] fix: utils: an hour has 60 minutes; small units don't
 overflow

---
 inc/utils/utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..6ca84d0 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,11 +116,11 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
-#define _Millisecond(n)  (_Second(n) / 1000)
-#define _Microsecond(n)  (_Millisecond(n) / 1000)
+#define _Millisecond(n)  (__dur(n) * (__Duration / 1000))
+#define _Microsecond(n)  (__dur(n) * (__Duration / 1000000))
 #define _Nanosecond(n)   __dur(n)
 
 /*
-- 
2.43.0


From efe9c0b29e7c2af6b56e8906044d2d6f70ce77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 130/162] fix: tmutils: seconds don't overflow an int

---
 inc/fast/tmutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/tmutils.h b/inc/fast/tmutils.h
index 535afbc..363485b 100644
--- a/inc/fast/tmutils.h
+++ b/inc/fast/tmutils.h
@@ -42,8 +42,8 @@ now(void)
 }
 
 // Express 'n' seconds in our canonical format
-#define _SEC(n)     ((uint64_t)((n) * 1000000))
-#define _MSEC(n)    ((uint64_t)((n) * 1000))
+#define _SEC(n)     ((uint64_t)((n) * 1000000ULL))
+#define _MSEC(n)    ((uint64_t)((n) * 1000ULL))
 #define _USEC(n)    ((uint64_t)(n))
 
 
-- 
2.43.0


From 3a4d2790be02647c31715f314ebdb672a8e55c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 131/162] fix: cdb_read: don't read past the end of the file

---
 src/cdb_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index efada4e..75f692d 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -39,7 +39,7 @@
 #ifdef __little_endian
 
 #define __read32(d, off) ({ \
-        assert(off < (d)->size); \
+        assert((uint64_t)(off) + 4 <= (d)->size); \
         (*pU32((d)->mmap+off));  \
         })
 #else
@@ -53,7 +53,7 @@ dec_LE_u32(const uint8_t * p) {
 }
 
 #define __read32(d, off) ({ \
-        assert(off < (d)->size); \
+        assert((uint64_t)(off) + 4 <= (d)->size); \
         dec_LE_u32((d)->mmap+off);     \
         })
 
-- 
2.43.0


From 738e0b6c015e82aa2daba785e0e2c070ef439c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 132/162] fix: cdb_read: find keys whose hash is 0

---
 src/cdb_read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index 75f692d..82d7da1 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -146,7 +146,8 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
         uint32_t slothash = __read32(db, slotoff);
         uint32_t off      = __read32(db, slotoff+4);
 
-        if (slothash == 0) break;
+        // An empty slot has no record; 0 is a valid hash.
+        if (off == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
-- 
2.43.0


From 5886eeab91f7153e3d070c90d414d3a8b53fdb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 133/162] fix: cdb_read: keys with equal hashes

---
 src/cdb_read.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index 82d7da1..33500fd 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -154,17 +154,16 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
 
-            if (dklen != klen) return -ENOENT;
-
             // Sanity check
-            assert((off+8+dklen+dvlen) <= db->size);
-        
-            // key + value is at off+8
-            if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
-
-            // Value is at off+8+dklen
-            *p_ret = db->mmap + off + 8 + dklen;
-            return dvlen;
+            assert(((uint64_t)off+8+dklen+dvlen) <= db->size);
+
+            // key + value is at off+8. A different key can have the
+            // same hash.
+            if (dklen == klen && 0 == memcmp(key, db->mmap+off+8, klen)) {
+                // Value is at off+8+dklen
+                *p_ret = db->mmap + off + 8 + dklen;
+                return dvlen;
+            }
         }
 
         slot = (slot + 1) % ii->len;
-- 
2.43.0


From f7850392b04dbaddf246d0cdceeb304ed0a9a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 134/162] fix: zbuf: deliver everything when something follows
 the stream

---
 src/zbuf_unc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..c1a6efd 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -80,8 +80,9 @@ z_buf_uncompress_end (z_buf_context * zc)
     if ( zs->avail_in > 0 )
     {
         err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
+        if ( err != Z_STREAM_END && err != Z_OK )
             return err;
+        err = Z_OK;
     }
 
     if ( zs->avail_out < zc->outbuf_size )
-- 
2.43.0


From dd5c5c03fb18df2bae6798b4abbcaf9d3aa70f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 135/162] fix: zbuf: an output function that fails stops the
 work

---
 src/zbuf_c.c   | 2 +-
 src/zbuf_unc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..3e11522 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index c1a6efd..52f2d3b 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -130,7 +130,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
-- 
2.43.0


From 8ebf51647293b9fb9027fba8f67218485e862cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 136/162] fix: daemon: report a directory that can't be entered

---
 src/daemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..ee0263f 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -49,7 +49,9 @@ daemonize(const char* pwd)
     if (!pwd)
         pwd = "/tmp";
 
-    chdir(pwd);
+    if (chdir(pwd) < 0)
+        return -geterrno();
+
     umask(022);
 
     int fd0 = open("/dev/null", O_RDONLY);
-- 
2.43.0


From a85b619cfff0fe70f5468655a2ef853958b0101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 137/162] fix: daemon: leave no extra descriptors open

---
 src/daemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index ee0263f..a7084bb 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -62,6 +62,11 @@ daemonize(const char* pwd)
     dup2(fd1, 1);
     dup2(fd2, 2);
 
+    // only 0, 1 and 2 are needed from here on
+    if (fd0 > 2) close(fd0);
+    if (fd1 > 2) close(fd1);
+    if (fd2 > 2) close(fd2);
+
     return 0;
 }
 
-- 
2.43.0


From e87e8fd2881c230ce36adbd996a5a3804ff1f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 138/162] fix: mkgetopt: integer options note their presence
 and refuse what is not a number of their type

---
 tools/mkgetopt.py | 61 ++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 9d2afce..b4d90a2 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -82,7 +82,7 @@ class opt_int(opt_type):
             {
                 opt->%(varname)s = (%(ctype)s)grok_int(optarg, "%(optname)s",
                                     &opt->%(varname_p)s, &errs,
-                                    %(limit)s, 1);
+                                    %(limit)s, %(signed)d);
             }
 """
 
@@ -118,6 +118,7 @@ class opt_int(opt_type):
             'varname_p': opt.varname_p,
             'ctype':    self.ctype,
             'limit':    limit,
+            'signed':   not self.ctype.startswith('unsigned'),
             'optname':  optname,
             'default':  defval,
         }
@@ -886,7 +887,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
         if self.needs_int:
-            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int has_limit);\n"
+            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int is_signed);\n"
             template += Grok_int_template
 
         if self.needs_size:
@@ -1508,52 +1509,48 @@ Grok_int_template = """
  * @param present Output value -- true if there are no errors, false otherwise
  * @param err     Output value -- incremented on errors
  * @param limit   The maximum permissible limit for this integer
- * @param has_limit   Set if the corresponding option had a size limitation
- *                (e.g., a short integer etc.)
+ * @param is_signed  Set if the corresponding option can be negative
+ *
  * @return Converted string value.
  */
 static unsigned long
 grok_int(const char * str, const char * option, char * present, int * err,
-            unsigned long limit, int has_limit)
+            unsigned long limit, int is_signed)
 {
+    const char * arg = str;
     char * xxend = 0;
-    long lim_pos = (long) limit,
-         lim_neg = -lim_pos - 1;
     int isneg = 0;
-    union
-    {
-        long l;
-        unsigned long ul;
-    } un;
+    unsigned long val;
 
-    if (*str == '-') {
+    while (isspace((unsigned char)*str))
         ++str;
-        isneg = 1;
+
+    if (*str == '-' || *str == '+')
+        isneg = *str++ == '-';
+
+    *present = 0;
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        error(0, 0, "Invalid characters '%%s' for integer value in option '%%s'", arg, option);
+        return 0;
     }
 
-    un.ul = strtoul(str, &xxend, 0);
+    errno = 0;
+    val = strtoul(str, &xxend, 0);
     if (xxend && *xxend)
         error(0, 0, "Ignoring trailing characters '%%s' for option '%%s'", xxend, option);
 
-    if (isneg) {
-        un.l *= -1;
-    }
-
-    if (has_limit) {
-        if (isneg && un.l < lim_neg) {
-            *err += 1;
-            error(0, 0, "Integer value '-%%s' underflow for option '%%s' (min %%ld)",
-                    str, option, lim_neg);
-        } else if (!isneg && un.ul > (unsigned long)lim_pos) {
-            *err += 1;
-            error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
-                    str, option, lim_pos);
-        }
-    }
-    else
+    if (isneg && (errno == ERANGE || val > (is_signed ? limit + 1 : 0))) {
+        *err += 1;
+        error(0, 0, "Integer value '%%s' underflow for option '%%s'", arg, option);
+    } else if (!isneg && (errno == ERANGE || val > limit)) {
+        *err += 1;
+        error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
+                arg, option, limit);
+    } else
         *present = 1;
 
-    return un.ul;
+    return isneg ? 0 - val : val;
 }
 """
 
-- 
2.43.0


From 09b1d6ad6d2e02708b928044a78a05a85660d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 139/162] fix: mkgetopt: floating point options keep a value
 with trailing characters and count optional uses

---
 tools/mkgetopt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index b4d90a2..c7d984b 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -295,16 +295,16 @@ class opt_float(opt_type):
                         ++errs;
                         error(0, 0, "Invalid characters '%%s' for floating point value in option '%(optname)s'", xxptr);
                     }
-                    else if (*xxptr)
-                        error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                     else
                     {
+                        if (*xxptr)
+                            error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                         opt->%(varname)s = xxdbl;
                         opt->%(varname_p)s = 1;
                     }
                 }
             }
-            break;\n\n"""
+"""
 
     def __init__(self, **kwargs):
         opt_type.__init__(self, **kwargs)
@@ -328,6 +328,11 @@ class opt_float(opt_type):
         }
 
         case_str   = self.template % d
+        if opt.optarg:
+            case_str += self.optional_arg_template % d
+
+        case_str  += " " * 12 + "break;\n\n"
+
         type_str   = ' ' * 4 + "%(ctype)s %(varname)s;\n" % d
         type_str_p = ' ' * 4 + "char %(varname_p)s;\n" % d
         init_str   = ' ' * 4 + "opt->%(varname)s = %(default)s;\n" % d
-- 
2.43.0


From b2d1f92fa9e7264a69e5e2284b800e072e862e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 140/162] fix: mkgetopt: placeholders without a default belong
 to the caller, as the manual says

---
 tools/mkgetopt.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index c7d984b..6cbab62 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -607,8 +607,10 @@ class option:
                 self.is_int = True
             elif ty.is_size():
                 self.is_size = True
-            elif ty.is_string():
-                self.is_string = True
+
+        # A default string is a duplicate, in placeholders too
+        if ty.is_string() and (self.default or not self.placeholder):
+            self.is_string = True
 
         if ty.needsarg:
             self.optarg = optarg
@@ -713,10 +715,17 @@ class option:
         global Types
 
         tm = Types[self.type]
+        nodefault = self.placeholder and not self.default
+        if nodefault:
+            self.default = "0"
+
         self.output = tm.generate(self, opstate)
 
         if self.placeholder:
             self.output.casestmt = ""
+            # Without a default, the variable belongs to the caller
+            if nodefault:
+                self.output.init = ""
             return
 
         s = ' ' * 8
-- 
2.43.0


From a07b00d64be93b63955f34fac8c93bc59456ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 141/162] fix: mkgetopt: a description file without a
 %description

---
 tools/mkgetopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 6cbab62..051b1e0 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -874,7 +874,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
             self.usage     = '""'
             self.usage_decl = ""
 
-        brief = self.description[0]
+        brief = ''.join(self.description[:1])
         if not brief.endswith('.'):
             brief += '.'
 
-- 
2.43.0


From 6ea4ba86b358d6c4b580cd0fa3038691b27af258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 142/162] fix: mkgetopt: callbacks take the struct of the
 chosen prefix

---
 tools/mkgetopt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 051b1e0..8204b3e 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -899,6 +899,13 @@ extern const char* %s(void);\n\n""" % self.description_fp
         template = C_template
         decls    = ""
 
+        prefix   = onames.prefix or self.sym_prefix
+        typename = "%s_option" % prefix
+
+        # callbacks are declared with this struct
+        self.typename   = typename
+        self.structname = 'struct %s' % typename
+
 
         if self.needs_int:
             decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int is_signed);\n"
@@ -965,9 +972,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
         # Fixup help string with program description and such.
         self.format_help()
 
-        prefix   = onames.prefix or self.sym_prefix
-        typename = "%s_option" % prefix
-
         d = {
             'typestr':   typestmt,
             'typestr_p': typestmt_p,
-- 
2.43.0


From fcb0130687179cc7bb2ee378a6dabe56d0a84780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 143/162] fix: mkgetopt: single quotes around the first field

---
 tools/mkgetopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 8204b3e..33f5652 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1118,7 +1118,7 @@ class line_parser:
         if c.isspace():
             return self.INSPACE
 
-        elif c == '"' or c == '"':
+        elif c == '"' or c == "'":
             self.quotechar = c
             return self.INQUOTE
         else:
-- 
2.43.0


From c0e8c28bfc29b5f40ce4b65008975c22431f6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 144/162] fix: mkgetopt: size options refuse what is not a size
 or does not fit

---
 tools/mkgetopt.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 33f5652..c683d42 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1612,7 +1612,17 @@ grok_size(const char * str, const char * option, char * present, int * err)
 #define _TB         (_GB * 1024)
 #define _PB         (_TB * 1024)
 
-    *present = 1;
+    while (isspace((unsigned char)*str))
+        ++str;
+
+    *present = 0;
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        error(0, 0, "Invalid characters '%%s' for size value in option '%%s'", str, option);
+        return 0;
+    }
+
+    errno  = 0;
     xxbase = strtoull(str, &xxend, 0);
 
     if (xxend && *xxend) {
@@ -1638,19 +1648,19 @@ grok_size(const char * str, const char * option, char * present, int * err)
                 errs++;
                 error(0, 0, "Unknown multilplier constant '%%c'  for option '%%s'",
                         *xxend, option);
-                *present = 0;
                 break;
         }
+    }
 
-        xxval = xxbase * xxmult;
-        if ((xxbase == UL_MAX__ && errno == ERANGE) || (xxval < xxbase)) {
-            errs++;
-            error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
-                    option, xxbase, xxmult);
-            *present = 0;
-        }
-    } else
-        xxval = xxbase;
+    xxval = xxbase * xxmult;
+    if (errno == ERANGE || xxbase > UL_MAX__ / xxmult) {
+        errs++;
+        error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
+                option, xxbase, xxmult);
+    }
+
+    if (errs == 0)
+        *present = 1;
 
     *err += errs;
     return xxval;
-- 
2.43.0


From fbb14273be5f17fc61caf356878ec6417feea2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 145/162] fix: strcasecmp: the sign of the result, and
 characters above 127

---
 src/strcasecmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index 805a3b8..e637bbc 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -66,7 +66,7 @@ strcasecmp(const char *str1, const char *str2)
         if ( !c )
             return 0;
     }
-    return map[*r] - map[*l];
+    return map[*l] - map[*r];
 }
 
 
@@ -92,8 +92,8 @@ strncasecmp(const char *str1, const char *str2, size_t length)
 
     for (; length > 0;length--, str1++, str2++)
     {
-        l = map[c1 = *str1];
-        r = map[c2 = *str2];
+        l = map[c1 = (unsigned char)*str1];
+        r = map[c2 = (unsigned char)*str2];
 
         if ( !(c1 && c2) )
             goto _done;
-- 
2.43.0


From 6064850324bf975a97b67395032ed3ab77f38123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 146/162] fix: buf.h: use the macro that exists

---
 inc/fast/buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..02b40fc 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -76,7 +76,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From 1ba6d40746324045a42e67bad900cfa6c1675d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 147/162] fix: emb-printf: a string argument is a pointer, not
 an int

---
 src/emb-printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index b56fbe2..89626be 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -186,7 +186,7 @@ charout(sfmt_info * info, va_list *arg_pt)
 static void
 stringout(sfmt_info *info, va_list *arg_pt)
 {
-    char * str = (char *) va_arg((*arg_pt), int);
+    char * str = va_arg((*arg_pt), char *);
 
     if ( !str )
         str = "(null)";
-- 
2.43.0


From 2e802ff43cdc21df456aef685a1a3ab4e2d18e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 148/162] fix: emb-printf: read integer arguments with the type
 they are passed as

---
 src/emb-printf.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 89626be..97592c7 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -169,7 +169,7 @@ charout(sfmt_info * info, va_list *arg_pt)
 {
     char cbuf[2];
 
-    cbuf[0] = (unsigned long) va_arg((*arg_pt), unsigned long);
+    cbuf[0] = (char) va_arg((*arg_pt), int);
     cbuf[1] = 0;
     strout(info, cbuf, 1);
 }
@@ -277,9 +277,11 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
     {
         /* are we doing `short' */
         if (info->mod == 'h')
-            uval = (unsigned short) va_arg((*arg_pt), unsigned long);
-        else
+            uval = (unsigned short) va_arg((*arg_pt), unsigned int);
+        else if (info->mod)
             uval = (unsigned long) va_arg((*arg_pt), unsigned long);
+        else
+            uval = va_arg((*arg_pt), unsigned int);
         
         neg = 0;
     }
@@ -287,9 +289,11 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
     {
         /* are we doing `short' */
         if (info->mod == 'h')
-            val = (short) va_arg((*arg_pt), long);
-        else
+            val = (short) va_arg((*arg_pt), int);
+        else if (info->mod)
             val = (long) va_arg((*arg_pt), long);
+        else
+            val = va_arg((*arg_pt), int);
 
         /* Negative num check. */
         if (val < 0)
@@ -380,10 +384,14 @@ hexout(sfmt_info *info, va_list *arg_pt)
 
     count = 0;
 
-    if (info->mod == 'h')
-        val = (unsigned short) va_arg((*arg_pt), unsigned long);
-    else
+    if (info->type == 'p')
+        val = (unsigned long) va_arg((*arg_pt), void *);
+    else if (info->mod == 'h')
+        val = (unsigned short) va_arg((*arg_pt), unsigned int);
+    else if (info->mod)
         val = (unsigned long) va_arg((*arg_pt), unsigned long);
+    else
+        val = va_arg((*arg_pt), unsigned int);
 
     pt = &hexbuff[15];
     *pt-- = 0;
-- 
2.43.0


From 1eae43763ec135cb49ed94dbbad993238c354b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 149/162] fix: emb-printf: the space flag was ignored unless
 there was a plus

---
 src/emb-printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 97592c7..ff491f6 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -506,7 +506,7 @@ percent(const char *format, sfmt_info *info, va_list *arg_pt)
 
     if (*format == ' ')
     {
-        if (info->plus)
+        if (!info->plus)
             info->space = 1;
         format++;
     }
-- 
2.43.0


From 27bc2efc0270c5086c22f5d4ec3e4130a1ffd063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 150/162] fix: emb-printf: a given precision was ignored and
 six digits were the default

---
 src/emb-printf.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index ff491f6..c889891 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -78,7 +78,6 @@ typedef struct sfmt_info sfmt_info;
 
     /* Used to setup formatted output */
 #define DEFAULT         -1
-#define DEFAULT_P       6
 
 
 /* External interfaces */
@@ -188,10 +187,16 @@ stringout(sfmt_info *info, va_list *arg_pt)
 {
     char * str = va_arg((*arg_pt), char *);
 
+    long len;
+
     if ( !str )
         str = "(null)";
 
-    strout(info, str, strlen(str));
+    /* A string that has a precision need not be terminated. */
+    for (len = 0; len != info->precision && str[len]; len++)
+        ;
+
+    strout(info, str, len);
 }
 
 static char*
@@ -328,7 +333,7 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
 
 
     /* Left fill remaining with zeroes. */
-    while (count < info->precision)
+    while ((long)count < info->precision)
     {
         * (pt--) = '0';
         count++;
@@ -402,7 +407,7 @@ hexout(sfmt_info *info, va_list *arg_pt)
         count++;
     } while (val >>= 4);
 
-    while (count < info->precision)
+    while ((long)count < info->precision)
     {
         * (pt--) = '0';
         count++;
@@ -466,11 +471,9 @@ hexout(sfmt_info *info, va_list *arg_pt)
 static const char *
 percent(const char *format, sfmt_info *info, va_list *arg_pt)
 {
-    char p_flag = 0;
-
     /*  Initialize the f_flag structure with the default values. */
     info->width     = DEFAULT;
-    info->precision = DEFAULT_P;
+    info->precision = DEFAULT;
     info->right     = 1;
     info->plus      = 0;
     info->alter     = 0;
@@ -554,7 +557,6 @@ percent(const char *format, sfmt_info *info, va_list *arg_pt)
      * the width field are permitted here. */
     if (*format == '.')
     {
-        p_flag = 1;
         format++;
         if (*format == '*')
         {
@@ -574,11 +576,13 @@ percent(const char *format, sfmt_info *info, va_list *arg_pt)
         info->mod = *format++;
 
     /*
-     * Based on the type of conversion it may be necessary to
-     * readjust the precision flag to a default value of 0.
+     * A negative precision is no precision; leading zeros are only
+     * for numbers without a precision.
      */
-    if ( (p_flag) && (*format != 'c') && (*format != '%'))
-        info->precision = 0;
+    if (info->precision < 0)
+        info->precision = DEFAULT;
+    else
+        info->zero = 0;
 
     /* The final step is to read in the conversion type. */
     info->type = *format;
-- 
2.43.0


From b4ccf9660154907af51249886d95a31c93113905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 151/162] fix: emb-printf: long numbers and wide fields overran
 the digit buffers

---
 src/emb-printf.c | 177 +++++++++++++++++------------------------------
 1 file changed, 63 insertions(+), 114 deletions(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index c889891..1068913 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -256,6 +256,42 @@ ipout(sfmt_info* info, int is_netorder, va_list* arg_pt)
 }
 
 
+/*
+ * Output a number: its sign or prefix, the zeros that precision or
+ * width ask for and its 'n' digits.
+ */
+static void
+numout(sfmt_info * info, const char * prefix, const char * digits, long n)
+{
+    long plen  = strlen(prefix),
+         zeros = 0,
+         fill;
+
+    if (info->precision > n)
+        zeros = info->precision - n;
+    else if (info->zero && info->right && info->width > plen + n)
+        zeros = info->width - plen - n;
+
+    fill = info->width - plen - zeros - n;
+
+    if (info->right)
+        for (; fill > 0; fill--)
+            info->outchar(&info->arg, ' ');
+
+    while (*prefix)
+        info->outchar(&info->arg, *prefix++);
+
+    for (; zeros > 0; zeros--)
+        info->outchar(&info->arg, '0');
+
+    for (; n > 0; n--)
+        info->outchar(&info->arg, *digits++);
+
+    for (; fill > 0; fill--)
+        info->outchar(&info->arg, ' ');
+}
+
+
 /*
  * Output a value as a decimal number
  *
@@ -269,15 +305,10 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
         * pt,
         * tmp,
           neg;
-    unsigned long uval,       /* unsigned rep. of the input value */
-                  count;
+    unsigned long uval;       /* unsigned rep. of the input value */
     long    len,
             val;    /* signed rep. of the input value */
 
-    count = 0;
-    pt    = &dec_buff[19];
-    *pt-- = 0;
-
     if (do_unsigned)
     {
         /* are we doing `short' */
@@ -303,14 +334,14 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
         /* Negative num check. */
         if (val < 0)
         {
-            neg = 1;
-            val = -val;
+            neg  = 1;
+            uval = -(unsigned long)val;
         }
         else
-            neg = 0;
-        
-        /* This is guaranteed to be positive! */
-        uval = val;
+        {
+            neg  = 0;
+            uval = val;
+        }
     }
 
 
@@ -318,56 +349,16 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
      * While val is greater than zero, output characters
      * to the string from right to left.
      */
-    tmp   = write_u(pt, uval);
-    count = pt - tmp;
-    pt    = tmp;
-#if 0
-    do
-    {
-         *(pt--) = uval % 10 + '0';
-         uval /= 10;
-
-        count++;
-    } while ( uval );
-#endif
-
-
-    /* Left fill remaining with zeroes. */
-    while ((long)count < info->precision)
+    pt  = &dec_buff[sizeof dec_buff - 1];
+    len = 0;
+    if (uval || info->precision != 0)
     {
-        * (pt--) = '0';
-        count++;
+        tmp = write_u(pt, uval);
+        len = pt - tmp;
+        pt  = tmp;
     }
 
-    /* Next check to see if the 0 flag was used in the format
-     * and if the current count is less than the specified
-     * field width.  If 1 then fill in the leading zeros. 
-     * Temporarily leave room in the field for an optional
-     * plus or minus sign. */
-    pt++;
-    if (info->zero)
-    {
-        len = 1 + strlen(pt);
-        while (info->width > len)
-        {
-            * (--pt) = '0';
-            len++;
-        }
-        len--;
-    }
-
-    /* Add leading plus or minus sign, and/or leading zero if
-     * needed. */
-    if (neg)
-        * (--pt) = '-';
-    else if (info->plus)
-        * (--pt) = '+';
-    else if (info->space)
-        * (--pt) = ' ';
-    else if ( (info->zero) && (info->width > len))
-        * (--pt) = '0';
-    info->precision = DEFAULT;
-    strout(info, pt, strlen(pt));
+    numout(info, neg ? "-" : info->plus ? "+" : info->space ? " " : "", pt + 1, len);
 }
 
 
@@ -384,11 +375,10 @@ hexout(sfmt_info *info, va_list *arg_pt)
     char  hexbuff[4 * sizeof(unsigned long)],
           * pt;
     const char * d = info->type == 'X' ? __HEXstr : __hexstr;
-    unsigned long val, count;
+    const char * prefix = "";
+    unsigned long val;
     long len;
 
-    count = 0;
-
     if (info->type == 'p')
         val = (unsigned long) va_arg((*arg_pt), void *);
     else if (info->mod == 'h')
@@ -398,64 +388,23 @@ hexout(sfmt_info *info, va_list *arg_pt)
     else
         val = va_arg((*arg_pt), unsigned int);
 
-    pt = &hexbuff[15];
-    *pt-- = 0;
-
-    do
-    {
-        * (pt--) = d[val & 0xf];
-        count++;
-    } while (val >>= 4);
+    pt  = &hexbuff[sizeof hexbuff - 1];
+    len = 0;
 
-    while ((long)count < info->precision)
-    {
-        * (pt--) = '0';
-        count++;
-    }
+    /* The "alternate form" of a number other than 0 has 0x or 0X in front. */
+    if (info->type == 'p' || (info->alter && val))
+        prefix = info->type == 'X' ? "0X" : "0x";
 
-    /* Next check to see if the 0 flag was used in the format
-     * and if the current count is less than the specified
-     * field width.  If 1 then fill in the leading zeros. 
-     * Temporarily leave room in the field for an optional
-     * plus or minus sign. */
-    pt++;
-    if (info->zero)
+    if (val || info->precision != 0)
     {
-        len = strlen(pt);
-        if (info->alter)
-        {
-            len += 2;
-            while (info->width > len)
-            {
-                * (--pt) = '0';
-                len++;
-            }
-            len -= 2;
-        }
-        else
+        do
         {
-            while (info->width > len)
-            {
-                * (--pt) = '0';
-                len += 1;
-            }
-        }
+            * (pt--) = d[val & 0xf];
+            len++;
+        } while (val >>= 4);
     }
 
-    /*
-     * If the "alternate form" flag is set, add 0x or 0X to the
-     * front of string
-     */
-    if (info->alter || info->type == 'p')
-    {
-        if (info->type == 'x' || info->type == 'p')
-            * (--pt) = 'x';
-        else
-            * (--pt) = 'X';
-        * (--pt) = '0';
-    }
-    info->precision = DEFAULT;
-    strout(info, pt, strlen(pt));
+    numout(info, prefix, pt + 1, len);
 }
 
 
-- 
2.43.0


From 45bb632e756b196cd6737efcc39415ee45e5aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 152/162] fix: emb-printf: print octal numbers as documented

---
 src/emb-printf.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 1068913..f070f64 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -363,7 +363,7 @@ decout(sfmt_info * info, int do_unsigned, va_list * arg_pt)
 
 
 /*
- * Output a value as a hexadecimal number
+ * Output a value as a hexadecimal or octal number
  * INPUTS: info = ptr to format data structure
  *         arg_pt = ptr to next argument in list
  */
@@ -378,6 +378,7 @@ hexout(sfmt_info *info, va_list *arg_pt)
     const char * prefix = "";
     unsigned long val;
     long len;
+    int shift = info->type == 'o' ? 3 : 4;
 
     if (info->type == 'p')
         val = (unsigned long) va_arg((*arg_pt), void *);
@@ -392,16 +393,23 @@ hexout(sfmt_info *info, va_list *arg_pt)
     len = 0;
 
     /* The "alternate form" of a number other than 0 has 0x or 0X in front. */
-    if (info->type == 'p' || (info->alter && val))
+    if (info->type == 'p' || (info->alter && val && info->type != 'o'))
         prefix = info->type == 'X' ? "0X" : "0x";
 
     if (val || info->precision != 0)
     {
         do
         {
-            * (pt--) = d[val & 0xf];
+            * (pt--) = d[val & ((1 << shift) - 1)];
             len++;
-        } while (val >>= 4);
+        } while (val >>= shift);
+    }
+
+    /* The alternate form of an octal number starts with a 0. */
+    if (info->type == 'o' && info->alter && (len == 0 || pt[1] != '0') && info->precision <= len)
+    {
+        * (pt--) = '0';
+        len++;
     }
 
     numout(info, prefix, pt + 1, len);
@@ -599,7 +607,7 @@ _print_internal(sfmt_info * info, const char * format, va_list *arg_pt)
             case 'd':
                 decout(info, 0, arg_pt);
                 break;
-            case 'x': case 'X': case 'p':
+            case 'x': case 'X': case 'p': case 'o':
                 hexout(info, arg_pt);
                 break;
             case 's':
-- 
2.43.0


From b1281646acabac0e6ff970744a0dd6dca410d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 153/162] fix: emb-printf: %i is the same as %d

---
 src/emb-printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index f070f64..44c084f 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -604,7 +604,7 @@ _print_internal(sfmt_info * info, const char * format, va_list *arg_pt)
             case 'N':
                 ipout(info, 1, arg_pt);
                 break;
-            case 'd':
+            case 'd': case 'i':
                 decout(info, 0, arg_pt);
                 break;
             case 'x': case 'X': case 'p': case 'o':
-- 
2.43.0


From 8bda839eb5aa0d03e16df7df705f26927d3bcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 154/162] fix: emb-printf: the character 0 was not printed

---
 src/emb-printf.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 44c084f..0c357c3 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -127,11 +127,6 @@ strout(sfmt_info * info, char * str, long len)
     long size;
     unsigned long i;
     char pad = ' ';
-    int c;
-
-    /* Check for a NULL string. */
-    if (len == 0)
-        str = (char *)" (null)";
 
     /* Calc field width */
     size = (info->width < len ) ? len : info->width;
@@ -145,9 +140,9 @@ strout(sfmt_info * info, char * str, long len)
     }
 
     /* print string until EOS or width is satisfied. */
-    for (; (c = *str) && len > 0; str++, len--)
+    for (; len > 0; str++, len--)
     {
-        info->outchar(&info->arg, c);
+        info->outchar(&info->arg, *str);
         size--;
     }
 
-- 
2.43.0


From 0a44cb276c45a23c7ab966f6fd0cba5ac02b50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 155/162] fix: emb-printf: a format that ends in an incomplete
 conversion was read past its end

---
 src/emb-printf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 0c357c3..7a70667 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -614,6 +614,9 @@ _print_internal(sfmt_info * info, const char * format, va_list *arg_pt)
             case '%':
                 info->outchar(&info->arg, '%');
                 break;
+            case 0:
+                /* The format ends in the middle of a conversion. */
+                return;
             default:
                 info->outchar(&info->arg, ch);
                 break;
-- 
2.43.0


From a6b35e88a1f1fafffb41a5f0465e54b48ec64058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 156/162] fix: emb-printf: sprintf returns the number of
 characters

---
 src/emb-printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emb-printf.c b/src/emb-printf.c
index 7a70667..219a942 100644
--- a/src/emb-printf.c
+++ b/src/emb-printf.c
@@ -665,7 +665,7 @@ _XSPRINTF(char * str, const char * format, ...)
 
     /* Null terminate what's left. */
     *((char *)info.arg) = 0;
-    return 0;
+    return (char *)info.arg - str;
 }
 
 
-- 
2.43.0


From f6c73c3c5875650029ed642aa975a59502b031de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 157/162] fix: depweed: a dependency file without a rule
 stopped the run

---
 tools/depweed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/depweed.py b/tools/depweed.py
index 9897edd..80ee91c 100755
--- a/tools/depweed.py
+++ b/tools/depweed.py
@@ -87,6 +87,11 @@ def validate_dep(dfile):
         deplines.append(line.rstrip(' \\'))
 
     makerule = ' '.join(deplines)
+    if ':' not in makerule:
+        debug_info("no rule, deleting: %s" % dfile)
+        os.unlink(dfile)
+        return
+
     deps = strip_targetname(makerule)
     debug_info("deps|%s" % deps)
 
-- 
2.43.0


From 8afde10f12033db5724057f465b3615eeef28cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 158/162] fix: depweed: names with spaces and other escaped
 characters counted as missing

---
 tools/depweed.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/depweed.py b/tools/depweed.py
index 80ee91c..c313dfe 100755
--- a/tools/depweed.py
+++ b/tools/depweed.py
@@ -20,6 +20,7 @@ usage = """Usage: depweed.py [*.d]"""
 import sys
 import os
 import string
+import re
 
 
 class Fail(Exception):
@@ -66,6 +67,14 @@ def strip_targetname(makerule):
     return deps.strip()
 
 
+def split_deps(deps):
+    """Split the dependencies into file names. gcc writes a space as '\\ ',
+    a '#' as '\\#' and a '$' as '$$'."""
+
+    names = re.findall(r'(?:\\[ #]|\S)+', deps)
+    return [re.sub(r'\\([ #])', r'\1', n).replace('$$', '$') for n in names]
+
+
 def validate_dep(dfile):
     """Check the .d file is not empty, and that all mentioned dependency
     files exist."""
@@ -95,7 +104,7 @@ def validate_dep(dfile):
     deps = strip_targetname(makerule)
     debug_info("deps|%s" % deps)
 
-    ifiles = deps.split()
+    ifiles = split_deps(deps)
     for f in ifiles:
         if not os.path.isfile(f):
             debug_info("%s doesn't exist, deleting %s" % (f, dfile))
-- 
2.43.0


From e4daba6b1f04481bb11e31c0d732d3ecb0fa00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 159/162] fix: hashtab: a sorted iterator of an empty table has
 nothing to give back to the memory manager

---
 src/hashtable/hashtab_iter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 347cd3f..db57060 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -394,7 +394,8 @@ sorted_iter_end(hash_table_iter * it)
 {
     assert(it->table);
 
-    tFREE(it->table, it->un.sorted.nodes);
+    // an empty table has no nodes to give back
+    if (it->un.sorted.nodes) tFREE(it->table, it->un.sorted.nodes);
     it->un.sorted.max   = 0;
     it->un.sorted.nodes = 0;
     return 0;
-- 
2.43.0


From 6aee81553170e80b3f5e213305cea38ac1facd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 160/162] fix: darwin_sem: sem_post used the semaphore after a
 waiter could destroy it

---
 src/posix/darwin_sem.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/posix/darwin_sem.c b/src/posix/darwin_sem.c
index 71604b0..ebde633 100644
--- a/src/posix/darwin_sem.c
+++ b/src/posix/darwin_sem.c
@@ -84,10 +84,13 @@ sem_post(sem_t* s)
 
     s->s_val++;
 
-    pthread_mutex_unlock(&s->s_lock);
-
-    /* Wake up all waiters */
+    /*
+     * Wake up all waiters. This is done while holding the lock: a
+     * waiter may destroy the semaphore as soon as it gets the lock.
+     */
     pthread_cond_broadcast(&s->s_cond);
+
+    pthread_mutex_unlock(&s->s_lock);
     return 0;
 }
 
-- 
2.43.0


From 8bd5aab76be57d7ecbca20c7ffaaf68dae471904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 161/162] fix: darwin_sem: sem_init reports failure as
 documented

---
 src/posix/darwin_sem.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/posix/darwin_sem.c b/src/posix/darwin_sem.c
index ebde633..8021d78 100644
--- a/src/posix/darwin_sem.c
+++ b/src/posix/darwin_sem.c
@@ -42,9 +42,16 @@ sem_init(sem_t* s, int pshared, unsigned int val)
     (void)pshared;  // unused
 
     s->s_val = val;
-    pthread_mutex_init(&s->s_lock, 0);
-    if (0 != (r = pthread_cond_init(&s->s_cond, 0)))
-        return r;
+    if (0 != (r = pthread_mutex_init(&s->s_lock, 0))) {
+        errno = r;
+        return -1;
+    }
+
+    if (0 != (r = pthread_cond_init(&s->s_cond, 0))) {
+        pthread_mutex_destroy(&s->s_lock);
+        errno = r;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From edf5ed5cc13309f2fb39ddca21dc0d35d8b149ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:56 +0000
Subject: [PATCH 162/162] fix: mempool: refuse object sizes that wrap around
 when rounded up

---
 src/mempool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 03fc037..d10bb63 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -322,6 +322,9 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
 {
     memset(a, 0, sizeof *a);
 
+    /* Rounding these sizes up would wrap around. */
+    if (block_size > UINT32_MAX - MINALIGNMENT + 1) return -EINVAL;
+
     /*
      * Make sure block_size has minimum qualifications.
      */
@@ -423,6 +426,9 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
 
     if (!(a && pool && poolsize)) return -EINVAL;
 
+    /* Rounding these sizes up would wrap around. */
+    if (block_size > UINT32_MAX - MINALIGNMENT + 1) return -EINVAL;
+
     memset(a, 0, sizeof *a);
 
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
-- 
2.43.0

