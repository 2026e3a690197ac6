From 92257d8a4bf2eb2bf09e69e7a74c514f97c1420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 01/96] fix: hlist: keep back link right when adding after a
 node

---
 include/bfdev/hlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..ee4d3d3 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
-- 
2.43.0


From 246ceffa294abf22c3e58cb9b77f115c3b89834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 02/96] fix: hlist: link node added before another one

---
 include/bfdev/hlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index ee4d3d3..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From 6878e12f06efa473327118707c141f883b279ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 03/96] fix: ilist: hand the index link to the next node on
 removal

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From fc834a49d58e5eeb6195ee61b9ef52c75bf4a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 04/96] fix: array: refuse counts whose byte size overflows

---
 src/array.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..7041800 100644
--- a/src/array.c
+++ b/src/array.c
@@ -9,16 +9,23 @@
 #include <bfdev/overflow.h>
 #include <export.h>
 
-static inline size_t
-array_reqsize(bfdev_array_t *array, unsigned long count)
+static inline bool
+array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
 {
     unsigned long request;
     size_t size;
 
     request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    if (bfdev_overflow_check_mul(request, array->cells, &size))
+        return true;
 
-    return size;
+    /* rounding up would exceed the size range */
+    if (size > (BFDEV_SIZE_MAX >> 1) + 1)
+        return true;
+
+    *sizep = bfdev_pow2_roundup(size);
+
+    return false;
 }
 
 static inline int
@@ -46,7 +53,9 @@ array_apply(bfdev_array_t *array, unsigned long count)
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
-    reqsize = array_reqsize(array, count);
+    if (bfdev_unlikely(array_reqsize(array, count, &reqsize)))
+        return -BFDEV_EOVERFLOW;
+
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
     return array_resize(array, reqsize);
-- 
2.43.0


From 53d52cfaaafa36a854d913f49dc391c66ec3a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 05/96] fix: array: take the larger count without narrowing it

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 7041800..4676309 100644
--- a/src/array.c
+++ b/src/array.c
@@ -15,7 +15,7 @@ array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
     unsigned long request;
     size_t size;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
     if (bfdev_overflow_check_mul(request, array->cells, &size))
         return true;
 
-- 
2.43.0


From 8662010bbd54903e08b4274e309c858260ded771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 06/96] fix: rbtree: make the cached find-last and remove
 helpers usable

---
 include/bfdev/rbtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..bcc315e 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From 5cd42dea1062697a5c484a7d32260342e8563f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 07/96] fix: segtree: set a new node's subtree end before
 rebalancing

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 1b6fa6396ea97a4d0ed6b8df8c6a4fe7ac5bec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 08/96] fix: btree: name the key copy helper right in the safe
 walks

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..eb6e3f6 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                         \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                 \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From b7db5ba304fbaf7c94d22091222db29b2eaeadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 09/96] fix: btree: keep the middle key of an odd split in the
 lower half

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..2c73dde 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
-- 
2.43.0


From 316bad0614c3fed42e59b520bc5b440bfdcd0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 10/96] fix: btree: report no last element in an emptied tree

---
 src/btree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 2c73dde..dfbf061 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -619,7 +619,10 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (!last--)
+        return NULL;
+
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From cd64363889ec3e027dedd2288ce082830106070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 11/96] fix: btree: walk backwards from an all-zero key

---
 src/btree.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index dfbf061..d0d39fb 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -672,9 +672,6 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key)
     if (bfdev_unlikely(!height))
         return NULL;
 
-    if (btree_empty_key(root, key))
-        return NULL;
-
     for (depth = 1; depth <= height; ++depth) {
         node = bnode_find_parent(root, key, depth);
         index = bnode_find_index(root, node, key);
-- 
2.43.0


From bb84816aef3763dd39fb241d4c948313f9237526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 12/96] fix: btree: do not remove a key that matches no live
 slot

---
 src/btree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index d0d39fb..1290e94 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -490,7 +490,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
     const bfdev_btree_ops_t *ops;
     bfdev_btree_layout_t *layout;
     bfdev_btree_node_t *node;
-    unsigned int index, last, count;
+    unsigned int index, fill, last, count;
     void *clash, *value;
 
     if (level > root->height) {
@@ -504,11 +504,12 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     node = bnode_find_parent(root, key, level);
     index = bnode_find_index(root, node, key);
-    last = bnode_fill_index(root, node, index) - 1;
+    fill = bnode_fill_index(root, node, index);
+    last = fill - 1;
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index >= fill || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
-- 
2.43.0


From 02b14a15e398365d99266fa55d76298100b1570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 13/96] fix: btree: update only live slots and never to NULL

---
 src/btree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 1290e94..c875108 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -296,6 +296,9 @@ bfdev_btree_update(bfdev_btree_root_t *root, uintptr_t *key, void *value)
     bfdev_btree_node_t *node;
     unsigned int index;
 
+    if (bfdev_unlikely(!value))
+        return -BFDEV_EINVAL;
+
     node = bnode_lookup(root, key);
     if (!node)
         return -BFDEV_ENOENT;
@@ -303,7 +306,7 @@ bfdev_btree_update(bfdev_btree_root_t *root, uintptr_t *key, void *value)
     layout = root->layout;
     index = bnode_key_index(root, node, key);
 
-    if (index == layout->keynum)
+    if (index == layout->keynum || !bnode_get_value(root, node, index))
         return -BFDEV_ENOENT;
 
     bnode_set_value(root, node, index, value);
-- 
2.43.0


From 1943b49e833bb62660e106dd6d6e88bcec4eb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 14/96] fix: btree: shrink a root that is left with a single
 child

---
 src/btree.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index c875108..f0183cd 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -342,14 +342,15 @@ btree_shrink(bfdev_btree_root_t *root)
 {
     bfdev_btree_node_t *node;
 
-    if (root->height < 2)
-        return;
-
-    node = root->node;
-    root->height--;
+    while (root->height > 1) {
+        node = root->node;
+        if (bnode_get_value(root, node, 1))
+            break;
 
-    root->node = bnode_get_value(root, node, 0);
-    bnode_free(root, node);
+        root->height--;
+        root->node = bnode_get_value(root, node, 0);
+        bnode_free(root, node);
+    }
 }
 
 static int
@@ -529,12 +530,11 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
     bnode_clear_index(root, node, count);
 
     /* rebalance node tree */
-    if (last < layout->keynum / 2) {
-        if (level < root->height)
-            remove_rebalance(root, level, key, node, last);
-        else if (last == 1)
+    if (level >= root->height) {
+        if (last == 1)
             btree_shrink(root);
-    }
+    } else if (last < layout->keynum / 2)
+        remove_rebalance(root, level, key, node, last);
 
     return value;
 }
-- 
2.43.0


From 4e864e453a493f3003b2ac4dd844f6b1d047fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 15/96] fix: radix: refuse offsets just beyond the tree's range

---
 src/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radix.c b/src/radix.c
index c29b352..770de93 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -42,7 +42,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
     BFDEV_BUG_ON(level > RADIX_LEVEL_MAX);
 
     /* Directly check capacity overflow */
-    if (bfdev_ilog2(offset) > radix_depth_shift(level))
+    if (bfdev_ilog2(offset) >= radix_depth_shift(level))
         return false;
 
     node = root->node;
-- 
2.43.0


From 7d62fc0e8f602f02fe6486dbe47536bd7e114809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 16/96] fix: radix: give full-height trees room for every level

---
 src/radix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 770de93..599b321 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -70,7 +70,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
 export void *
 bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int index;
     bool contain;
@@ -178,7 +178,7 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
     unsigned int level, index;
@@ -377,7 +377,7 @@ bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -432,7 +432,7 @@ finish:
 export void *
 bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
-- 
2.43.0


From 9e6ce9963612122e975b60ee55c8ac42f73d8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 17/96] fix: radix: report absence when freeing a cell that is
 not there

---
 src/radix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/radix.c b/src/radix.c
index 599b321..24f45d3 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -191,6 +191,9 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
     node = parents[0].node;
     index = parents[0].index;
 
+    if (bfdev_unlikely(!bfdev_bit_test(node->bitmap, index)))
+        return -BFDEV_ENOENT;
+
     bfdev_bit_clr(node->bitmap, index);
     if (!bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
         return -BFDEV_ENOERR;
-- 
2.43.0


From 8c93f9e14126a5582a1076ebf3ed19cd9dc56df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 18/96] fix: radix: enumerate across empty leaves and levels

---
 src/radix.c | 195 ++++++++++++++++++++++++----------------------------
 1 file changed, 91 insertions(+), 104 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 24f45d3..3d5e419 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -276,105 +276,104 @@ bfdev_radix_root_release(bfdev_radix_root_t *root)
     root->node = NULL;
 }
 
-static inline bfdev_radix_node_t *
+static void *
 radix_left_most(bfdev_radix_node_t *node, unsigned int level,
-                uintptr_t *offset)
+                uintptr_t *offsetp)
 {
     unsigned int walk;
+    uintptr_t offset;
+    void *value;
 
-    while (level--) {
-        for (walk = 0; walk < BFDEV_RADIX_ARY; ++walk) {
-            if (!node->child[walk])
-                continue;
+    if (!level) {
+        walk = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
+        if (walk >= BFDEV_RADIX_BLOCK)
+            return NULL;
 
-            node = node->child[walk];
-            *offset |= (uintptr_t)walk << radix_depth_shift(level);
-            break;
-        }
+        *offsetp |= walk;
+        return &node->block[walk];
+    }
 
-        if (walk == BFDEV_RADIX_ARY)
-            return NULL;
+    /* the leftmost branch may hold no cell, so keep looking */
+    level--;
+    for (walk = 0; walk < BFDEV_RADIX_ARY; ++walk) {
+        if (!node->child[walk])
+            continue;
+
+        offset = *offsetp | (uintptr_t)walk << radix_depth_shift(level);
+        value = radix_left_most(node->child[walk], level, &offset);
+        if (value) {
+            *offsetp = offset;
+            return value;
+        }
     }
 
-    return node;
+    return NULL;
 }
 
-static inline bfdev_radix_node_t *
+static void *
 radix_right_most(bfdev_radix_node_t *node, unsigned int level,
-                 uintptr_t *offset)
+                 uintptr_t *offsetp)
 {
     unsigned int walk;
+    uintptr_t offset;
+    void *value;
 
-    while (level--) {
-        walk = BFDEV_RADIX_ARY;
-        while (walk--) {
-            if (!node->child[walk])
-                continue;
+    if (!level) {
+        walk = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
+        if (walk >= BFDEV_RADIX_BLOCK)
+            return NULL;
 
-            node = node->child[walk];
-            *offset |= (uintptr_t)walk << radix_depth_shift(level);
-            break;
-        }
+        *offsetp |= walk;
+        return &node->block[walk];
+    }
 
-        if (walk > BFDEV_RADIX_ARY)
-            return NULL;
+    level--;
+    for (walk = BFDEV_RADIX_ARY; walk--;) {
+        if (!node->child[walk])
+            continue;
+
+        offset = *offsetp | (uintptr_t)walk << radix_depth_shift(level);
+        value = radix_right_most(node->child[walk], level, &offset);
+        if (value) {
+            *offsetp = offset;
+            return value;
+        }
     }
 
-    return node;
+    return NULL;
 }
 
-export void *
-bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+/* offset of the first cell below entry @index of a node on @level */
+static inline uintptr_t
+radix_branch_offset(uintptr_t offset, unsigned int level, unsigned int index)
 {
-    unsigned int count, level;
-    bfdev_radix_node_t *node;
-    uintptr_t offset;
-
-    node = root->node;
-    level = root->level;
+    unsigned int shift;
 
-    if (!node)
-        return NULL;
+    shift = radix_depth_shift(level - 1);
+    offset &= ~BFDEV_BIT_LOW_MASK(shift);
+    offset &= ~((uintptr_t)RADIX_ARY_MASK << shift);
 
-    offset = 0;
-    node = radix_left_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
+    return offset | (uintptr_t)index << shift;
+}
 
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
+export void *
+bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+{
+    *offsetp = 0;
+    if (!root->node)
         return NULL;
 
-    offset |= count;
-    *offsetp = offset;
-
-    return &node->block[count];
+    return radix_left_most(root->node, root->level, offsetp);
 }
 
 export void *
 bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    unsigned int count, level;
-    bfdev_radix_node_t *node;
-    uintptr_t offset;
-
-    node = root->node;
-    level = root->level;
-
-    if (!node)
-        return NULL;
-
-    offset = 0;
-    node = radix_right_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
-
-    count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
+    *offsetp = 0;
+    if (!root->node)
         return NULL;
 
-    offset |= count;
-    *offsetp = offset;
-
-    return &node->block[count];
+    return radix_right_most(root->node, root->level, offsetp);
 }
 
 export void *
@@ -383,7 +382,9 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
+    uintptr_t offset;
     bool contain;
+    void *value;
 
     contain = radix_parent(root, *offsetp, parents);
     if (bfdev_unlikely(!contain))
@@ -398,8 +399,11 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
         return NULL;
 
     count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, index + 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
+    if (count < BFDEV_RADIX_BLOCK) {
+        *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+        *offsetp |= count;
+        return &node->block[count];
+    }
 
     for (level = 1; level <= root->level; ++level) {
         node = parents[level].node;
@@ -409,27 +413,16 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
             if (!node->child[index])
                 continue;
 
-            count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
+            offset = radix_branch_offset(*offsetp, level, index);
+            value = radix_left_most(node->child[index], level - 1, &offset);
+            if (value) {
+                *offsetp = offset;
+                return value;
+            }
         }
     }
 
     return NULL;
-
-downward:
-    node = radix_left_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
 }
 
 export void *
@@ -438,7 +431,9 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
+    uintptr_t offset;
     bool contain;
+    void *value;
 
     contain = radix_parent(root, *offsetp, parents);
     if (bfdev_unlikely(!contain))
@@ -453,8 +448,11 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
         return NULL;
 
     count = bfdev_find_prev_bit(node->bitmap, BFDEV_RADIX_BLOCK, index - 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
+    if (count < BFDEV_RADIX_BLOCK) {
+        *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+        *offsetp |= count;
+        return &node->block[count];
+    }
 
     for (level = 1; level <= root->level; ++level) {
         node = parents[level].node;
@@ -464,25 +462,14 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
             if (!node->child[index])
                 continue;
 
-            count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
+            offset = radix_branch_offset(*offsetp, level, index);
+            value = radix_right_most(node->child[index], level - 1, &offset);
+            if (value) {
+                *offsetp = offset;
+                return value;
+            }
         }
     }
 
     return NULL;
-
-downward:
-    node = radix_right_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
 }
-- 
2.43.0


From 318331e9224f1a06962a147bb2d8f4839c57ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 19/96] fix: radix: map offsets back to indices for odd cell
 sizes

---
 include/bfdev/radix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 2165537..4277664 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -90,8 +90,8 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
     /* object per block */
     num = BFDEV_RADIX_BLOCK / cells;
-    return (offset / num) / BFDEV_RADIX_BLOCK +
-           (offset % num) / cells;
+    return (offset / BFDEV_RADIX_BLOCK) * num +
+           (offset % BFDEV_RADIX_BLOCK) / cells;
 }
 
 #define bfdev_radix_cast(radix) \
-- 
2.43.0


From 1517aaed082269615933e25faf71d522b3eb77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 20/96] fix: fifo: store a record's header in front of the
 record

---
 src/fifo.c | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..5f5d979 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -58,40 +58,27 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset++ & mask) * fifo->esize];
     }
 
     return length;
 }
 
 static __bfdev_always_inline void
-fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
+fifo_record_poke(bfdev_fifo_t *fifo, unsigned long start,
+                 unsigned long len, unsigned long recsize)
 {
     unsigned long mask, offset;
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = start + recsize;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += fifo->esize;
+        data[(--offset & mask) * fifo->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
@@ -190,7 +177,7 @@ bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
     if (len + record > fifo_unused(fifo))
         return 0;
 
-    fifo_record_poke(fifo, len, record);
+    fifo_record_poke(fifo, fifo->in, len, record);
     fifo_in_copy(fifo, buff, len, fifo->in + record);
     fifo->in += len + record;
 
-- 
2.43.0


From dc20f0f77077e2f736cafcc53ea1d8d2718ecdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 21/96] fix: fifo: refuse records whose length cannot be stored

---
 src/fifo.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fifo.c b/src/fifo.c
index 5f5d979..c635a5c 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -174,7 +174,14 @@ export unsigned long
 bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
                      unsigned long record)
 {
-    if (len + record > fifo_unused(fifo))
+    unsigned long unused;
+
+    unused = fifo_unused(fifo);
+    if (record > unused || len > unused - record)
+        return 0;
+
+    /* The length has to fit into the record header */
+    if (record < sizeof(len) && len >> (record * BFDEV_BITS_PER_U8))
         return 0;
 
     fifo_record_poke(fifo, fifo->in, len, record);
-- 
2.43.0


From cf7490bdb8f3b310cbf7882224be408f353142bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 22/96] fix: fifo: count elements, not bytes, in single record
 access

---
 include/bfdev/fifo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..33b4e22 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
-- 
2.43.0


From 2ad7e67b1d9113bb4cb1a99cc645e6bdf2d4de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 23/96] fix: ringbuf: store and drop whole records

---
 src/ringbuf.c | 51 ++++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..62e98d6 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -58,40 +58,27 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset++ & mask) * ringbuf->esize];
     }
 
     return length;
 }
 
 static __bfdev_always_inline void
-ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long recsize)
+ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long start,
+                    unsigned long len, unsigned long recsize)
 {
     unsigned long mask, offset;
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
+    offset = start + recsize;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += ringbuf->esize;
+        data[(--offset & mask) * ringbuf->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
@@ -200,24 +187,26 @@ export unsigned long
 bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned long len,
                         unsigned long record)
 {
-    unsigned long size, offset;
-    unsigned long overflow, datalen;
+    unsigned long size, start, limit;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
+    if (record >= size)
+        return 0;
 
-    offset = ringbuf->in + record;
-    ringbuf->in = offset + len;
+    /* The record has to fit into the buffer, its length into the header */
+    limit = size - record;
+    if (record < sizeof(limit))
+        bfdev_min_adj(limit, BFDEV_BIT(record * BFDEV_BITS_PER_U8) - 1);
+    bfdev_min_adj(len, limit);
 
-    overflow = ringbuf_overflow(ringbuf);
-    while (overflow) {
-        datalen = record + ringbuf_record_peek(ringbuf, record);
-        ringbuf->out += datalen;
-        overflow -= bfdev_min(datalen, overflow);
-    }
+    start = ringbuf->in;
+    ringbuf->in = start + record + len;
+
+    while (ringbuf_overflow(ringbuf))
+        ringbuf->out += record + ringbuf_record_peek(ringbuf, record);
 
-    ringbuf_record_poke(ringbuf, len, record);
-    ringbuf_in_copy(ringbuf, buff, len, offset);
+    ringbuf_record_poke(ringbuf, start, len, record);
+    ringbuf_in_copy(ringbuf, buff, len, start + record);
 
     return len;
 }
-- 
2.43.0


From 3fed3c3ef50a261f51c2dff813bce2d0047943b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 24/96] fix: ringbuf: count elements, not bytes, in single
 record access

---
 include/bfdev/ringbuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..62f1dc7 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);        \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
-- 
2.43.0


From aaa150a1ce5a5c893761a440721c9b4f50688341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 25/96] fix: circle: use the local end in
 BFDEV_CIRCLE_SPACE_END

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..79edbcf 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;                 \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From e6662f92e37562cfa7df05beae97eea96e8a11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 26/96] fix: cache: forget entry state on reset

---
 src/cache/cache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..67f2b50 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -283,6 +283,7 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
     head->flags = 0;
     head->pending = 0;
     head->used = 0;
+    head->changed = 0;
     head->hits = 0;
     head->misses = 0;
     head->starve = 0;
@@ -296,6 +297,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From e62bbf34cd053855606afe1b7b258a546b7dd1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 27/96] fix: bloom: clear the whole bitmap on flush

---
 src/bloom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..73fa17c 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,7 +57,7 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
+    size = BFDEV_BITS_WORD(bloom->capacity) * sizeof(*bloom->bitmap);
     bfport_memset(bloom->bitmap, 0, size);
 }
 
-- 
2.43.0


From 4535ee74e750e9cf3a4b1e14d311a4a4199de82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 28/96] fix: bloom: refuse a capacity that rounds to nothing

---
 src/bloom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bloom.c b/src/bloom.c
index 73fa17c..075fcc5 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -70,6 +70,8 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
     size = BFDEV_BITS_DIV_LONG(capacity);
+    if (bfdev_unlikely(!size))
+        return NULL;
 
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
     if (bfdev_unlikely(!bloom))
-- 
2.43.0


From 1c4c22a70ef4385e1a45cf037ae8e000bab4b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 29/96] fix: memalloc: refuse a size that wraps when aligned

---
 src/memalloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..0f32425 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,6 +129,9 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
+    if (bfdev_unlikely(size > head->avail))
+        return NULL;
+
     bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
-- 
2.43.0


From fb36380bc03877be6e6744f78fe0b3bb57ae99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 30/96] fix: memalloc: let realloc reuse its own block when the
 pool is full

---
 src/memalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 0f32425..abc0efd 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -177,10 +177,10 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
+    if (bfdev_unlikely(resize > BFDEV_SIZE_MAX - BFDEV_MEMALLOC_ALIGN))
         return NULL;
 
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
-- 
2.43.0


From 1fb189a5b35a238600f54d40a689035c99dc174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 31/96] fix: allocpool: refuse sizes that overflow the offset

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From eb7e14fd6f95109d5086c0d4fba8230136fddb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 32/96] fix: allocator: refuse arrays whose byte size overflows

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..39c35e9 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_malloc(alloc, bytes);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_zalloc(alloc, bytes);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, bytes);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From b67982afccad4807fe40c87bdcea5f6aeaf1df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 33/96] fix: respool: unlink the nodes when releasing all

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From 45962dcfa47f21e56cf292fed199d88cc97fc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 34/96] fix: bitmap: stop ranged set and clear at the end of
 the range

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 18cb3ae7fa3ce513c360db0b01ee0534ebf9af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 35/96] fix: bitmap: shift right with a ragged last word

---
 src/bitmap.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..1dc8987 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -223,30 +223,24 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
     rem = BFDEV_BITS_MOD_LONG(shift);
     index = 0;
 
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
+    while (index + offset < length) {
+        vlow = src[index + offset];
+        if (index + offset + 1 == length)
+            vlow &= BFDEV_BIT_LOW_MASK(bits);
+        vlow >>= rem;
+
+        vhigh = 0;
+        if (rem && index + offset + 1 < length) {
+            vhigh = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                vhigh &= BFDEV_BIT_LOW_MASK(bits);
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        }
 
         value = vhigh | vlow;
         dest[index++] = value;
     }
 
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
-    }
-
     if (offset)
         bfport_memset(dest + length - offset, 0, offset * sizeof(*dest));
 }
-- 
2.43.0


From 30345e844747fd23294393bb0e3e5c0efade65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 36/96] fix: bitmap: equality at constant widths

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From 59a14020778133ac9058cd1232aa0079b206ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 37/96] fix: bitwalk: search for zeros across a whole
 constant-width word

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 186dce033fa5c001af680f86e604407c150e3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 38/96] fix: bitops: alias flnsp64 to flnsp

---
 include/bfdev/bitops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From 2b4ed5e6751bfd316cab81e7b19dc329fb0aaa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 39/96] fix: bitops: find the nth bit of a full word

---
 include/bfdev/asm-generic/bitops.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..979afe5 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -564,9 +564,6 @@ bfdev_arch_ffnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_ffsuf(word);
         if (!(*nr)--)
@@ -585,9 +582,6 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_flsuf(word);
         if (!(*nr)--)
-- 
2.43.0


From 18374b46ec025b101e34e6f485f1b216a8be28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 40/96] fix: bitrev: constant forms of 32 and 64 bit reversal

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From 02a6a09f9d5d7637f5bf7153ab90e35c1b7b0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 41/96] fix: align: compute the mask at the width of the result

---
 include/bfdev/align.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/align.h b/include/bfdev/align.h
index eea4361..951040e 100644
--- a/include/bfdev/align.h
+++ b/include/bfdev/align.h
@@ -38,7 +38,8 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_low(value, align) ({ \
-    (value) & ~((align) - 1); \
+    typeof((value) + (align)) __align = (align); \
+    (value) & ~(__align - 1); \
 })
 
 /**
@@ -47,7 +48,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_high(value, align) ({ \
-    typeof(align) __align = (align); \
+    typeof((value) + (align)) __align = (align); \
     ((value) + (__align - 1)) & ~(__align - 1); \
 })
 
-- 
2.43.0


From 5bef8e2e902e272887b840b8e069b3e748adf098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 42/96] fix: bitfield: FIELD_FIT for bits shifted off the top

---
 include/bfdev/bitfield.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitfield.h b/include/bfdev/bitfield.h
index 6dcd94e..69cdd1b 100644
--- a/include/bfdev/bitfield.h
+++ b/include/bfdev/bitfield.h
@@ -38,7 +38,7 @@ BFDEV_BEGIN_DECLS
  */
 #define BFDEV_FIELD_FIT(mask, val) ({ \
     typeof(mask) _mask = (mask); \
-    !((((typeof(mask))(val)) << bfdev_ffsuf(_mask)) & ~(_mask)); \
+    !((val) & ~(uintmax_t)((_mask) >> bfdev_ffsuf(_mask))); \
 })
 
 /**
-- 
2.43.0


From 9b373f4e9575408564da9e3deac5d0f28800cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 43/96] fix: mpi: carry and borrow through an all-ones limb

---
 src/mpi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..a4d72f0 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -104,8 +104,10 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
+        value = *ptra + carry;
         carry = value < *ptra++;
+        value += *ptrb;
+        carry |= value < *ptrb++;
         *ptrs++ = value;
 
         cnta--;
@@ -154,8 +156,10 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
+        value = *ptra - borrow;
         borrow = value > *ptra++;
+        borrow |= value < *ptrb;
+        value -= *ptrb++;
         *ptrs++ = value;
 
         cnta--;
-- 
2.43.0


From 3c8f927a42c5ccd2e6acba9ec25e5a5bad445ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 44/96] fix: mpi: carry of an in-place addi

---
 src/mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index a4d72f0..6784237 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
-- 
2.43.0


From 1d4778acce47744c1db7a2e8cb2f375940b125f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 45/96] fix: mpi: reload the second operand after resizing dest

---
 src/mpi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index 6784237..e6b4fdc 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -616,6 +616,7 @@ mpi_add(bfdev_mpi_t *dest,
         return retval;
 
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -680,6 +681,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
-- 
2.43.0


From 38ff00f248b373aef6e7b369787d745b694b6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 46/96] fix: mpi: multiply into either operand

---
 src/mpi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index e6b4fdc..d796d74 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -743,7 +743,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -760,11 +760,11 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
-- 
2.43.0


From 8a354236b1e5f371491453272e57f91744cbc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 47/96] fix: mpi: normalize the divisor before long division

---
 src/mpi.c | 233 ++++++++++++++++++++++++++----------------------------
 1 file changed, 114 insertions(+), 119 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index d796d74..faacf31 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -804,7 +804,7 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        return mpi_seti(rem, value);
 
     return -BFDEV_ENOERR;
 }
@@ -829,125 +829,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
-    unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
-
-        return -BFDEV_ENOERR;
-    }
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
-
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
-    if (bfdev_unlikely(retval))
-        return retval;
-
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
-
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
-
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
-
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
-
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
-    }
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_mod(bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
-
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
-
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
@@ -1123,6 +1006,118 @@ mpi_shri(bfdev_mpi_t *dest,
     return -BFDEV_ENOERR;
 }
 
+/* shift both operands so that the top bit of the divisor is set */
+static inline int
+mpi_normalize(bfdev_mpi_t *numer, bfdev_mpi_t *denom,
+              const bfdev_mpi_t *va, const bfdev_mpi_t *vb,
+              unsigned int *shift)
+{
+    BFDEV_MPI_TYPE *value;
+    int retval;
+
+    value = bfdev_array_peek(&vb->value, 1);
+    *shift = bfdev_clz(*value);
+
+    retval = mpi_shli(numer, va, *shift);
+    if (bfdev_unlikely(retval))
+        return retval;
+
+    return mpi_shli(denom, vb, *shift);
+}
+
+static inline int
+mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_DEFINE_MPI(numer, quot->alloc);
+    BFDEV_DEFINE_MPI(denom, quot->alloc);
+    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
+    unsigned long cnta, cntb, length;
+    unsigned int shift;
+    int retval;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_divi(quot, rem, va, *ptrb);
+
+    retval = mpi_normalize(&numer, &denom, va, vb, &shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    cnta = mpi_len(&numer);
+    length = cnta - cntb + 1;
+
+    retval = mpi_resize(quot, length);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    ptrs = mpi_val(quot);
+    ptra = mpi_val(&numer);
+    ptrb = mpi_val(&denom);
+
+    ptrs[length - 1] = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
+    mpi_relocation(quot);
+
+    if (quot != rem) {
+        BFDEV_BUG_ON(mpi_resize(&numer, cntb));
+        mpi_relocation(&numer);
+        retval = mpi_shri(rem, &numer, shift);
+    }
+
+finish:
+    bfdev_mpi_release(&numer);
+    bfdev_mpi_release(&denom);
+
+    return retval;
+}
+
+static inline int
+mpi_mod(bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_DEFINE_MPI(numer, rem->alloc);
+    BFDEV_DEFINE_MPI(denom, rem->alloc);
+    BFDEV_MPI_TYPE *ptra, *ptrb;
+    unsigned long cnta, cntb;
+    unsigned int shift;
+    int retval;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_modi(rem, va, *ptrb);
+
+    retval = mpi_normalize(&numer, &denom, va, vb, &shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    cnta = mpi_len(&numer);
+    ptra = mpi_val(&numer);
+    ptrb = mpi_val(&denom);
+
+    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
+    BFDEV_BUG_ON(mpi_resize(&numer, cntb));
+    mpi_relocation(&numer);
+    retval = mpi_shri(rem, &numer, shift);
+
+finish:
+    bfdev_mpi_release(&numer);
+    bfdev_mpi_release(&denom);
+
+    return retval;
+}
+
 /**
  * Multi Precision Integers (signed).
  *
-- 
2.43.0


From aecc2a20fa02cc5414b731f70cd8aec922e1ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 48/96] fix: mpi: addi of negative and subi from zero

---
 src/mpi.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index faacf31..c215b7f 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1221,7 +1221,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
@@ -1324,8 +1324,12 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             break;
 
         case BFDEV_LT:
-            value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            if (mpi_len(va)) {
+                value = mpi_val(va);
+                vi -= *value;
+            }
+
+            retval = mpi_seti(dest, vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From 78a1847b71c55bfe62069a3c6cf66b288f5f91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 49/96] fix: mpi: refuse zero divided by zero

---
 src/mpi.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index c215b7f..02bcfb1 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1392,6 +1392,10 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1443,6 +1447,10 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1494,6 +1502,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1532,6 +1544,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From 99d8b6ad5e5f28fc7f59e4f740be70996ae06288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 50/96] fix: mpi: zero has no sign, results keep their own sign

---
 src/mpi.c | 54 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 02bcfb1..7a054bd 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1125,6 +1125,13 @@ finish:
  * signed mpi and provide export api.
  */
 
+static inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    /* zero has no sign */
+    var->plus = plus || !mpi_len(var);
+}
+
 export int
 bfdev_mpi_cmp(const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
@@ -1366,7 +1373,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, va->plus == vb->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1381,7 +1388,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1390,12 +1397,16 @@ export int
 bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
+    bool plus, same;
     int retval, diff;
 
     /* divide by zero */
     if (bfdev_unlikely(!mpi_len(vb)))
         return -BFDEV_EOVERFLOW;
 
+    plus = va->plus;
+    same = va->plus == vb->plus;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1407,7 +1418,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            mpi_sign(quot, same);
             rem->plus = true;
             break;
 
@@ -1417,7 +1428,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plus);
             }
 
             /* quot can be equal to va */
@@ -1433,8 +1444,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(quot, same);
+            mpi_sign(rem, plus);
             break;
     }
 
@@ -1445,12 +1456,15 @@ export int
 bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
+    bool plus;
     int retval, diff;
 
     /* divide by zero */
     if (bfdev_unlikely(!vi))
         return -BFDEV_EOVERFLOW;
 
+    plus = va->plus;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1462,7 +1476,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            mpi_sign(quot, plus);
             rem->plus = true;
             break;
 
@@ -1472,7 +1486,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plus);
             }
 
             /* quot can be equal to va */
@@ -1488,8 +1502,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(quot, plus);
+            mpi_sign(rem, plus);
             break;
     }
 
@@ -1500,12 +1514,15 @@ export int
 bfdev_mpi_mod(bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
+    bool plus;
     int retval, diff;
 
     /* divide by zero */
     if (bfdev_unlikely(!mpi_len(vb)))
         return -BFDEV_EOVERFLOW;
 
+    plus = va->plus;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1522,7 +1539,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plus);
             }
             break;
 
@@ -1531,7 +1548,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, plus);
             break;
     }
 
@@ -1542,12 +1559,15 @@ export int
 bfdev_mpi_modi(bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
+    bool plus;
     int retval, diff;
 
     /* divide by zero */
     if (bfdev_unlikely(!vi))
         return -BFDEV_EOVERFLOW;
 
+    plus = va->plus;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1564,7 +1584,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plus);
             }
             break;
 
@@ -1573,7 +1593,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, plus);
             break;
     }
 
@@ -1650,7 +1670,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1704,6 +1724,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1746,7 +1767,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
@@ -1771,4 +1792,5 @@ export void
 bfdev_mpi_release(bfdev_mpi_t *var)
 {
     bfdev_array_release(&var->value);
+    var->plus = true;
 }
-- 
2.43.0


From 1eca5f52e6c87a2c5ea97829750f282534e67337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 51/96] fix: mpi: left shift close to the range of its count

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 7a054bd..1795f17 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -957,7 +957,7 @@ mpi_shli(bfdev_mpi_t *dest,
     if (!cnta)
         return mpi_seti(dest, 0);
 
-    rem = BFDEV_BITS_TO_LONG(shift);
+    rem = BFDEV_BITS_DIV_LONG(shift) + 1;
     length = cnta + rem;
 
     retval = mpi_resize(dest, length);
-- 
2.43.0


From 32afc71fb788bb1416cb653d07b0bae4ae80f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 52/96] fix: dword: write both remainder words for a short
 divisor

---
 src/dword.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..f550df3 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,8 +80,12 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-- 
2.43.0


From d088e266a9d523c4be33c5eb82b07d211d66d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 53/96] fix: dword: compare both words of a normalized divisor

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index f550df3..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -89,7 +89,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From c9c7e47e021b9633269e69024558574da465c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 54/96] fix: mpi: quotient wins when quot and rem are one
 variable

---
 src/mpi.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 1795f17..1205bc8 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1410,16 +1410,17 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            /* the quotient wins when both are one variable */
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, same);
             rem->plus = true;
+            mpi_sign(quot, same);
             break;
 
         case BFDEV_LT:
@@ -1444,8 +1445,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, same);
             mpi_sign(rem, plus);
+            mpi_sign(quot, same);
             break;
     }
 
@@ -1468,16 +1469,16 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, plus);
             rem->plus = true;
+            mpi_sign(quot, plus);
             break;
 
         case BFDEV_LT:
@@ -1502,8 +1503,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, plus);
             mpi_sign(rem, plus);
+            mpi_sign(quot, plus);
             break;
     }
 
-- 
2.43.0


From e3544c4d274ec35de6dfb7d917ca7a5799c734c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 55/96] fix: ascii85: do not read past a short last group

---
 src/crypto/ascii85.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..a0ea36d 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -13,6 +13,7 @@
 static __bfdev_always_inline void
 ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
 {
+    unsigned int count;
     uint32_t value;
     size_t index;
 
@@ -35,8 +36,9 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        value = 0;
+        for (count = 0; count < size; ++count)
+            value |= (uint32_t)((const uint8_t *)data)[count] << (24 - count * 8);
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From 3a6874899795b4ae0280b5953b53336c943bd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 56/96] fix: ascii85: decode the zero group as a group of its
 own

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index a0ea36d..831a319 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -69,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 469fa1ab2219b6766ea23aa1f073c8aaa9e0ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 57/96] fix: crc: feed the upper half of a 64-bit crc into the
 unrolled loop

---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From 9ac7c6eaf6b8793721443c6597a01e1e7a9bee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 58/96] fix: textsearch: shift tables need an entry for byte
 255

---
 src/textsearch/bm.c     | 4 ++--
 src/textsearch/sunday.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..fd4a192 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -100,7 +100,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..eb5af04 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -81,7 +81,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
-- 
2.43.0


From d834880ebf44587c00f329912d884dd5bc7c74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 59/96] fix: textsearch: compare bytes above 127 as unsigned

---
 src/textsearch/bm.c     | 2 +-
 src/textsearch/kmp.c    | 6 +++---
 src/textsearch/sunday.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index fd4a192..1ea0022 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -144,7 +144,7 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&bctx->tsc))
         bfport_memcpy(bctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        bctx->pattern[index] = toupper(((char *)pattern)[index]);
+        bctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     bm_compute_prefix(bctx);
 
     return &bctx->tsc;
diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ccb21f5 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
@@ -109,7 +109,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&kctx->tsc))
         bfport_memcpy(kctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        kctx->pattern[index] = toupper(((char *)pattern)[index]);
+        kctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     kmp_compute_prefix(kctx);
 
     return &kctx->tsc;
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index eb5af04..671743f 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -110,7 +110,7 @@ sunday_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&sctx->tsc))
         bfport_memcpy(sctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        sctx->pattern[index] = toupper(((char *)pattern)[index]);
+        sctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     sunday_compute_prefix(sctx);
 
     return &sctx->tsc;
-- 
2.43.0


From f6f018f5b6c2d074be799dde0f344fbc2c47d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 60/96] fix: textsearch: index the good suffix shifts by suffix
 length

---
 src/textsearch/bm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 1ea0022..295e729 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -85,7 +85,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -118,7 +118,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
-- 
2.43.0


From 23960e776495be73cc512371fc6b0beab5de30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 61/96] fix: textsearch: sunday must not read beyond the block

---
 src/textsearch/sunday.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 671743f..e69ec41 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -64,7 +64,7 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
             if (index == sctx->pattern_len)
                 return consumed + shift;
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
-- 
2.43.0


From e541e8c28a498551955a28c32884e4120fa7a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 62/96] fix: textsearch: restart the window at every block

---
 src/textsearch/bm.c     | 2 +-
 src/textsearch/sunday.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 295e729..8d0e05b 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -50,9 +50,9 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
 
     for (;;) {
+        shift = bctx->pattern_len - 1;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index e69ec41..d1eefc9 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -48,9 +48,9 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
 
     for (;;) {
+        shift = 0;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
-- 
2.43.0


From 6743465b3a70184a4a58cac763e2bf0dfcca176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 63/96] fix: textsearch: let bm and sunday continue after a
 match

---
 src/textsearch/bm.c     | 6 ++++--
 src/textsearch/sunday.c | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 8d0e05b..3f3ce5d 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -63,8 +63,10 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index d1eefc9..bc95c17 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -61,8 +61,10 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
             if (sctx->pattern_len + shift >= length)
                 break;
-- 
2.43.0


From 22b64ad2ede88d3c0c403b5e261764b23330eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 64/96] fix: ctype: bfdev_isascii needs its constant form

---
 include/bfdev/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..d663134 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -111,7 +111,7 @@ int bfdev_isxdigit_const(int c)
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
-- 
2.43.0


From 5fa00f5d9dfc905b0e70b7ddae4be0bb181871a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 65/96] fix: ctype: range tests of the constant forms must be
 unsigned

---
 include/bfdev/ctype.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index d663134..6f4b8aa 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32) - 'a') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned char)c - '0') < 10U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned char)c - 0x21) < 0x5eU;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned char)c - 'a') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned char)c - 0x20) < 0x5fU;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned char)c - '\t' < 5U);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned char)c - 'A') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,7 +107,7 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6U);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-- 
2.43.0


From fe1b716684e5c319d1581777fcea1317e1aa856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 66/96] fix: ctype: the tab is blank, the vertical tab is not

---
 src/libc/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..6812dad 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-- 
2.43.0


From 58280656bded0d7e028302f3966bce6496c4c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 67/96] fix: ctype: zero is a hexadecimal digit

---
 src/libc/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index 6812dad..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From 9250697cd9b8f353293f0e59361c39808c8eaf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 68/96] fix: strndup: copy and terminate what was allocated

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From cf0ff3e2e4d7e68f286babea404254577ce3c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 69/96] fix: log: test the end pointer, not what it points to

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..203e1e6 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -79,7 +79,7 @@ bfdev_log_level(const char *str, const char **endptr)
         }
     }
 
-    if (*endptr)
+    if (endptr)
         *endptr = str;
 
     return level;
-- 
2.43.0


From cb85fb82392aa2222af02508f357f8ee0573651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 70/96] fix: tokenbucket: do not truncate the tokens generated
 after a long idle

---
 src/tokenbucket.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..af0742e 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate;
 
     if (!limit->interval)
         return true;
@@ -24,7 +24,8 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    generate = bfdev_min(generate, (bfdev_time_t)limit->capacity);
+    limit->current = bfdev_min(limit->current + generate, (bfdev_time_t)limit->capacity);
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From e056aa5616d1459453858198b08d54eff977c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 71/96] fix: cmpxchg: read the exchanged word once

---
 include/bfdev/asm-generic/cmpxchg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/asm-generic/cmpxchg.h b/include/bfdev/asm-generic/cmpxchg.h
index d0a96ae..e72e3f4 100644
--- a/include/bfdev/asm-generic/cmpxchg.h
+++ b/include/bfdev/asm-generic/cmpxchg.h
@@ -30,7 +30,7 @@ bfdev_arch_xchg(bfdev_atomic_t *atomic, bfdev_atomic_t value)
     bfdev_atomic_t prev, result;
 
     do {
-        prev = *atomic;
+        prev = BFDEV_READ_ONCE(*atomic);
         result = bfdev_arch_cmpxchg(atomic, prev, value);
     } while (bfdev_unlikely(result != prev));
 
-- 
2.43.0


From 010ea35b6162854e7b65c0001327987458827051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 72/96] fix: refcount: retry addnz when the exchange failed

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..04d66c5 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From 58ad0594eb199cf4aff4f9dc917ad0ce98174e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 73/96] fix: refcount: check the sum for addnz overflow

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index 04d66c5..c6683f6 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev + nr < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 0890365976afe270af79cadc6702bda724d84d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 74/96] fix: refcount: detect overflow without signed overflow

---
 include/bfdev/refcount.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index c6683f6..5c187a0 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -74,7 +74,7 @@ bfdev_refcnt_fetch_add(bfdev_refcnt_t *ref, bfdev_atomic_t cnt,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_LEAK);
-    else if (bfdev_unlikely(prev + cnt < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + (uintptr_t)cnt) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_OVF);
 #endif
 }
@@ -113,7 +113,8 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev,
+        (bfdev_atomic_t)((uintptr_t)prev + (uintptr_t)nr)));
 
     if (oldp)
         *oldp = prev;
@@ -121,7 +122,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev + nr < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + (uintptr_t)nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 0c97de82187321f2b809a7137d42050b5b4c7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 75/96] fix: matrix: transpose from the source to the
 destination

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8cf3d9e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -136,8 +136,8 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
-- 
2.43.0


From 4e9caa148a351fb9ae2b2b5d78bdebdaac3bef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 76/96] fix: matrix: index elements by row and column

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8cf3d9e..2b53d4d 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -202,10 +202,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (var->row <= row || var->col <= col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 8e44d4b5d3d068320c28efd9faa173d953490ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 77/96] fix: levenshtein: initialise the whole first row

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 3264d804a9f52f567566c885fbe2a909145bbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 78/96] fix: stringhash: hash bytes in 32 bits

---
 src/stringhash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 63b7d87..4d7dc44 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -3,18 +3,19 @@
  * Copyright(c) 2023 John Sanpe <sanpeqf@gmail.com>
  */
 
+#include <bfdev/types.h>
 #include <bfdev/stringhash.h>
 #include <export.h>
 
 export unsigned long
 bfdev_pjwhash(const char *str)
 {
-    unsigned long value, hash;
+    uint32_t value, hash;
 
     hash = 0;
     while (*str) {
         hash <<= 4;
-        hash += *str++;
+        hash += (unsigned char)*str++;
 
         value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
-- 
2.43.0


From 97774b18135fa81166ff835f5e0a3fee8396b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 79/96] fix: matrix: transpose a matrix onto itself

---
 src/matrix.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 2b53d4d..494709c 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -118,6 +118,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
 export int
 bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
+    BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
+    bfdev_matrix_t *rename;
     unsigned int row, col;
     unsigned int size;
     int retval;
@@ -125,6 +127,12 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     col = src->row;
     row = src->col;
 
+    rename = NULL;
+    if (dest == src) {
+        rename = dest;
+        dest = &buffer;
+    }
+
     size = row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
@@ -144,7 +152,12 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
             add[row][col] = ads[col][row];
     }
 
-    return -BFDEV_ENOERR;
+    if (rename) {
+        retval = bfdev_matrix_set(rename, dest);
+        bfdev_matrix_release(dest);
+    }
+
+    return retval;
 }
 
 export int
-- 
2.43.0


From c812fc8e1ec0bf96b138bed5e34112d79c30f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 80/96] fix: math: test the types of the closest division

---
 include/bfdev/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..143eff8 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -56,8 +56,8 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
     typeof(x) __x = x;                          \
     typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    (bfdev_is_unsigned(typeof(x)) ||                    \
+     bfdev_is_unsigned(typeof(divisor)) ||              \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From f8b0e531c7202102504fe7355d46f6da1477691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 81/96] fix: size: correct the gibibyte sizes

---
 include/bfdev/size.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bfdev/size.h b/include/bfdev/size.h
index f32496d..a3f262c 100644
--- a/include/bfdev/size.h
+++ b/include/bfdev/size.h
@@ -44,16 +44,16 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_SZ_256MiB     0x10000000
 #define BFDEV_SZ_512MiB     0x20000000
 
-#define BFDEV_SZ_1GiB       BFDEV_AC(0x0010000000, ULL)
-#define BFDEV_SZ_2GiB       BFDEV_AC(0x0020000000, ULL)
-#define BFDEV_SZ_4GiB       BFDEV_AC(0x0040000000, ULL)
-#define BFDEV_SZ_8GiB       BFDEV_AC(0x0080000000, ULL)
-#define BFDEV_SZ_16GiB      BFDEV_AC(0x0100000000, ULL)
-#define BFDEV_SZ_32GiB      BFDEV_AC(0x0200000000, ULL)
-#define BFDEV_SZ_64GiB      BFDEV_AC(0x0400000000, ULL)
-#define BFDEV_SZ_128GiB     BFDEV_AC(0x0800000000, ULL)
-#define BFDEV_SZ_256GiB     BFDEV_AC(0x1000000000, ULL)
-#define BFDEV_SZ_512GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_1GiB       BFDEV_AC(0x0040000000, ULL)
+#define BFDEV_SZ_2GiB       BFDEV_AC(0x0080000000, ULL)
+#define BFDEV_SZ_4GiB       BFDEV_AC(0x0100000000, ULL)
+#define BFDEV_SZ_8GiB       BFDEV_AC(0x0200000000, ULL)
+#define BFDEV_SZ_16GiB      BFDEV_AC(0x0400000000, ULL)
+#define BFDEV_SZ_32GiB      BFDEV_AC(0x0800000000, ULL)
+#define BFDEV_SZ_64GiB      BFDEV_AC(0x1000000000, ULL)
+#define BFDEV_SZ_128GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_256GiB     BFDEV_AC(0x4000000000, ULL)
+#define BFDEV_SZ_512GiB     BFDEV_AC(0x8000000000, ULL)
 
 BFDEV_END_DECLS
 
-- 
2.43.0


From 8a2ea0a606db280036308ce787d08f50815913b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 82/96] fix: skiplist: raise the height only once the node is
 there

---
 src/skiplist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..fedff21 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,13 +71,13 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
 
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
+    bfdev_max_adj(head->curr, level);
     node->key = key;
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
-- 
2.43.0


From 5f7c83f9bc6bb93548f0cf57a3974b2297fa2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 83/96] fix: fsm: reserve the stack before the transition takes
 effect

---
 src/fsm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fsm.c b/src/fsm.c
index 2ed6531..c75ebdb 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -108,6 +108,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
         while (next->entry)
             next = next->entry;
 
+        /* Make sure the stack has room before anything happens */
+        if (tran->stack > 0) {
+            retval = bfdev_array_reserve(&fsm->stack, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+        }
+
         /*
          * Call the curr state's exit action, if state
          * does not return to itself and the stack
-- 
2.43.0


From 44bd698a2d2eaccb12f7da8cc804e6940cc45ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 84/96] fix: heap: find a member by its own position

---
 src/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..f06667c 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,7 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From 702641391defc78548849ce95ad4f1b1c3f50463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 85/96] fix: ilist: refuse to change a list whose index is
 broken

---
 src/ilist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ilist.c b/src/ilist.c
index 6b6ef89..83ed502 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -60,7 +60,7 @@ ilist_head_check(bfdev_ilist_head_t *ihead)
 
     success = ilist_list_check(&ihead->node_list);
     if (success && !bfdev_ilist_head_empty(ihead))
-        ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
+        success = ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
 
     return success;
 }
-- 
2.43.0


From 59d6a2ac39c3295b61c2b4b75d5405f63639b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 86/96] fix: radix: make the continuing safe walk compile

---
 include/bfdev/radix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 4277664..f62b8f5 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -237,7 +237,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
-         (tval) = bfdev_radix_next(radix, tidx)))
+         ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-- 
2.43.0


From c18ae6d9acdd777c2f2d95ee0f776a05b9a7bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 87/96] fix: fifo: order the indices against the elements for
 lock-free use

---
 include/bfdev/fifo.h | 26 +++++++++++++++++++++-----
 src/fifo.c           | 14 +++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 33b4e22..2777d57 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -218,6 +218,17 @@ struct bfdev_fifo {
  */
 #define bfdev_fifo_esize(ptr) ((ptr)->fifo.esize)
 
+/*
+ * A single reader and a single writer needn't lock: the side that moves
+ * an index does so only after it is done with the elements concerned, and
+ * the other side looks at the elements only after it has seen the index.
+ */
+#define BFDEV_FIFO_ACQUIRE(index) \
+    __atomic_load_n(&(index), __ATOMIC_ACQUIRE)
+
+#define BFDEV_FIFO_RELEASE(index, value) \
+    __atomic_store_n(&(index), (value), __ATOMIC_RELEASE)
+
 /**
  * bfdev_fifo_reset() - reset fifo state.
  * @ptr: the fifo to reset.
@@ -233,7 +244,8 @@ struct bfdev_fifo {
  */
 #define bfdev_fifo_homing(ptr) do {             \
     typeof((ptr) + 1) __tmp = (ptr);            \
-    __tmp->fifo.out = __tmp->fifo.in;           \
+    BFDEV_FIFO_RELEASE(__tmp->fifo.out,         \
+        BFDEV_FIFO_ACQUIRE(__tmp->fifo.in));    \
 } while (0)
 
 /**
@@ -242,7 +254,8 @@ struct bfdev_fifo {
  */
 #define bfdev_fifo_len(ptr) ({                  \
     typeof((ptr) + 1) __tlen = (ptr);           \
-    __tlen->fifo.in - __tlen->fifo.out;         \
+    BFDEV_FIFO_ACQUIRE(__tlen->fifo.in) -       \
+    BFDEV_FIFO_ACQUIRE(__tlen->fifo.out);       \
 })
 
 /**
@@ -251,7 +264,8 @@ struct bfdev_fifo {
  */
 #define bfdev_fifo_check_empty(ptr) ({          \
     typeof((ptr) + 1) __ttmp = (ptr);           \
-    __ttmp->fifo.in == __ttmp->fifo.out;        \
+    BFDEV_FIFO_ACQUIRE(__ttmp->fifo.in) ==      \
+    BFDEV_FIFO_ACQUIRE(__ttmp->fifo.out);       \
 })
 
 /**
@@ -344,7 +358,8 @@ struct bfdev_fifo {
             ((typeof(__tmp->data)) __fifo->data) :          \
             (__tmp->buff))                                  \
             [__fifo->out & __tmp->fifo.mask];               \
-            ++__fifo->out;                                  \
+            BFDEV_FIFO_RELEASE(__fifo->out,                 \
+                __fifo->out + 1);                           \
         }                                                   \
     }                                                       \
     __retval;                                               \
@@ -372,7 +387,8 @@ struct bfdev_fifo {
             (__tmp->buff))                                  \
             [__fifo->in & __tmp->fifo.mask] =               \
             *(typeof(__tmp->data)) &__tvalue;               \
-            ++__fifo->in;                                   \
+            BFDEV_FIFO_RELEASE(__fifo->in,                  \
+                __fifo->in + 1);                            \
         }                                                   \
     }                                                       \
     __retval;                                               \
diff --git a/src/fifo.c b/src/fifo.c
index c635a5c..4c71bcf 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -86,19 +86,19 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long start,
 static inline bool
 fifo_empty(bfdev_fifo_t *fifo)
 {
-    return fifo->in == fifo->out;
+    return BFDEV_FIFO_ACQUIRE(fifo->in) == fifo->out;
 }
 
 static inline unsigned long
 fifo_valid(bfdev_fifo_t *fifo)
 {
-    return fifo->in - fifo->out;
+    return BFDEV_FIFO_ACQUIRE(fifo->in) - fifo->out;
 }
 
 static inline unsigned long
 fifo_unused(bfdev_fifo_t *fifo)
 {
-    return (fifo->mask + 1) - (fifo->in - fifo->out);
+    return (fifo->mask + 1) - (fifo->in - BFDEV_FIFO_ACQUIRE(fifo->out));
 }
 
 export unsigned long
@@ -119,7 +119,7 @@ bfdev_fifo_out_flat(bfdev_fifo_t *fifo, void *buff, unsigned long len)
     unsigned long llen;
 
     llen = bfdev_fifo_peek_flat(fifo, buff, len);
-    fifo->out += llen;
+    BFDEV_FIFO_RELEASE(fifo->out, fifo->out + llen);
 
     return llen;
 }
@@ -132,7 +132,7 @@ bfdev_fifo_in_flat(bfdev_fifo_t *fifo, const void *buff, unsigned long len)
     unused = fifo_unused(fifo);
     bfdev_min_adj(len, unused);
     fifo_in_copy(fifo, buff, len, fifo->in);
-    fifo->in += len;
+    BFDEV_FIFO_RELEASE(fifo->in, fifo->in + len);
 
     return len;
 }
@@ -165,7 +165,7 @@ bfdev_fifo_out_record(bfdev_fifo_t *fifo, void *buff, unsigned long len,
     datalen = fifo_record_peek(fifo, record);
     bfdev_min_adj(len, datalen);
     fifo_out_copy(fifo, buff, len, fifo->out + record);
-    fifo->out += datalen + record;
+    BFDEV_FIFO_RELEASE(fifo->out, fifo->out + datalen + record);
 
     return len;
 }
@@ -186,7 +186,7 @@ bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
 
     fifo_record_poke(fifo, fifo->in, len, record);
     fifo_in_copy(fifo, buff, len, fifo->in + record);
-    fifo->in += len + record;
+    BFDEV_FIFO_RELEASE(fifo->in, fifo->in + len + record);
 
     return len;
 }
-- 
2.43.0


From 77b8f8e90577e53edf9700dcfbd7a291427d5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 88/96] fix: mpi: shifts, bit positions and lengths beyond an
 unsigned int

---
 src/mpi.c | 87 +++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 1205bc8..09a973e 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -9,7 +9,7 @@
 #include <base.h>
 #include <bfdev/mpi.h>
 #include <bfdev/dword.h>
-#include <bfdev/bitmap.h>
+#include <bfdev/bitops.h>
 #include <export.h>
 
 #define mpi_len(mpi) bfdev_array_index(&(mpi)->value)
@@ -39,6 +39,75 @@ mpa_copy(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *src,
     bfport_memcpy(dest, src, length * BFDEV_MPI_SIZE);
 }
 
+static inline void
+mpa_and(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *ptra,
+        const BFDEV_MPI_TYPE *ptrb, unsigned long length)
+{
+    unsigned long index;
+
+    for (index = 0; index < length; ++index)
+        dest[index] = ptra[index] & ptrb[index];
+}
+
+static inline void
+mpa_or(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *ptra,
+       const BFDEV_MPI_TYPE *ptrb, unsigned long length)
+{
+    unsigned long index;
+
+    for (index = 0; index < length; ++index)
+        dest[index] = ptra[index] | ptrb[index];
+}
+
+static inline void
+mpa_xor(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *ptra,
+        const BFDEV_MPI_TYPE *ptrb, unsigned long length)
+{
+    unsigned long index;
+
+    for (index = 0; index < length; ++index)
+        dest[index] = ptra[index] ^ ptrb[index];
+}
+
+/* shift @length units up, zero units come in at the bottom */
+static inline void
+mpa_shl(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *src,
+        BFDEV_MPI_TYPE shift, unsigned long length)
+{
+    unsigned long index, offset;
+    BFDEV_MPI_TYPE upper, lower;
+
+    offset = BFDEV_BITS_DIV_LONG(shift);
+    shift = BFDEV_BITS_MOD_LONG(shift);
+
+    for (index = length; index--;) {
+        upper = index >= offset ? src[index - offset] : 0;
+        lower = index > offset ? src[index - offset - 1] : 0;
+        dest[index] = shift ? (upper << shift) |
+            (lower >> (BFDEV_MPI_BITS - shift)) : upper;
+    }
+}
+
+/* shift @length units down, zero units come in at the top */
+static inline void
+mpa_shr(BFDEV_MPI_TYPE *dest, const BFDEV_MPI_TYPE *src,
+        BFDEV_MPI_TYPE shift, unsigned long length)
+{
+    unsigned long index, offset, remain;
+    BFDEV_MPI_TYPE upper, lower;
+
+    offset = BFDEV_BITS_DIV_LONG(shift);
+    shift = BFDEV_BITS_MOD_LONG(shift);
+
+    for (index = 0; index < length; ++index) {
+        remain = length - index;
+        lower = offset < remain ? src[index + offset] : 0;
+        upper = offset + 1 < remain ? src[index + offset + 1] : 0;
+        dest[index] = shift ? (lower >> shift) |
+            (upper << (BFDEV_MPI_BITS - shift)) : lower;
+    }
+}
+
 static inline int
 mpa_cmpi(const BFDEV_MPI_TYPE *ptra, BFDEV_MPI_TYPE vi,
          unsigned long length)
@@ -857,7 +926,7 @@ mpi_and(bfdev_mpi_t *dest,
     ptra = mpi_val(va);
     ptrb = mpi_val(vb);
 
-    bfdev_bitmap_and(ptrs, ptra, ptrb, length * BFDEV_MPI_BITS);
+    mpa_and(ptrs, ptra, ptrb, length);
     mpi_relocation(dest);
 
     return -BFDEV_ENOERR;
@@ -888,7 +957,7 @@ mpi_or(bfdev_mpi_t *dest,
     ptrb = mpi_val(vb);
 
     length = bfdev_min(cnta, cntb);
-    bfdev_bitmap_or(ptrs, ptra, ptrb, length * BFDEV_MPI_BITS);
+    mpa_or(ptrs, ptra, ptrb, length);
 
     if (cnta < cntb) {
         bfdev_swap(ptra, ptrb);
@@ -927,7 +996,7 @@ mpi_xor(bfdev_mpi_t *dest,
     ptrb = mpi_val(vb);
 
     length = bfdev_min(cnta, cntb);
-    bfdev_bitmap_xor(ptrs, ptra, ptrb, length * BFDEV_MPI_BITS);
+    mpa_xor(ptrs, ptra, ptrb, length);
 
     if (cnta < cntb) {
         bfdev_swap(ptra, ptrb);
@@ -971,7 +1040,7 @@ mpi_shli(bfdev_mpi_t *dest,
     }
 
     mpa_zero(ptrs + cnta, rem);
-    bfdev_bitmap_shl(ptrs, ptrs, shift, length * BFDEV_MPI_BITS);
+    mpa_shl(ptrs, ptrs, shift, length);
     mpi_relocation(dest);
 
     return -BFDEV_ENOERR;
@@ -1000,7 +1069,7 @@ mpi_shri(bfdev_mpi_t *dest,
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
 
-    bfdev_bitmap_shr(ptrs, ptra, shift, length * BFDEV_MPI_BITS);
+    mpa_shr(ptrs, ptra, shift, length);
     mpi_relocation(dest);
 
     return -BFDEV_ENOERR;
@@ -1689,7 +1758,7 @@ bfdev_mpi_btesti(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
         return false;
 
     base = mpi_val(dest);
-    return bfdev_bit_test(base, bit);
+    return bfdev_bit_test(base + offset, BFDEV_BITS_MOD_LONG(bit));
 }
 
 export int
@@ -1705,7 +1774,7 @@ bfdev_mpi_bseti(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
         return retval;
 
     base = mpi_val(dest);
-    bfdev_bit_set(base, bit);
+    bfdev_bit_set(base + offset, BFDEV_BITS_MOD_LONG(bit));
 
     return -BFDEV_ENOERR;
 }
@@ -1723,7 +1792,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
         return -BFDEV_ENOERR;
 
     base = mpi_val(dest);
-    bfdev_bit_clr(base, bit);
+    bfdev_bit_clr(base + offset, BFDEV_BITS_MOD_LONG(bit));
     mpi_relocation(dest);
     mpi_sign(dest, dest->plus);
 
-- 
2.43.0


From 1976e8c7213b2867c2dfd7694dc9be8a700150d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 89/96] fix: textsearch: end the bm and sunday scans of the
 longest texts

---
 src/textsearch/bm.c     | 14 +++++++++++---
 src/textsearch/sunday.c |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 3f3ce5d..a495d2b 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -68,9 +68,17 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                 return tss->offset - bctx->pattern_len;
             }
 
-            bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
-            good_shift = shift + bctx->good_shift[index];
-            shift = bfdev_max(bad_shift, good_shift);
+            bad_shift = bctx->bad_shift[text[shift - index]];
+            good_shift = bctx->good_shift[index];
+
+            bad_shift -= bfdev_min(bad_shift, index);
+            good_shift = bfdev_max(bad_shift, good_shift);
+
+            /* the next position may exceed the range of positions */
+            if (good_shift >= length - shift)
+                break;
+
+            shift += good_shift;
         }
 
         consumed += length;
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index bc95c17..42ee4ba 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -41,7 +41,7 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
 {
     #define find_pattern() (icase ? toupper(text[shift + index]) : text[shift + index])
     struct sunday_context *sctx;
-    unsigned int consumed, length, index, shift;
+    unsigned int consumed, length, index, shift, step;
     const uint8_t *text;
     bool icase;
 
@@ -69,7 +69,12 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
             if (sctx->pattern_len + shift >= length)
                 break;
 
-            shift += sctx->shift_table[text[shift + sctx->pattern_len]];
+            /* the next position may exceed the range of positions */
+            step = sctx->shift_table[text[shift + sctx->pattern_len]];
+            if (step > length - sctx->pattern_len - shift)
+                break;
+
+            shift += step;
         }
 
         consumed += length;
-- 
2.43.0


From aa37993fafcffa567c36656f8fd27cdbd1832cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 90/96] fix: bitmap: bit counts within a word of the largest

---
 include/bfdev/bitmap.h |  6 +++---
 src/bitmap.c           |  8 ++++----
 src/bitwalk.c          | 11 +++++------
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index d398b3d..5545192 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -236,7 +236,7 @@ bfdev_bitmap_zero(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memset(bitmap, 0, length);
 }
 
@@ -250,7 +250,7 @@ bfdev_bitmap_fill(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memset(bitmap, BFDEV_UINT8_MAX, length);
 }
 
@@ -264,7 +264,7 @@ bfdev_bitmap_copy(unsigned long *dest, unsigned long *src, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memcpy(dest, src, length);
 }
 
diff --git a/src/bitmap.c b/src/bitmap.c
index 1dc8987..7269aa7 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -164,7 +164,7 @@ bfdev_bitmap_comp_shl(unsigned long *dest, const unsigned long *src,
     unsigned int length, offset, rem, index;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((unsigned long)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -211,7 +211,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
     unsigned int index, length, offset, rem;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((unsigned long)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -338,7 +338,7 @@ export unsigned long *
 bfdev_bitmap_alloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_malloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((unsigned long)bits), sizeof(unsigned long)
     );
 }
 
@@ -346,7 +346,7 @@ export unsigned long *
 bfdev_bitmap_zalloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_zalloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((unsigned long)bits), sizeof(unsigned long)
     );
 }
 
diff --git a/src/bitwalk.c b/src/bitwalk.c
index 78466e1..0d31db1 100644
--- a/src/bitwalk.c
+++ b/src/bitwalk.c
@@ -12,8 +12,7 @@ export unsigned int
 bfdev_comp_find_first_bit(const unsigned long *block, unsigned int bits,
                           unsigned long invert, bool swap)
 {
-    unsigned long value;
-    unsigned int base, offset;
+    unsigned long value, base, offset;
 
     for (base = 0; base < bits; base += BFDEV_BITS_PER_LONG) {
         if (swap)
@@ -94,9 +93,9 @@ bfdev_comp_find_next_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start += BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (bits - start <= BFDEV_BITS_PER_LONG)
             return bits;
+        start += BFDEV_BITS_PER_LONG;
 
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
@@ -133,9 +132,9 @@ bfdev_comp_find_prev_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start -= BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (start < BFDEV_BITS_PER_LONG)
             return bits;
+        start -= BFDEV_BITS_PER_LONG;
 
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
-- 
2.43.0


From fba3df370a31747077f54c722125407f54146c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 91/96] fix: matrix: element counts beyond 32 bits

---
 src/matrix.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 494709c..8ca30f0 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -8,14 +8,14 @@
 #include <export.h>
 
 static inline void
-matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned int size)
+matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned long size)
 {
     bfport_memset(var, 0, size * BFDEV_MATRIX_SIZE);
 }
 
 static inline void
 matrix_copy(BFDEV_MATRIX_TYPE *dest, const BFDEV_MATRIX_TYPE *src,
-            unsigned int size)
+            unsigned long size)
 {
     bfport_memcpy(dest, src, size * BFDEV_MATRIX_SIZE);
 }
@@ -27,7 +27,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
                     const bfdev_matrix_t *vb)           \
 {                                                       \
     unsigned int row, col;                              \
-    unsigned int size, count;                           \
+    unsigned long size, count;                          \
     int retval;                                         \
                                                         \
     row = va->row;                                      \
@@ -36,7 +36,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
     if (row != vb->row || col != vb->col)               \
         return -BFDEV_EINVAL;                           \
                                                         \
-    size = row * col;                                   \
+    size = (unsigned long)row * col;                    \
     retval = bfdev_array_resize(&dest->value, size);    \
     if (bfdev_unlikely(retval))                         \
         return retval;                                  \
@@ -68,7 +68,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size, count;
+    unsigned int count;
+    unsigned long size;
     long value;
     int retval;
 
@@ -81,7 +82,7 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
         dest = &buffer;
     }
 
-    size = va->row * vb->col;
+    size = (unsigned long)va->row * vb->col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -121,7 +122,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     int retval;
 
     col = src->row;
@@ -133,7 +134,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
         dest = &buffer;
     }
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -164,14 +165,14 @@ export int
 bfdev_matrix_set(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     void *dbuf, *sbuf;
     int retval;
 
     row = src->row;
     col = src->col;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -190,11 +191,11 @@ export int
 bfdev_matrix_import(bfdev_matrix_t *var, const BFDEV_MATRIX_TYPE *buffer,
                     unsigned int row, unsigned int col)
 {
-    unsigned int size;
+    unsigned long size;
     void *dbuf;
     int retval;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&var->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -213,12 +214,12 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
                   unsigned int row, unsigned int col)
 {
     BFDEV_MATRIX_TYPE *data;
-    unsigned int offset;
+    unsigned long offset;
 
     if (var->row <= row || var->col <= col)
         return NULL;
 
-    offset = row * var->col + col;
+    offset = (unsigned long)row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From accba04a0df75b9d3f2eca62de1df0eabfe6ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 92/96] fix: textsearch: patterns of 2^30 bytes and more

---
 src/textsearch/bm.c         | 3 ++-
 src/textsearch/kmp.c        | 3 ++-
 src/textsearch/textsearch.c | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index a495d2b..e0b4bad 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -140,7 +140,8 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
            size_t len, unsigned long flags)
 {
     struct bm_context *bctx;
-    unsigned int gsize, index;
+    unsigned int index;
+    size_t gsize;
 
     gsize = sizeof(unsigned int) * len;
     bctx = bfdev_malloc(alloc, sizeof(*bctx) + gsize + len);
diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index ccb21f5..754efee 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -95,7 +95,8 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
             size_t len, unsigned long flags)
 {
     struct kmp_context *kctx;
-    unsigned int prefix_size, index;
+    unsigned int index;
+    size_t prefix_size;
 
     prefix_size = sizeof(unsigned int) * len;
     kctx = bfdev_zalloc(alloc, sizeof(*kctx) + prefix_size + len);
diff --git a/src/textsearch/textsearch.c b/src/textsearch/textsearch.c
index 2720e3f..3e21668 100644
--- a/src/textsearch/textsearch.c
+++ b/src/textsearch/textsearch.c
@@ -47,6 +47,10 @@ bfdev_textsearch_create(const bfdev_alloc_t *alloc, const char *name,
     if (!algo)
         return NULL;
 
+    /* positions and lengths are unsigned int */
+    if (bfdev_unlikely(len > UINT_MAX))
+        return NULL;
+
     tsc = algo->prepare(alloc, pattern, len, flags);
     if (!tsc)
         return NULL;
-- 
2.43.0


From 356f1ac4966eb3a2a3ea3d61d61a54d7f54446ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 93/96] fix: argv: room for more than 2^29 words

---
 src/argv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/argv.c b/src/argv.c
index e22fb53..779a235 100644
--- a/src/argv.c
+++ b/src/argv.c
@@ -38,15 +38,16 @@ bfdev_argv_split(const bfdev_alloc_t *alloc, const char *args,
 {
     unsigned int count, argc;
     char *block, **argv;
+    size_t size;
 
     argc = bfdev_argv_count(args);
-    count = (argc + 1) * sizeof(*argv);
+    size = ((size_t)argc + 1) * sizeof(*argv);
 
-    argv = bfdev_malloc(alloc, count + bfport_strlen(args) + 1);
+    argv = bfdev_malloc(alloc, size + bfport_strlen(args) + 1);
     if (bfdev_unlikely(!argv))
         return NULL;
 
-    block = (void *)argv + count;
+    block = (void *)argv + size;
     bfport_strcpy(block, args);
 
     for (count = 0; count < argc; ++count) {
-- 
2.43.0


From 466060f60d1b6ce33ef9d8aadbaf9ee7871d4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 94/96] fix: sort: elements larger than the stack, offsets
 beyond 32 bits

---
 src/sort.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index 0cca137..e7de0aa 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -7,21 +7,29 @@
 #include <bfdev/sort.h>
 #include <export.h>
 
+#define SORT_CHUNK 256
+
 static __bfdev_noinline void
 sort_swap(size_t cells, void *cel1, void *cel2)
 {
-    void *buff;
+    uint8_t buff[SORT_CHUNK];
+    size_t size;
+
+    /* elements may be larger than the stack */
+    for (; cells; cells -= size) {
+        size = bfdev_min(cells, sizeof(buff));
 
-    /* alloca hates inline */
-    buff = bfdev_alloca(cells);
+        bfport_memcpy(buff, cel1, size);
+        bfport_memcpy(cel1, cel2, size);
+        bfport_memcpy(cel2, buff, size);
 
-    bfport_memcpy(buff, cel1, cells);
-    bfport_memcpy(cel1, cel2, cells);
-    bfport_memcpy(cel2, buff, cells);
+        cel1 += size;
+        cel2 += size;
+    }
 }
 
 static __bfdev_attribute_const __bfdev_always_inline size_t
-parent(size_t cells, unsigned int lsbit, size_t index)
+parent(size_t cells, size_t lsbit, size_t index)
 {
     index -= cells;
     index -= cells & -(index & lsbit);
-- 
2.43.0


From 2643fc653707574bee346dc560fc8efd42b1c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 95/96] fix: scnprintf: report nothing when formatting fails

---
 src/scnprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..2dd439f 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,6 +16,11 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
+    if (bfdev_unlikely(len < 0)) {
+        *buf = '\0';
+        return 0;
+    }
+
     if (bfdev_likely(len < size))
         return len;
 
-- 
2.43.0


From 5781ca8911bdefbf6aed5091e77fc8300ab4b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 96/96] fix: mhelper: map-by-count macros name the mappers that
 exist

---
 include/bfdev/mhelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/mhelper.h b/include/bfdev/mhelper.h
index afc1b86..5c451af 100644
--- a/include/bfdev/mhelper.h
+++ b/include/bfdev/mhelper.h
@@ -26,7 +26,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_ARG4(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG5(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG6(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_ARGN(n, fn, ...) MMAP_ARG##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_ARGN(n, fn, ...) BFDEV_MMAP_ARG##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MMAP_DECL0(fn, ...)
 #define BFDEV_MMAP_DECL1(fn, type, ...) fn(type, __arg1)
@@ -35,7 +35,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_DECL4(fn, type, ...) fn(type, __arg4), BFDEV_MMAP_DECL3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL5(fn, type, ...) fn(type, __arg5), BFDEV_MMAP_DECL4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL6(fn, type, ...) fn(type, __arg6), BFDEV_MMAP_DECL5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_DECLN(n, fn, ...) MMAP_DECL##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_DECLN(n, fn, ...) BFDEV_MMAP_DECL##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MARGFN_DECL(type, arg) type arg
 #define BFDEV_MARGFN_LONG(type, arg) long arg
-- 
2.43.0

