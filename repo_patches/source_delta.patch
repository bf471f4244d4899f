From 627626d70ea0f1b0ab4bcc9b58e56d6d81c042e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 01/17] fix: reject biased values in get_random_u16_uniform

The operand of % was promoted to int before the negation, so the rejection
threshold was always 0 and every bound which isn't a power of two was biased.
---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 474deba25329781625e2c014e3775f5d6bcdc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 02/17] fix: malloc_object_size for zero size allocations

The slots of the zero size class are spaced 16 bytes apart. Using a size of 0
computes a wrong slab and slot and aborts for valid pointers.
---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..c0f37e5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1805,6 +1805,10 @@ EXPORT size_t h_malloc_object_size(const void *p) {
 
         mutex_lock(&c->lock);
 
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
+
         const struct slab_metadata *metadata = get_metadata(c, p);
         size_t slab_size = get_slab_size(get_slots(class), size_class);
         void *slab = get_slab(c, slab_size, metadata);
-- 
2.43.0


From 1cef7270074d594e0cddaaaf96e759f8cad52483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 03/17] fix: count large aligned allocations in the statistics

They were only counted when freed, underflowing the total.
---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index c0f37e5..dc3b5e6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 759e76a2b872321193f1d7779191e232a20b1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 04/17] fix: don't unmap the released lead of an aligned
 allocation again

Another thread can have mapped the range in the meantime.
---
 pages.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..b97aed3 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,7 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From 37e4bc59ee67185f8d8e004b6110d508199959d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 05/17] fix: realloc of small allocations with alignment above
 the page size

They aren't slab allocations, so passing them to deallocate_small crashes.
---
 h_malloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index dc3b5e6..afd468d 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1638,7 +1638,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
         copy_size -= canary_size;
     }
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    // over-aligned allocations can be smaller than the largest slab size class without being slab allocations
+    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From 110248b11d14849197ad6106f94143ab55808f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 06/17] fix: set errno when the region table is full

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index afd468d..9591a21 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1363,6 +1363,7 @@ static void *allocate_large(size_t size) {
     if (unlikely(regions_insert(p, size, guard_size))) {
         mutex_unlock(&ra->lock);
         deallocate_pages(p, size, guard_size);
+        errno = ENOMEM;
         return NULL;
     }
     stats_large_allocate(ra, size);
-- 
2.43.0


From 6eb1125d5a0dd2412041b3a7c728fce60ab2d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 07/17] fix: use all of a large random slab quarantine

The scaled length was truncated to 16 bits, so only part of the quarantine (or
a single slot for multiples of 65536) was used for small size classes.
---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 9591a21..21ca6ff 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -829,7 +829,11 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
+#if (SLAB_QUARANTINE_RANDOM_LENGTH << (MAX_SLAB_SIZE_CLASS_SHIFT - MIN_SLAB_SIZE_CLASS_SHIFT)) <= 65535
     size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+#else
+    size_t random_index = get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
+#endif
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From cb78b5663a2cfcf5a4014a15bd609b1cdadcc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 08/17] fix: don't write to the stream with unsealed metadata
 in malloc_info

An allocation made by stdio seals the metadata again and the next access to it
by malloc_info crashes.
---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 21ca6ff..a498c68 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2018,20 +2018,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
+        // fp can allocate, so the metadata has to be sealed while writing to it
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2048,15 +2049,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From ea6912efaa90c0b946295a7351ff87c56d13df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 09/17] fix: detect sized deallocation mismatch with sizes
 close to SIZE_MAX

Rounding up to the size class overflowed to 0 and matched zero size allocations.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index a498c68..54cd978 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1715,7 +1715,10 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
-        expected_size = get_size_info(expected_size).size;
+        // sizes above the largest slab size class are always a mismatch
+        if (likely(expected_size <= max_slab_size_class)) {
+            expected_size = get_size_info(expected_size).size;
+        }
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
-- 
2.43.0


From 85b69aa0a7e6cc1010ed89b212fc6420e03f5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 10/17] fix: take alignment into account for aligned sized
 delete

The size class of an over-aligned allocation can be larger than the one for its
size alone, so correct code aborted with a sized deallocation mismatch.
---
 h_malloc.c         | 13 +++++++++++--
 include/h_malloc.h |  4 ++++
 new.cc             |  8 ++++----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 54cd978..9e3de59 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1704,7 +1704,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+static void deallocate_sized(void *p, size_t alignment, size_t expected_size) {
     if (p == NULL) {
         return;
     }
@@ -1717,7 +1717,8 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
         thread_unseal_metadata();
         // sizes above the largest slab size class are always a mismatch
         if (likely(expected_size <= max_slab_size_class)) {
-            expected_size = get_size_info(expected_size).size;
+            expected_size = alignment > min_align ? get_size_info_align(expected_size, alignment).size :
+                get_size_info(expected_size).size;
         }
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
@@ -1729,6 +1730,14 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    deallocate_sized(p, min_align, expected_size);
+}
+
+void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    deallocate_sized(p, alignment, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..b4b3eeb 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -122,6 +122,10 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// internal function with the same purpose for allocations made with an
+// alignment, used to implement C++17 aligned sized deallocation
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From 0c1f7f1a8eebfd760577dcbd02389a5e970eccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 11/17] fix: support disabling the random free slab quarantine

A length of 0 is allowed but accessed the empty array out of bounds.
---
 h_malloc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 9e3de59..a03b0e8 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -277,7 +277,9 @@ struct __attribute__((aligned(CACHELINE_SIZE))) size_class {
     // FIFO singly-linked list
     struct slab_metadata *free_slabs_head;
     struct slab_metadata *free_slabs_tail;
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     struct slab_metadata *free_slabs_quarantine[FREE_SLABS_QUARANTINE_RANDOM_LENGTH];
+#endif
 
 #if CONFIG_STATS
     u64 nmalloc; // may wrap (per jemalloc API)
@@ -750,14 +752,18 @@ static size_t slab_usable_size(const void *p) {
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
+    struct slab_metadata *substitute = metadata;
+
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
-    struct slab_metadata *substitute = c->free_slabs_quarantine[index];
+    substitute = c->free_slabs_quarantine[index];
     c->free_slabs_quarantine[index] = metadata;
 
     if (substitute == NULL) {
         return;
     }
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From b501544f5b17364069319aa083b154b7f85ada78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 12/17] fix: clear the previous region table if it can't be
 unmapped

If replacing the mapping failed with ENOMEM, its entries stayed and the next
growth moved the live regions on top of them: freed regions were found again, so
double frees weren't detected.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index a03b0e8..e8b8ed3 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1057,7 +1057,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // the next growth reuses the table and relies on it being empty
+        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 1d21282113a3a3ab1a1c59c9f8ac4430f4263475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 13/17] fix: malloc_object_size_fast before initialization

0 isn't an upper bound on the size of objects which don't come from the
allocator. Return SIZE_MAX as malloc_object_size does.
---
 h_malloc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index e8b8ed3..d25a807 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1889,10 +1889,6 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return size ? size - canary_size : 0;
     }
 
-    if (unlikely(slab_region_end == NULL)) {
-        return 0;
-    }
-
     return SIZE_MAX;
 }
 
-- 
2.43.0


From 218ccfb0720167c5fa8aa6569b1a18506e899cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 14/17] fix: zero size allocations aligned above the page size
 without large size classes

These were refused as the size was rounded to 0, which was treated as overflow.
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index d25a807..cf435f0 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1347,7 +1347,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)PAGE_SIZE));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


From 3e52f9e7625bcb7e78448efd5a06ffb24c36667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:09 +0000
Subject: [PATCH 15/17] fix: keep memory tagging enabled for released slabs

Replacing the mapping with MAP_FIXED dropped PROT_MTE, so tags were not checked
for the memory of slabs which had been released and were used again.
---
 h_malloc.c | 14 ++++++++++++--
 memory.c   | 12 ++++++++++++
 memory.h   |  3 +++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index cf435f0..2649d8e 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -773,6 +773,16 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     c->free_slabs_tail = substitute;
 }
 
+static bool release_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    // MAP_FIXED replaces the mapping including PROT_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 // preserves errno
 static inline void deallocate_small(void *p, const size_t *expected_size) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
@@ -900,7 +910,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!release_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1923,7 +1933,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (release_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..00c7b28 100644
--- a/memory.c
+++ b/memory.c
@@ -51,6 +51,18 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+#ifdef HAS_ARM_MTE
+// Note that PROT_MTE can't be cleared via mprotect
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0


From cf4197a5c88fbf555eef2c69401009d644e9934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 16/17] fix: untag pointers passed to malloc_object_size

Tagged pointers were treated as pointers to unknown objects.
---
 h_malloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 2649d8e..a59528d 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1827,11 +1827,13 @@ EXPORT size_t h_malloc_usable_size(H_MALLOC_USABLE_SIZE_CONST void *arg) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1888,11 +1890,13 @@ EXPORT size_t h_malloc_object_size(const void *p) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size_fast(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size_fast(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From e0dd276bb3d48409f511105ed1329cad66cf5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:47 +0000
Subject: [PATCH 17/17] fix: copy the last bytes of small over-aligned
 allocations in realloc

---
 h_malloc.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index a59528d..7920f57 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1657,13 +1657,17 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
+    // only slab allocations have a canary and over-aligned allocations can be smaller than the largest slab size
+    // class without being slab allocations
+    bool old_is_slab = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_is_slab && old_size > 0) {
+        old_size -= canary_size;
     }
-    memcpy(new, old_orig, copy_size);
-    // over-aligned allocations can be smaller than the largest slab size class without being slab allocations
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    if (size > 0 && size <= max_slab_size_class) {
+        size -= canary_size;
+    }
+    memcpy(new, old_orig, min(size, old_size));
+    if (old_is_slab) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0

