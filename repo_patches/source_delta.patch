From 9167239df911fc0dd788f75464c17ce58fc3e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 01/18] fix: realloc of aligned large allocations below the
 slab size limit

---
 h_malloc.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..08bc372 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1520,7 +1520,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    bool is_old_small = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (is_old_small) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1632,12 +1633,11 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
-    memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    // large allocations can be smaller than max_slab_size_class due to allocate_aligned
+    size_t old_usable_size = is_old_small && old_size > 0 ? old_size - canary_size : old_size;
+    size_t new_usable_size = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    memcpy(new, old_orig, min(old_usable_size, new_usable_size));
+    if (is_old_small) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From 21c81a4a0c11f052fc9e237f94820c9f51823f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 02/18] fix: use the alignment in C++ sized aligned
 deallocation

---
 h_malloc.c         | 17 +++++++++++++++--
 include/h_malloc.h |  3 +++
 new.cc             |  8 ++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 08bc372..391ced2 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1697,7 +1697,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+static inline void free_sized_impl(void *p, size_t alignment, size_t expected_size) {
     if (p == NULL) {
         return;
     }
@@ -1708,7 +1708,12 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
-        expected_size = get_size_info(expected_size).size;
+        // must match the choice of size class in allocate_aligned
+        if (alignment > min_align && alignment <= PAGE_SIZE && expected_size <= max_slab_size_class) {
+            expected_size = get_size_info_align(expected_size, alignment).size;
+        } else {
+            expected_size = get_size_info(expected_size).size;
+        }
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
@@ -1719,6 +1724,14 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    free_sized_impl(p, 1, expected_size);
+}
+
+void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    free_sized_impl(p, alignment, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..15335da 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -122,6 +122,9 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// internal: free_sized for allocations made with an explicit alignment
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From aaf18d8d9ab76e0552df4ae76479c2c7d20f9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 03/18] fix: count aligned large allocations in the statistics

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 391ced2..894b77a 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 402f9804bcb6ea5b7ae33c3b05038ef3c9989da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 04/18] fix: slab lookup of malloc_object_size for zero size
 allocations

---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 894b77a..5419781 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1815,6 +1815,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         struct slab_size_class_info size_class_info = slab_size_class(p);
         size_t class = size_class_info.class;
         size_t size_class = size_classes[class];
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
         struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
 
         mutex_lock(&c->lock);
-- 
2.43.0


From 34df71d60e3253f5205949f0ec4dc9fdae8c483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 05/18] fix: clear the old region table when it cannot be
 replaced

---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 5419781..6895843 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1047,7 +1047,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // stale entries must not be left behind since the table is used again by the next growth
+        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 8ecad12eeb474248c091ff8c96ee651b7baff022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 06/18] fix: only unmap what is still mapped when trimming an
 aligned mapping fails

---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..a9685a8 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the lead is already unmapped and may have been reused
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From e8f6c4c02f24c953ef8a89b7a2946cc7b0ca552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 07/18] fix: set errno when the region table is at its maximum
 size

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 6895843..e8407b3 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1018,6 +1018,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1026,6 +1027,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From 09bbd8ebe0b792ffe4a48621bb48daaeb6a12433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 08/18] fix: preserve errno when a reseed during free is
 interrupted

---
 random.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/random.c b/random.c
index 8883531..14b5705 100644
--- a/random.c
+++ b/random.c
@@ -7,7 +7,10 @@
 
 #include <sys/random.h>
 
+// preserves errno since it can be reached from free
 static void get_random_seed(void *buf, size_t size) {
+    int saved_errno = errno;
+
     while (size) {
         ssize_t r;
 
@@ -22,6 +25,8 @@ static void get_random_seed(void *buf, size_t size) {
         buf = (char *)buf + r;
         size -= r;
     }
+
+    errno = saved_errno;
 }
 
 void random_state_init(struct random_state *state) {
-- 
2.43.0


From 369d8679931ea5099da80fef4039deadc3723d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 09/18] fix: out-of-bounds access with the free slabs
 quarantine disabled

---
 h_malloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index e8407b3..a5c11d0 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -277,7 +277,9 @@ struct __attribute__((aligned(CACHELINE_SIZE))) size_class {
     // FIFO singly-linked list
     struct slab_metadata *free_slabs_head;
     struct slab_metadata *free_slabs_tail;
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     struct slab_metadata *free_slabs_quarantine[FREE_SLABS_QUARANTINE_RANDOM_LENGTH];
+#endif
 
 #if CONFIG_STATS
     u64 nmalloc; // may wrap (per jemalloc API)
@@ -750,6 +752,7 @@ static size_t slab_usable_size(const void *p) {
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
     struct slab_metadata *substitute = c->free_slabs_quarantine[index];
@@ -758,6 +761,9 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     if (substitute == NULL) {
         return;
     }
+#else
+    struct slab_metadata *substitute = metadata;
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From dbe1bf48f69bd037b4b4818392caa3e5ab5a20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 10/18] fix: do not write to the malloc_info stream with
 metadata unsealed

---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index a5c11d0..7a11b75 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2035,20 +2035,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                // writing to the stream can use the allocator
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2065,15 +2066,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 3a7c16605812b35156378b99fdcf6f9099bea829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 11/18] fix: keep slabs mapped with PROT_MTE when their memory
 is released

---
 h_malloc.c | 13 +++++++++++--
 memory.c   | 15 +++++++++++++--
 memory.h   |  3 +++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 7a11b75..d3f0ad5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -749,6 +749,15 @@ static size_t slab_usable_size(const void *p) {
     return size_classes[slab_size_class(p).class];
 }
 
+static bool memory_map_fixed_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
@@ -896,7 +905,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!memory_map_fixed_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1923,7 +1932,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (memory_map_fixed_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..074e3fe 100644
--- a/memory.c
+++ b/memory.c
@@ -42,8 +42,8 @@ void *memory_map_mte(size_t size) {
 }
 #endif
 
-bool memory_map_fixed(void *ptr, size_t size) {
-    void *p = mmap(ptr, size, PROT_NONE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+static bool memory_map_fixed_prot(void *ptr, size_t size, int prot) {
+    void *p = mmap(ptr, size, prot, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
     bool ret = p == MAP_FAILED;
     if (unlikely(ret) && errno != ENOMEM) {
         fatal_error("non-ENOMEM MAP_FIXED mmap failure");
@@ -51,6 +51,17 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+bool memory_map_fixed(void *ptr, size_t size) {
+    return memory_map_fixed_prot(ptr, size, PROT_NONE);
+}
+
+#ifdef HAS_ARM_MTE
+// Note that PROT_MTE can't be cleared via mprotect
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    return memory_map_fixed_prot(ptr, size, PROT_MTE);
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0


From 7f0f37bf48d1f4cfd7fcc4e91b32b2d2de8f1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 12/18] fix: zero size allocations with a large alignment
 without large size classes

---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index d3f0ad5..e934f6a 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1354,7 +1354,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)PAGE_SIZE));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


From 12a12ba2bdfe00d8d0beaf60d8b624d59aa9fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 13/18] fix: select slots in slab quarantines longer than
 16-bit lengths uniformly

---
 h_malloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index e934f6a..d72e593 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -844,7 +844,9 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    size_t random_index = slab_quarantine_random_length <= (u16)-1 ?
+        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :
+        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From 5926d71fc9c8a2ae4be0b7299f5a8588ad56192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 14/18] fix: rejection threshold of uniform 16-bit draws was
 always 0

---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 14b5705..04d6771 100644
--- a/random.c
+++ b/random.c
@@ -95,7 +95,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 995f1b3fdb4f626b1c67fc82bb6f21f9ddc7630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:55 +0000
Subject: [PATCH 15/18] fix: preserve errno in free when naming released memory
 fails

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index d72e593..4a8020f 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -909,6 +909,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
             int saved_errno = errno;
             if (!memory_map_fixed_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
+                errno = saved_errno;
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
                 mutex_unlock(&c->lock);
-- 
2.43.0


From 246741225ac6e86bb9b445bde0bca3727bf5c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:21 +0000
Subject: [PATCH 16/18] fix: object size queries of tagged pointers

The object size queries compared tagged pointers with the bounds of the slab
region, so with memory tagging enabled small allocations were treated as unknown
pointers: the size was reported as SIZE_MAX and freed blocks went undetected.
---
 h_malloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 4a8020f..9436a13 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1826,11 +1826,13 @@ EXPORT size_t h_malloc_usable_size(H_MALLOC_USABLE_SIZE_CONST void *arg) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1886,11 +1888,13 @@ EXPORT size_t h_malloc_object_size(const void *p) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size_fast(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size_fast(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From 6a94a186ed69ddb115ab80a3e1f635e81fb707bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 17/18] fix: data race when memory tagging is disabled at run
 time

malloc_disable_memory_tagging() writes the flag that every other thread
reads without a lock on its allocation paths. Make it atomic.
---
 h_malloc.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 9436a13..b6a0790 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -78,7 +78,8 @@ static union {
         int metadata_pkey;
 #endif
 #ifdef MEMTAG
-        bool is_memtag_disabled;
+        // changed while other threads are using the allocator
+        atomic_bool is_memtag_disabled;
 #endif
     };
     char padding[PAGE_SIZE];
@@ -90,7 +91,7 @@ static inline void *get_slab_region_end(void) {
 
 #ifdef MEMTAG
 static inline bool is_memtag_enabled(void) {
-    return !ro.is_memtag_disabled;
+    return !atomic_load_explicit(&ro.is_memtag_disabled, memory_order_relaxed);
 }
 #endif
 
@@ -2215,18 +2216,18 @@ COLD EXPORT int h_malloc_set_state(UNUSED void *state) {
 COLD EXPORT void h_malloc_disable_memory_tagging(void) {
 #ifdef HAS_ARM_MTE
     mutex_lock(&init_lock);
-    if (!ro.is_memtag_disabled) {
+    if (is_memtag_enabled()) {
         if (is_init()) {
             if (unlikely(memory_protect_rw(&ro, sizeof(ro)))) {
                 fatal_error("failed to unprotect allocator data");
             }
-            ro.is_memtag_disabled = true;
+            atomic_store_explicit(&ro.is_memtag_disabled, true, memory_order_relaxed);
             if (unlikely(memory_protect_ro(&ro, sizeof(ro)))) {
                 fatal_error("failed to protect allocator data");
             }
         } else {
             // bionic calls this function very early in some cases
-            ro.is_memtag_disabled = true;
+            atomic_store_explicit(&ro.is_memtag_disabled, true, memory_order_relaxed);
         }
     }
     mutex_unlock(&init_lock);
-- 
2.43.0


From 8299a3e1ddbc3f6deb7cdb60074d5639c6fd3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 18/18] fix: fork while memory tagging is being disabled at run
 time

The child could inherit a locked initialization lock and writable read-only
state when it was forked while another thread was disabling memory tagging.
---
 h_malloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index b6a0790..23598d5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1169,7 +1169,11 @@ static inline void thread_seal_metadata(void) {
 #endif
 }
 
+static struct mutex init_lock = MUTEX_INITIALIZER;
+
 static void full_lock(void) {
+    // keeps the read-only state from being written too
+    mutex_lock(&init_lock);
     thread_unseal_metadata();
     mutex_lock(&ro.region_allocator->lock);
     for (unsigned arena = 0; arena < N_ARENA; arena++) {
@@ -1189,11 +1193,13 @@ static void full_unlock(void) {
         }
     }
     thread_seal_metadata();
+    mutex_unlock(&init_lock);
 }
 
 static void post_fork_child(void) {
     thread_unseal_metadata();
 
+    mutex_init(&init_lock);
     mutex_init(&ro.region_allocator->lock);
     random_state_init(&ro.region_allocator->rng);
     for (unsigned arena = 0; arena < N_ARENA; arena++) {
@@ -1216,8 +1222,6 @@ static inline void enforce_init(void) {
     }
 }
 
-static struct mutex init_lock = MUTEX_INITIALIZER;
-
 COLD static void init_slow_path(void) {
 
     mutex_lock(&init_lock);
-- 
2.43.0

