From 03265d76e37a857b94bba4ef1204b65c811442bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:40 +0000
Subject: [PATCH 01/10] fix: mempool set: malloc_init must initialize the item,
 not zero it

rseq_mempool_set_percpu_malloc_init() passed zeroed=true, so the item
was zeroed on all CPUs and @init_ptr was ignored.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From a7d86d8293e5956ba79a40b6a763b673979e65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:00 +0000
Subject: [PATCH 02/10] fix: mempool: report failure to unmap a range from pool
 destroy

rseq_mempool_destroy() is documented to return -1 on (partial) failure,
but returned 0 when munmap of a range failed.
---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..d38b538 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From 5675b92e5d4a632ade423760dcb8b1a0380043b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:00 +0000
Subject: [PATCH 03/10] fix: mempool: refuse item sizes which cannot be rounded
 up to a power of two

For item_len > 2^63 the order is 64 and "1UL << order" is undefined: on
x86 the pool was created with 1-byte items.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d38b538..5236f5d 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -938,7 +938,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= (int) BIT_PER_ULONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From bcca33998e4d76165a48bfacb23e578530f62530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:00 +0000
Subject: [PATCH 04/10] fix: mempool: refuse pools whose range length overflows
 size_t

stride * max_nr_cpus (plus init, free list, alignment and header) was
computed without overflow check. On overflow the mapping is too small
and the MAP_FIXED per-cpu mappings replace unrelated memory.
---
 src/rseq-mempool.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 5236f5d..496023a 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -997,6 +997,14 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 		errno = EINVAL;
 		return NULL;
 	}
+	/*
+	 * The mapping of a range (per-cpu memory, init values, dedicated
+	 * free list, alignment and header) must fit in the address space.
+	 */
+	if (attr.stride > SIZE_MAX / ((size_t) attr.max_nr_cpus + 5)) {
+		errno = ENOMEM;
+		return NULL;
+	}
 
 	pool = calloc(1, sizeof(struct rseq_mempool));
 	if (!pool)
-- 
2.43.0


From 6541794f890247dd898f23896d9f1fb71d836507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:04 +0000
Subject: [PATCH 05/10] fix: x86-64 memcpy operation must not modify its input
 registers

rseq_load_cbne_memcpy_store__ptr() advances the src, dst and len input
operands of its asm goto and restores them afterwards. The compiler may
assign one register to several inputs with the same value, or use the
register of dst as base of the memory operand v, in which case the final
store uses a modified value: it lands at the wrong address (v and dst
members of the same structure) or stores 0 (newv equal to len).

Use a clobbered register as copy index and leave inputs unmodified.
---
 include/rseq/arch/x86/bits.h | 52 +++++++++---------------------------
 1 file changed, 12 insertions(+), 40 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..7b23de2 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -418,8 +418,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -429,9 +427,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		"movq %[src], %[rseq_scratch0]\n\t"
-		"movq %[dst], %[rseq_scratch1]\n\t"
-		"movq %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, RSEQ_ASM_TP_SEGMENT:RSEQ_ASM_CS_OFFSET(%[rseq_offset]))
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 4f)
@@ -445,46 +440,26 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		"jne 7f\n\t"
 #endif
 		/* try memcpy */
+		"xorl %%ecx, %%ecx\n\t" \
 		"test %[len], %[len]\n\t" \
 		"je 333f\n\t" \
 		"222:\n\t" \
-		"movb (%[src]), %%al\n\t" \
-		"movb %%al, (%[dst])\n\t" \
-		"inc %[src]\n\t" \
-		"inc %[dst]\n\t" \
-		"dec %[len]\n\t" \
-		"jnz 222b\n\t" \
+		"movb (%[src], %%rcx), %%al\n\t" \
+		"movb %%al, (%[dst], %%rcx)\n\t" \
+		"incq %%rcx\n\t" \
+		"cmpq %[len], %%rcx\n\t" \
+		"jne 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 		/* final store */
 		"movq %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		"movq %[rseq_scratch2], %[len]\n\t"
-		"movq %[rseq_scratch1], %[dst]\n\t"
-		"movq %[rseq_scratch0], %[src]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			ne)
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
+		RSEQ_ASM_DEFINE_TEARDOWN(5, "", ne)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error2)
+		RSEQ_ASM_DEFINE_TEARDOWN(6, "", error1)
+		RSEQ_ASM_DEFINE_TEARDOWN(7, "", error2)
 #endif
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
@@ -496,11 +471,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
-		: "memory", "cc", "rax"
+		  [len]			"r" (len)
+		: "memory", "cc", "rax", "rcx"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From 7a11f077d3c5286020f03d0c2bcb5c7b2a96edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:53 +0000
Subject: [PATCH 06/10] fix: mempool: destroying a robust COW_INIT pool in a
 child must not report leaks

The memory of a COW_INIT pool is not inherited across fork, so a child
process cannot free the items which are allocated at fork time. Destroying
the pool from the child is documented as valid, but it aborted with
"leaked items on destroy" for robust pools with live items. Skip the leak
check like the free list and poison checks when the mapping is not
accessible.
---
 src/rseq-mempool.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 496023a..492297e 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -574,7 +574,8 @@ void check_pool_poison(const struct rseq_mempool *pool, bool mapping_accessible)
 
 /* Always inline for __builtin_return_address(0). */
 static inline __attribute__((always_inline))
-void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range)
+void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range,
+		bool mapping_accessible)
 {
 	unsigned long *bitmap = range->alloc_bitmap;
 	size_t count, total_leaks = 0;
@@ -584,9 +585,15 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 
 	count = ((pool->attr.stride >> pool->item_order) + BIT_PER_ULONG - 1) / BIT_PER_ULONG;
 
-	/* Assert that all items in the pool were freed. */
-	for (size_t k = 0; k < count; ++k)
-		total_leaks += rseq_hweight_ulong(bitmap[k]);
+	/*
+	 * Assert that all items in the pool were freed. A child process
+	 * cannot free the items of a pool which is not accessible across
+	 * fork.
+	 */
+	if (mapping_accessible) {
+		for (size_t k = 0; k < count; ++k)
+			total_leaks += rseq_hweight_ulong(bitmap[k]);
+	}
 	if (total_leaks) {
 		fprintf(stderr, "%s: Pool \"%s\" (%p) has %zu leaked items on destroy, caller: %p.\n",
 			__func__, get_pool_name(pool), pool, total_leaks, (void *) __builtin_return_address(0));
@@ -603,7 +610,7 @@ int rseq_mempool_range_destroy(struct rseq_mempool *pool,
 		struct rseq_mempool_range *range,
 		bool mapping_accessible)
 {
-	destroy_alloc_bitmap(pool, range);
+	destroy_alloc_bitmap(pool, range, mapping_accessible);
 	if (!mapping_accessible) {
 		/*
 		 * Only the header pages are populated in the child
-- 
2.43.0


From 6311a3acfb76077cc7c0c3487798f1ef31ac7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:07 +0000
Subject: [PATCH 07/10] fix: mempool: destroy of a robust pool can be retried
 after a failure

When unmapping a range fails, rseq_mempool_destroy keeps the list of the
remaining ranges coherent and returns an error. Calling it again on a robust
pool walked the free list through ranges which are already unmapped and
aborted (or crashed). The pool has been validated by the first attempt: do
not validate it again.
---
 src/rseq-mempool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 492297e..2f6a5d1 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,11 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 
 	check_free_list(pool, mapping_accessible);
 	check_pool_poison(pool, mapping_accessible);
+	/*
+	 * Validate only once: if unmapping a range fails, the free list of
+	 * a partially destroyed pool cannot be validated by the next attempt.
+	 */
+	pool->attr.robust_set = false;
 
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
-- 
2.43.0


From d1ff94808167e8ca3ff9b1fc13e577ca8bb1efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:47 +0000
Subject: [PATCH 08/10] fix: use the same rseq area length to register and
 unregister threads

The length passed to the kernel was derived from rseq_size, which is 0 until
the first thread has registered. With a kernel feature size above 32 bytes
the first thread was registered with 32 bytes, lacking the features which
rseq_size then advertises, and its unregistration (with the larger length)
was refused by the kernel.
---
 src/rseq.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..38c428a 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,22 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and large enough for all the
+ * features supported by the kernel. This length must be the same for the
+ * registration of each thread and for its unregistration, so it does not
+ * depend on whether a thread has already registered successfully.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 0d0e19d3de7205d62dec5292c2df59ceefdbcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 09/10] fix: allocate the whole rseq thread area

Aligning __rseq_abi on RSEQ_THREAD_AREA_ALLOC_SIZE does not make the object
larger: it was 32 bytes long, while up to 1024 bytes (the kernel feature size)
of it can be registered. The kernel could write past the object, over other
thread-local variables.
---
 src/rseq.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 38c428a..a4d754d 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,18 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
+ * The padding guarantees that the rseq_abi structure allocated size is at
+ * least RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
  * kernel rseq extensions.
  */
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union {
+	struct rseq_abi abi;
+	char padding[RSEQ_THREAD_AREA_ALLOC_SIZE];
+} __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -166,7 +170,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_abi.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -200,7 +204,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_abi.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
-- 
2.43.0


From 2500efcd6957ae17f72a7869ffb0f541102669b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 10/10] fix: smp: the number of CPUs found in sysfs must not
 overflow

A highest CPU id of INT_MAX was accepted, and adding one to it to get a number
of CPUs overflows int.
---
 src/smp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.c b/src/smp.c
index a162c2b..5e4babd 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -67,7 +67,7 @@ int _get_max_cpuid_from_sysfs(const char *path)
 	 * If the max CPU id is out of bound, set it to -1 so it results in a
 	 * CPU num of 0.
 	 */
-	if (max_cpuid < 0 || max_cpuid > INT_MAX)
+	if (max_cpuid < 0 || max_cpuid >= INT_MAX)
 		max_cpuid = -1;
 
 end:
-- 
2.43.0

