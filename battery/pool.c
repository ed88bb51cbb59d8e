/* Concrete replay battery for the memory pool: model-based random histories run against the real
 * library sources, with interposed system calls (fault injection, ownership tracking).
 *   pool <property> <mode> <seed> <iterations>
 * Prints "FAIL <property> <mode> seed=.. case=.. : <what>" and exits 1 on the first violation of
 * <property>; other properties' conditions are not judged.  Exit 0: none found. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <rseq/mempool.h>
#include <rseq/rseq.h>

static const char *prop, *mode; static uint64_t seed0; static long case_no;
static int failed;
static void fail(const char *p, const char *fmt, ...)
{
	va_list ap;
	if (strcmp(p, prop)) return;
	printf("FAIL %s %s seed=%llu case=%ld : ", p, mode, (unsigned long long) seed0, case_no);
	va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
	failed = 1; _exit(1);
}
#define CK(p, c, ...) do { if (!(c)) fail(p, __VA_ARGS__); } while (0)
static uint64_t rs; 
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static uint64_t rn(uint64_t n) { return rnd() % n; }

/* ---------------------------------------------------------------- interposition */
static int in_lib; static long calls, fail_at, fault_hit; static int fault_any, munmap_fail;
#define MAXIV 65536
static struct { uintptr_t a, e; } iv[MAXIV]; static int niv; static int fds[256]; static int nfd; static void *hp[4096]; static int nhp;
static int foreign_fixed, bad_unmap, bad_close, bad_free, unmap_calls;
static int should_fail(void) { if (!in_lib) return 0; calls++; if (fail_at && calls == fail_at) { fault_hit = 1; return 1; } return 0; }
static int covered(uintptr_t a, uintptr_t e)
{
	while (a < e) { int i; for (i = 0; i < niv; i++) if (iv[i].a <= a && a < iv[i].e) break; if (i == niv) return 0; a = iv[i].e; }
	return 1;
}
static void iv_add(uintptr_t a, uintptr_t e) { iv[niv].a = a; iv[niv++].e = e; }
static void iv_del(uintptr_t a, uintptr_t e)
{
	for (int i = 0; i < niv; i++) {
		uintptr_t x = iv[i].a, y = iv[i].e;
		if (y <= a || e <= x) continue;
		iv[i] = iv[--niv]; i--;
		if (x < a) iv_add(x, a);
		if (e < y) iv_add(e, y);
	}
}
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_memfd_create(const char *, unsigned);
int __real_close(int); int __real_ftruncate(int, off_t); void *__real_calloc(size_t, size_t); void __real_free(void *); char *__real_strdup(const char *);
int __real_madvise(void *, size_t, int); void *__real_malloc(size_t);
static int foreign_frozen; static void *foreign_lo, *foreign_hi;
void *__wrap_mmap(void *p, size_t n, int pr, int fl, int fd, off_t o)
{
	if (!in_lib) return __real_mmap(p, n, pr, fl, fd, o);
	if (should_fail()) { errno = ENOMEM; return MAP_FAILED; }
	if (fl & MAP_FIXED) {
		if (!covered((uintptr_t) p, (uintptr_t) p + ((n + 4095) & ~4095UL)) || (uintptr_t) p + n < (uintptr_t) p) { foreign_fixed++; errno = ENOMEM; return MAP_FAILED; }
		return __real_mmap(p, n, pr, fl, fd, o);
	}
	void *r = __real_mmap(p, n, pr, fl | MAP_NORESERVE, fd, o);
	if (r != MAP_FAILED) iv_add((uintptr_t) r, (uintptr_t) r + ((n + 4095) & ~4095UL));
	return r;
}
int __wrap_munmap(void *p, size_t n)
{
	if (!in_lib) return __real_munmap(p, n);
	unmap_calls++;
	if (munmap_fail && !--munmap_fail) { errno = ENOMEM; return -1; }
	if (!covered((uintptr_t) p, (uintptr_t) p + ((n + 4095) & ~4095UL))) { bad_unmap++; return 0; }
	int r = __real_munmap(p, n); if (!r) iv_del((uintptr_t) p, (uintptr_t) p + ((n + 4095) & ~4095UL));
	return r;
}
int __wrap_memfd_create(const char *s, unsigned f)
{
	if (should_fail()) { errno = EMFILE; return -1; }
	int r = __real_memfd_create(s, f); if (in_lib && r >= 0) fds[nfd++] = r; return r;
}
int __wrap_close(int fd)
{
	if (!in_lib) return __real_close(fd);
	for (int i = 0; i < nfd; i++) if (fds[i] == fd) { fds[i] = fds[--nfd]; return __real_close(fd); }
	bad_close++; errno = EBADF; return -1;
}
int __wrap_ftruncate(int fd, off_t l) { if (should_fail()) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, l); }
int __wrap_madvise(void *p, size_t n, int a) { if (should_fail()) { errno = ENOMEM; return -1; } return __real_madvise(p, n, a); }
static void *hadd(void *p) { if (in_lib && p) hp[nhp++] = p; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (should_fail()) { errno = ENOMEM; return NULL; } return hadd(__real_calloc(a, b)); }
void *__wrap_malloc(size_t a) { if (should_fail()) { errno = ENOMEM; return NULL; } return hadd(__real_malloc(a)); }
char *__wrap_strdup(const char *s) { if (should_fail()) { errno = ENOMEM; return NULL; } return hadd(__real_strdup(s)); }
void __wrap_free(void *p)
{
	if (!in_lib || !p) { __real_free(p); return; }
	for (int i = 0; i < nhp; i++) if (hp[i] == p) { hp[i] = hp[--nhp]; __real_free(p); return; }
	bad_free++;
}
static volatile int jitter; static __thread uint64_t jr;
static void jit(void) { if (!jitter) return; if (!jr) jr = (uintptr_t) &jr * 2654435761u | 1; jr ^= jr << 13; jr ^= jr >> 7; jr ^= jr << 17; if (jr % 3) sched_yield(); else usleep(jr % 97); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
/* In the thread modes a thread may lose the CPU right before it takes and right after it drops a lock. */
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { jit(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); jit(); return r; }
#define L(x) ({ in_lib = 1; errno = 0; __typeof__(x) _r = (x); in_lib = 0; _r; })
#define LV(x) ({ in_lib = 1; (x); in_lib = 0; })
static void reset_track(void) { niv = nfd = nhp = 0; calls = fail_at = fault_hit = 0; foreign_fixed = bad_unmap = bad_close = bad_free = 0; munmap_fail = 0; }
/* The library may hold process-global caches in libc; only objects created by pool calls are tracked. */

/* ---------------------------------------------------------------- configuration */
static uintptr_t cur_pv; static size_t cur_il;
struct conf { size_t item, stride; int ncpu, cow, robust, poison, global, init, named, noattr; unsigned long maxr; uintptr_t pv; };
struct irec { void *addr; size_t len; int cpu; }; static struct irec ir[4096]; static int nir, init_fail_at;
static int init_cb(void *priv, void *addr, size_t len, int cpu)
{
	int save = in_lib; in_lib = 0;
	CK("C10", priv == (void *) &nir, "init callback got the wrong private pointer");
	if (nir < 4096) ir[nir++] = (struct irec) { addr, len, cpu };
	in_lib = save;
	if (init_fail_at && nir == init_fail_at) return -1;
	return 0;
}
static size_t pow2up(size_t x) { size_t r = 8; while (r < x) r <<= 1; return r; }
static void gen(struct conf *c)
{
	memset(c, 0, sizeof(*c));
	c->stride = 4096UL << rn(3); if (!rn(6)) c->stride = 65536;
	switch (rn(4)) { case 0: c->item = 1 + rn(64); break; case 1: c->item = 1 + rn(c->stride); break; case 2: c->item = c->stride >> rn(6); break; default: c->item = 8 << rn(4); }
	c->ncpu = 1 + rn(5); c->cow = rn(2); c->robust = rn(2); c->poison = rn(2); c->init = !rn(4); c->named = rn(2); c->maxr = rn(4);
	c->pv = rn(3) ? rnd() : (rn(2) ? 0 : ~0UL);
	if (!rn(5)) { c->global = 1; c->ncpu = 1; c->cow = 0; }
}
static struct rseq_mempool *mk(struct conf *c)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); struct rseq_mempool *p;
	if (c->init) CK("C10", !rseq_mempool_attr_set_init(a, init_cb, &nir), "set_init fails");
	if (c->global) CK("C10", !rseq_mempool_attr_set_global(a, c->stride), "set_global fails");
	else CK("C10", !rseq_mempool_attr_set_percpu(a, c->stride, c->ncpu), "set_percpu fails");
	if (c->robust) CK("C10", !rseq_mempool_attr_set_robust(a), "set_robust fails");
	if (c->poison) CK("C10", !rseq_mempool_attr_set_poison(a, c->pv), "set_poison fails");
	CK("C10", !rseq_mempool_attr_set_max_nr_ranges(a, c->maxr), "set_max_nr_ranges fails");
	CK("C10", !rseq_mempool_attr_set_populate_policy(a, c->cow ? RSEQ_MEMPOOL_POPULATE_COW_INIT : RSEQ_MEMPOOL_POPULATE_COW_ZERO), "set_populate_policy fails");
	nir = 0; cur_pv = c->poison ? c->pv : 0; cur_il = c->item <= (1UL << 62) ? pow2up(c->item) : 8;
	char nm[16]; snprintf(nm, sizeof nm, "n%d", (int) rn(1000));
	p = L(rseq_mempool_create(c->named ? nm : NULL, c->item, a));
	memset(nm, 'x', sizeof nm); int e = errno; rseq_mempool_attr_destroy(a); errno = e;
	return p;
}
static const char *cs(struct conf *c)
{
	static char b[256]; snprintf(b, sizeof b, "[item=%zu stride=%zu cpus=%d %s%s%s%s%s maxr=%lu poison=%lx]", c->item, c->stride, c->ncpu, c->cow ? "COW_INIT" : "COW_ZERO",
		c->robust ? " robust" : "", c->poison ? " poison" : "", c->global ? " global" : "", c->init ? " init" : "", c->maxr, (unsigned long) c->pv); return b;
}

/* ---------------------------------------------------------------- model of the live items */
struct item { char *p; unsigned char tag; int undef; };
#define MAXLIVE 20000
static struct item lv[MAXLIVE]; static int nl;
/* Contents painted into items: arbitrary bytes, and contents which differ from the poison value or
 * from zero in a single byte only. */
static unsigned char pat(int tag, int cpu, size_t i)
{
	if (cur_il && (tag % 5 == 1 || tag % 5 == 3)) {
		size_t odd = (((size_t) tag * 2654435761u + cpu * 40503u) >> 3) % cur_il; unsigned char b = tag % 5 == 3 ? 0 : ((unsigned char *) &cur_pv)[i % sizeof cur_pv];
		return i == odd ? b ^ (1 + tag % 255) : b;
	}
	return (unsigned char) (tag * 31 + cpu * 7 + i * 3 + 1);
}
static void paint(struct conf *c, struct item *x, size_t il)
{
	for (int cpu = 0; cpu < c->ncpu; cpu++) { unsigned char *q = rseq_percpu_ptr((unsigned char *) x->p, cpu, c->stride); for (size_t i = 0; i < il; i++) q[i] = pat(x->tag, cpu, i); }
}
static void verify(struct conf *c, struct item *x, size_t il, const char *when)
{
	for (int cpu = 0; cpu < c->ncpu; cpu++) { unsigned char *q = rseq_percpu_ptr((unsigned char *) x->p, cpu, c->stride);
		for (size_t i = 0; i < il; i++) if (q[i] != pat(x->tag, cpu, i)) {
			fail("C07", "%s: byte %zu of CPU %d of a live item changed during %s", cs(c), i, cpu, when); fail("C05", "%s: live item %p overwritten during %s", cs(c), x->p, when); return; } }
}
static void take(struct conf *c, char *p, size_t il)
{
	for (int i = 0; i < nl; i++) CK("C05", p + il <= lv[i].p || lv[i].p + il <= p, "%s: item %p handed out while item %p is live", cs(c), p, lv[i].p);
	CK("C05", !((uintptr_t) p & (il - 1)), "%s: item %p not aligned on its size", cs(c), p);
	CK("C05", ((uintptr_t) p & (c->stride - 1)) + il <= c->stride, "item crosses the stride");
	for (int cpu = 0; cpu < c->ncpu; cpu++) {
		char *q = (char *) p + (size_t) cpu * c->stride;
		if (!covered((uintptr_t) q, (uintptr_t) q + il)) { fail("C05", "%s: item %p cpu %d outside the pool's memory", cs(c), p, cpu); _exit(0); }
		/* the copies of this item are disjoint from the copies of every other live item */
		for (int i = 0; i < nl; i++) for (int k = 0; k < c->ncpu; k++) { char *o = lv[i].p + (size_t) k * c->stride; CK("C05", q + il <= o || o + il <= q, "%s: copies of two live items overlap", cs(c)); }
	}
}
static size_t cap(struct conf *c, size_t il) { return c->stride / il; }

/* where the copy of a CPU lies */
static void addresses(void)
{
	for (int k = 0; k < 200; k++) {
		uintptr_t b = (rnd() >> 20) & ~4095UL; int cpu = rn(3) ? (int) rn(64) : (int) (rnd() >> 34); size_t st = 1UL << (12 + rn(24)); struct big { long a[5]; };
		int ok = (uintptr_t) rseq_percpu_ptr((char *) b, cpu, st) == b + (size_t) cpu * st && (uintptr_t) rseq_percpu_ptr((struct big *) b, cpu) == b + (size_t) cpu * RSEQ_MEMPOOL_STRIDE;
		CK("C05", ok, "copy of CPU %d with stride %zx at %p", cpu, st, (void *) b); CK("C06", ok, "copy of CPU %d with stride %zx", cpu, st); CK("C10", ok, "copy of CPU %d with stride %zx", cpu, st);
	}
}
/* one random history on one pool */
static void history(int steps)
{
	struct conf c; gen(&c); reset_track(); nl = 0;
	struct rseq_mempool *p = mk(&c); size_t il = pow2up(c.item);
	CK("C10", p || il > c.stride, "%s: valid creation refused (errno %d)", cs(&c), errno);
	if (!p) return;
	size_t maxtotal = c.maxr ? c.maxr * cap(&c, il) : 0; unsigned char tag = 1; size_t highwater = 0; static unsigned char buf[1 << 17];
	if (strcmp(prop, "C08") == 0 && maxtotal && maxtotal < 6000 && rn(2)) steps = maxtotal * 3 + 20;
	/* random bias phases: grow, shrink, mixed */
	int bias = 60;
	for (int s = 0; s < steps; s++) {
		if (!rn(20)) bias = 20 + rn(70);
		if ((int) rn(100) < bias && nl < MAXLIVE - 1) {
			int kind = rn(3); size_t n = rn(5) ? rn(il + 1) : (rn(2) ? il : il + 1 + rn(64)); char *q;
			if (n > sizeof buf) n = sizeof buf;
			for (size_t i = 0; i < n; i++) buf[i] = pat(tag + 100, 0, i);
			int fi = !rn(12) && !c.cow; if (fi) { calls = 0; fail_at = 1; fault_hit = 0; }
			q = kind == 0 ? L(rseq_mempool_percpu_malloc(p)) : kind == 1 ? L(rseq_mempool_percpu_zmalloc(p)) : L(rseq_mempool_percpu_malloc_init(p, buf, n));
			int e = errno, hit = fault_hit; fail_at = 0; fault_hit = 0;
			if (kind == 2 && n > il) { CK("C08", !q && e == EINVAL, "%s: malloc_init of %zu bytes accepted or wrong errno %d", cs(&c), n, e); if (!q) continue; }
			else if (!q) {
				CK("C08", hit || (maxtotal && (size_t) nl >= maxtotal), "%s: allocation failed with %d of %zu items live", cs(&c), nl, maxtotal);
				CK("C08", e == ENOMEM, "%s: errno %d on exhaustion", cs(&c), e);
				if (nl) bias = 10; continue;
			}
			CK("C08", !maxtotal || (size_t) nl < maxtotal, "%s: %d items live with room for only %zu", cs(&c), nl + 1, maxtotal);
			take(&c, q, il);
			if ((size_t) nl + 1 > highwater) highwater = nl + 1;
			if (kind == 1) for (int cpu = 0; cpu < c.ncpu; cpu++) for (size_t i = 0; i < il; i++)
				if (((unsigned char *) rseq_percpu_ptr(q, cpu, c.stride))[i]) fail("C06", "%s: zmalloc: byte %zu of CPU %d is %#x", cs(&c), i, cpu, ((unsigned char *) rseq_percpu_ptr(q, cpu, c.stride))[i]);
			if (kind == 2) for (int cpu = 0; cpu < c.ncpu; cpu++) if (n <= il && memcmp(rseq_percpu_ptr(q, cpu, c.stride), buf, n)) fail("C06", "%s: malloc_init(%zu): CPU %d does not hold the initial content", cs(&c), n, cpu);
			lv[nl].p = q; lv[nl].tag = tag++; 
			for (int i = 0; i < nl; i += 1 + nl / 40) verify(&c, &lv[i], il, "an allocation");
			/* COW_INIT: leave some CPU copies unwritten so that they keep aliasing the init copy */
			lv[nl].undef = 0; paint(&c, &lv[nl], il); nl++;
			if (strcmp(prop, "C08") == 0) { size_t rneed = (highwater + cap(&c, il) - 1) / cap(&c, il); int maps = 0; (void) rneed; (void) maps; }
		} else if (nl) {
			int k = rn(nl); struct item x = lv[k]; verify(&c, &x, il, "its lifetime"); lv[k] = lv[--nl];
			/* any pointer value handed out for CPU 0 */
			LV(librseq_mempool_percpu_free(x.p, c.stride));
			for (int i = 0; i < nl; i += 1 + nl / 40) verify(&c, &lv[i], il, "a free");
			uintptr_t pv = c.poison ? c.pv : 0; int known = c.poison;
			if (known) for (int cpu = 0; cpu < c.ncpu; cpu++) { unsigned char *q = rseq_percpu_ptr((unsigned char *) x.p, cpu, c.stride);
				for (size_t i = 0; i < il; i++) {
					if (!c.robust && !c.cow && cpu == 0 && i < sizeof(void *)) continue;
					if (q[i] != ((unsigned char *) &pv)[i % sizeof pv]) fail("C13", "%s: byte %zu of CPU %d of a freed item is %#x, not poison", cs(&c), i, cpu, q[i]); } }
		}
	}
	for (int i = 0; i < nl; i++) verify(&c, &lv[i], il, "the history");
	while (nl) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); for (int i = 0; i < nl; i += 1 + nl / 8) verify(&c, &lv[i], il, "a free"); }
	/* everything recycled: the same number of items can be live again without new memory */
	if (maxtotal && maxtotal < 3000) {
		size_t k; for (k = 0; k < maxtotal; k++) { char *q = L(rseq_mempool_percpu_malloc(p)); if (!q) break; take(&c, q, il); lv[nl].p = q; lv[nl++].tag = 1; }
		CK("C08", k == maxtotal, "%s: only %zu of %zu items after recycling", cs(&c), k, maxtotal);
		CK("C08", !L(rseq_mempool_percpu_malloc(p)), "%s: more items than the ranges hold", cs(&c));
		while (nl) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); }
	} else {
		int before = niv; size_t k; uintptr_t tot = 0, tot2 = 0; for (int i = 0; i < before; i++) tot += iv[i].e - iv[i].a;
		for (k = 0; k < highwater; k++) { char *q = L(rseq_mempool_percpu_malloc(p)); if (!q) break; lv[nl].p = q; lv[nl++].tag = 1; }
		for (int i = 0; i < niv; i++) tot2 += iv[i].e - iv[i].a;
		CK("C08", k == highwater && tot2 <= tot, "%s: freed items are not reused (%zu live before, memory grew)", cs(&c), highwater);
		while (nl) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); }
	}
	int r = L(rseq_mempool_destroy(p));
	CK("C11", r == 0, "%s: destroy returns %d", cs(&c), r);
	CK("C11", !niv && !nfd && !nhp, "%s: after destroy %d mappings, %d fds, %d heap blocks left", cs(&c), niv, nfd, nhp);
	CK("C11", !bad_unmap && !bad_close && !bad_free && !foreign_fixed, "%s: released or replaced memory it does not own", cs(&c));
}

/* ---------------------------------------------------------------- abort expectations (child per case) */
static int in_child(void (*f)(void *), void *a)
{
	fflush(stdout); pid_t pid = fork();
	if (!pid) { struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); if (!freopen("/dev/null", "w", stderr)) { } alarm(20); f(a); _exit(0); }
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	if (WIFSIGNALED(st)) return -WTERMSIG(st);
	return WEXITSTATUS(st);
}
static void run_history(void *a) { history(*(int *) a); }

struct rob { struct conf c; int what; uint64_t r; };
static void robust_case(void *a)
{
	struct rob *b = a; struct conf *c = &b->c; rs = b->r; reset_track(); size_t il = pow2up(c->item), n = rn(3) ? 1 + rn(12) : 1 + rn(400); char *q[512];
	struct rseq_mempool *p = mk(c); if (!p) _exit(7);
	if (c->maxr && n > c->maxr * cap(c, il)) n = c->maxr * cap(c, il);
	for (size_t i = 0; i < n; i++) { q[i] = rn(2) ? L(rseq_mempool_percpu_zmalloc(p)) : L(rseq_mempool_percpu_malloc(p)); if (!q[i]) _exit(7); memset(q[i], 0x77, il); }
	size_t nf = 1 + rn(n), k;
	if (b->what == 3) nf = n;
	for (size_t i = 0; i < nf; i++) LV(librseq_mempool_percpu_free(q[i], c->stride));
	k = rn(nf);
	size_t w = rn(il); int cpu = rn(c->ncpu);
	unsigned char *x = rseq_percpu_ptr((unsigned char *) q[k], cpu, c->stride) + w;
	switch (b->what) {
	case 0: LV(librseq_mempool_percpu_free(q[k], c->stride)); break;			/* double free */
	case 1: *x ^= 1 + rn(255); for (size_t i = 0; i < nf; i++) if (!L(rseq_mempool_percpu_malloc(p))) _exit(7); break;	/* use after free, seen at reallocation */
	case 2: if (nf == n) _exit(8); LV(rseq_mempool_destroy(p)); break;			/* leak at destroy */
	case 3: *x ^= 1 + rn(255); LV(rseq_mempool_destroy(p)); break;				/* use after free, seen at destroy */
	case 4: /* correct use: everything freed or nothing touched: must not abort */
		for (size_t i = nf; i < n; i++) LV(librseq_mempool_percpu_free(q[i], c->stride));
		for (size_t i = 0; i < nf; i++) { q[i] = L(rseq_mempool_percpu_zmalloc(p)); if (!q[i]) _exit(7); memset(rseq_percpu_ptr(q[i], cpu, c->stride), rn(256), il); }
		for (size_t i = 0; i < nf; i++) LV(librseq_mempool_percpu_free(q[i], c->stride));
		if (L(rseq_mempool_destroy(p))) _exit(9);
		break;
	}
	_exit(5);
}
static void do_robust(long it)
{
	static const char *nm[] = { "double free not reported", "write after free not reported at reallocation", "leaked item not reported at destroy", "write after free not reported at destroy", "correct history aborted" };
	for (case_no = 0; case_no < it; case_no++) {
		struct rob b; gen(&b.c); b.c.robust = 1; b.what = rn(5); b.r = rnd() | 1;
		if (pow2up(b.c.item) > b.c.stride) continue;
		int r = in_child(robust_case, &b);
		if (r == 7 || r == 8) continue;
		if (b.what == 4) CK("C09", r == 5, "%s: %s (status %d)", cs(&b.c), nm[4], r);
		else CK("C09", r == -SIGABRT, "%s: %s (status %d)", cs(&b.c), nm[b.what], r);
	}
}

/* ---------------------------------------------------------------- creation */
static void do_create(long it)
{
	for (case_no = 0; case_no < it; case_no++) {
		struct conf c; gen(&c); reset_track(); nir = 0; init_fail_at = 0; int weird = rn(9), expect = 1; size_t item = c.item;
		if (weird == 0) { c.stride = 1UL << rn(12); expect = 0; }				/* below a page */
		if (weird == 1) { c.stride = c.stride + 1 + rn(c.stride - 1); expect = 0; }		/* not a power of two */
		if (weird == 2) { c.item = c.stride + 1 + rn(c.stride); expect = 0; }
		if (weird == 3) { c.item = 0; }
		if (weird == 4 && !c.global) { c.ncpu = -1 - (int) rn(5); expect = 0; }
		if (weird == 5) { c.item = (1UL << 63) + 1 + rn(1000); expect = 0; }
		if (weird == 6 && !c.global) { c.stride = 1UL << (33 + rn(30)); c.ncpu = INT_MAX - rn(1000); c.item = 8; expect = 0; c.robust = 0; }
		if (pow2up(c.item <= (1UL << 62) ? c.item : 8) > c.stride) expect = 0;
		(void) item;
		struct rseq_mempool *p = mk(&c); int e = errno; size_t il = pow2up(c.item <= (1UL << 62) ? c.item : 8);
		CK("C10", !!p == expect, "%s: creation %s", cs(&c), p ? "accepted" : "refused");
		CK("C11", !foreign_fixed && !bad_unmap, "%s: creation replaced memory it does not own", cs(&c));
		CK("C10", !foreign_fixed && !bad_unmap, "%s: creation replaced memory it does not own", cs(&c));
		if (!p) { CK("C10", e == EINVAL || (weird == 6 && e == ENOMEM), "%s: errno %d", cs(&c), e); CK("C11", !niv && !nfd && !nhp, "%s: failed creation leaks", cs(&c)); continue; }
		if (!expect) return;
		int m = rseq_mempool_get_max_nr_cpus(p);
		CK("C10", c.global ? m == -1 : m == c.ncpu, "%s: max_nr_cpus reported %d", cs(&c), m);
		char *q[3]; int n = 0; for (; n < 3; n++) if (!(q[n] = L(rseq_mempool_percpu_zmalloc(p)))) break;
		CK("C10", n, "no item"); if (!n) continue;
		char *base = (char *) ((uintptr_t) q[0] & ~(c.stride - 1));
		for (int i = 0; i < n; i++) CK("C10", !((uintptr_t) q[i] & (il - 1)), "%s: item not aligned on the rounded size", cs(&c));
		if (c.init) {
			int per = c.global ? 1 : c.ncpu;
			CK("C10", nir && !(nir % per), "%s: %d init callbacks", cs(&c), nir);
			for (int i = 0; i < nir; i++) {
				CK("C10", ir[i].len == c.stride && ir[i].cpu == (c.global ? -1 : i % per), "%s: init callback %d: len %zu cpu %d", cs(&c), i, ir[i].len, ir[i].cpu);
				CK("C10", (char *) ir[i].addr == (char *) ir[i - i % per].addr + (size_t) (i % per) * c.stride, "%s: init callback %d address", cs(&c), i);
			}
			CK("C10", ir[0].addr == base, "%s: init callback not given the range handed out", cs(&c));
		}
		for (int i = 0; i < n; i++) LV(librseq_mempool_percpu_free(q[i], c.stride));
		LV(rseq_mempool_destroy(p));
	}
	/* a failing init callback on any CPU refuses the creation */
	for (int k = 0; k < 12; k++) {
		struct conf c; gen(&c); c.item = 8 << rn(4); c.init = 1; int per = c.global ? 1 : c.ncpu;
		for (int f = 1; f <= per; f++) { reset_track(); nir = 0; init_fail_at = f; struct rseq_mempool *p = mk(&c); init_fail_at = 0;
			CK("C10", !p, "%s: creation accepted although init callback %d failed", cs(&c), f); if (p) return; }
	}
	/* limits are recorded in full: none of these is reached by three ranges */
	static const unsigned long lim[] = { 3, (1UL << 8) + 1, (1UL << 16) + 1, (1UL << 31) + 1, (1UL << 32) + 1, (1UL << 32), ~0UL, 1UL << 63 };
	for (unsigned k = 0; k < sizeof lim / sizeof lim[0]; k++) {
		struct conf c; memset(&c, 0, sizeof c); c.item = 256; c.stride = 4096; c.ncpu = 2; c.maxr = lim[k]; reset_track(); struct rseq_mempool *q = mk(&c); CK("C10", q, "creation refused with range limit %lx", lim[k]); if (!q) return;
		for (int i = 0; i < 48; i++) { void *it2 = L(rseq_mempool_percpu_malloc(q)); CK("C10", it2, "range limit %lx: allocation %d of 256 bytes with stride 4096 refused", lim[k], i); if (!it2) return; }
		LV(rseq_mempool_destroy(q));
	}
	/* defaults: no attributes */
	reset_track(); struct rseq_mempool *p = L(rseq_mempool_create("d", 24, NULL));
	CK("C10", p, "default creation refused");
	if (p) { CK("C10", rseq_mempool_get_max_nr_cpus(p) >= 1, "default cpus"); LV(rseq_mempool_destroy(p)); }
	CK("C10", rseq_mempool_get_max_nr_cpus(NULL) == -1 && errno == EINVAL, "max_nr_cpus of NULL");
	int bad = 0; errno = 0;
	bad |= rseq_mempool_attr_set_init(NULL, init_cb, NULL) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_robust(NULL) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_percpu(NULL, 4096, 1) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_global(NULL, 4096) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_max_nr_ranges(NULL, 1) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_poison(NULL, 1) != -1 || errno != EINVAL; errno = 0;
	bad |= rseq_mempool_attr_set_populate_policy(NULL, 0) != -1 || errno != EINVAL;
	CK("C10", !bad, "attribute setter accepts NULL");
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) (2 + rn(100)));
	p = rseq_mempool_create("x", 8, a); CK("C10", !p && errno == EINVAL, "unknown populate policy accepted"); rseq_mempool_attr_destroy(a);
}

/* ---------------------------------------------------------------- lifecycle under faults */
static void do_life(long it)
{
	for (case_no = 0; case_no < it; case_no++) {
		struct conf c; gen(&c); c.item = 8 + rn(c.stride / 2); size_t il = pow2up(c.item); long total = 1;
		uint64_t save = rnd() | 1; struct conf c0 = c;
		for (long f = 0; f <= total + 1; f++) {
			c = c0; rs = save; reset_track(); nir = 0; init_fail_at = 0;
			if (f <= total) fail_at = f; else if (c.init) init_fail_at = 1 + rn(c.ncpu); else break;
			struct rseq_mempool *p = mk(&c); int e = errno;
			if (f == 0) total = calls;
			CK("C11", !foreign_fixed && !bad_unmap && !bad_close && !bad_free, "%s: fault %ld: touched a resource it does not own", cs(&c), f);
			if (!p) {
				CK("C11", f, "%s: creation refused without a fault", cs(&c));
				CK("C11", e == ENOMEM, "%s: fault %ld: errno %d", cs(&c), f, e);
				CK("C11", !niv && !nfd && !nhp, "%s: failed creation (fault at call %ld) leaves %d mappings, %d fds, %d heap blocks", cs(&c), f, niv, nfd, nhp);
				if (!f) return; continue;
			}
			CK("C11", !fault_hit && !init_fail_at, "%s: fault at call %ld ignored by creation", cs(&c), f);
			CK("C11", !nfd, "%s: %d file descriptors stay open", cs(&c), nfd);
			fail_at = 0; init_fail_at = 0;
			/* grow with a fault in the middle of a later range creation */
			size_t per = cap(&c, il), n = 0; static char *q[70000];
			if (per * 3 < 2000) {
				size_t want = per * (c.maxr && c.maxr < 3 ? c.maxr : 3);
				for (; n < want; n++) {
					int inj = n && n % per == 0; int iv0 = niv, hp0 = nhp; uintptr_t tot = 0, tot2 = 0; for (int i = 0; i < iv0; i++) tot += iv[i].e - iv[i].a;
					if (inj) { calls = 0; fault_hit = 0; fail_at = 1 + rn(40); }
					q[n] = L(rseq_mempool_percpu_malloc(p)); int hit = fault_hit; fail_at = 0; fault_hit = 0;
					if (!q[n]) {
						for (int i = 0; i < niv; i++) tot2 += iv[i].e - iv[i].a;
						CK("C11", hit, "%s: allocation %zu failed without a fault", cs(&c), n);
						CK("C11", nhp == hp0 && !nfd && tot2 == tot, "%s: failed range creation leaks", cs(&c)); if (!hit) return;
						n--; continue; }
					CK("C11", !hit, "%s: fault ignored", cs(&c));
				}
				for (size_t i = 0; i < n; i++) LV(librseq_mempool_percpu_free(q[i], c.stride));
			}
			if (!rn(3)) {
				munmap_fail = 1 + rn(2); int had = niv; int r = L(rseq_mempool_destroy(p)); int hit = !munmap_fail; munmap_fail = 0;
				if (hit) { CK("C11", r == -1, "%s: destroy returns %d although unmapping failed", cs(&c), r);
					CK("C11", niv && niv <= had, "state after partial destroy"); r = L(rseq_mempool_destroy(p)); }
				CK("C11", r == 0, "%s: destroy returns %d", cs(&c), r);
			} else CK("C11", L(rseq_mempool_destroy(p)) == 0, "%s: destroy fails", cs(&c));
			CK("C11", !niv && !nfd && !nhp && !bad_unmap && !bad_free && !bad_close, "%s: after destroy: %d mappings, %d fds, %d heap blocks left; %d bad unmaps", cs(&c), niv, nfd, nhp, bad_unmap);
		}
		CK("C11", rseq_mempool_destroy(NULL) == 0, "destroy(NULL)");
	}
}

/* ---------------------------------------------------------------- fork */
static sigjmp_buf jb; static void segv(int s) { siglongjmp(jb, s); }
static int readable(volatile char *p) { if (sigsetjmp(jb, 1)) return 0; (void) *p; return 1; }
static void do_fork(long it)
{
	for (case_no = 0; case_no < it; case_no++) {
		struct conf c; gen(&c); if (pow2up(c.item) > c.stride) continue; if (c.global) { c.global = 0; } c.cow = rn(4) != 0; c.maxr = 0; reset_track(); nl = 0; size_t il = pow2up(c.item); static unsigned char buf[1 << 17];
		struct rseq_mempool *p = mk(&c); if (!p) continue;
		size_t n = 1 + rn(cap(&c, il) * 3 > 40 ? 40 : cap(&c, il) * 3);
		for (size_t i = 0; i < n; i++) {
			for (size_t k = 0; k < il; k++) buf[k] = pat(i, 1, k);
			char *q = L(rseq_mempool_percpu_malloc_init(p, buf, il)); if (!q) break; lv[nl].p = q; lv[nl].tag = i; lv[nl].undef = rn(2);
			if (!lv[nl].undef) paint(&c, &lv[nl], il); nl++;
		}
		int extra = rn(nl + 1); for (int i = 0; i < extra; i++) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); }
		int pfd[2]; if (pipe(pfd)) _exit(3);
		fflush(stdout); pid_t pid = fork();
		if (!pid) {
			int bad = 0; signal(SIGSEGV, segv); signal(SIGBUS, segv); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); alarm(20);
			/* child: per-CPU memory of a COW_INIT pool is not shared: either not there, or private */
			for (int i = 0; i < nl; i++) for (int cpu = 0; cpu < c.ncpu + (c.cow ? 1 : 0); cpu++) {
				volatile char *q = lv[i].p + (size_t) cpu * c.stride;
				if (readable(q)) for (size_t k = 0; k < il; k++) q[k] = 0x5a;
				else if (!c.cow) bad = 1;
			}
			/* child: what it maps itself where the pool was not inherited stays its own */
			static char *own[400]; int no = 0;
			if (c.cow && c.stride < (1UL << 20)) for (int i = 0; i < nl; i++) for (int cpu = 0; cpu < c.ncpu + 1; cpu++) {
				char *q = (char *) ((uintptr_t) (lv[i].p + (size_t) cpu * c.stride) & ~4095UL);
				if (no < 400 && !readable(q) && (char *) syscall(SYS_mmap, q, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000 /* MAP_FIXED_NOREPLACE */, -1, 0) == q) { memset(q, 0x77, 4096); own[no++] = q; }
			}
			if (nl && !c.cow) while (nl) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); }
			niv = niv; int r = L(rseq_mempool_destroy(p));
			for (int i = 0; i < no; i++) { if (!readable(own[i])) _exit(14); for (int k = 0; k < 4096; k++) if (own[i][k] != 0x77) _exit(15); }
			_exit(r ? 12 : bad ? 11 : nhp ? 13 : 10);
		}
		int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { } close(pfd[0]); close(pfd[1]);
		CK("C12", WIFEXITED(st) && (WEXITSTATUS(st) == 10 || (WEXITSTATUS(st) == 11 && c.cow)), "%s: child status %#x", cs(&c), st);
		for (int i = 0; i < nl; i++) for (int cpu = 0; cpu < c.ncpu; cpu++) {
			unsigned char *q = rseq_percpu_ptr((unsigned char *) lv[i].p, cpu, c.stride);
			for (size_t k = 0; k < il; k++) CK("C12", q[k] == (lv[i].undef ? pat(lv[i].tag, 1, k) : pat(lv[i].tag, cpu, k)), "%s: the child's activity changed byte %zu of CPU %d in the parent", cs(&c), k, cpu);
		}
		/* the parent's pool still works, with an intact init copy */
		for (size_t k = 0; k < il; k++) buf[k] = pat(7, 2, k);
		char *q = L(rseq_mempool_percpu_malloc_init(p, buf, il)); CK("C12", q, "parent cannot allocate after fork");
		if (q) { for (int cpu = 0; cpu < c.ncpu; cpu++) CK("C12", !memcmp(rseq_percpu_ptr(q, cpu, c.stride), buf, il), "parent allocation content after fork"); LV(librseq_mempool_percpu_free(q, c.stride)); }
		while (nl) { nl--; LV(librseq_mempool_percpu_free(lv[nl].p, c.stride)); }
		CK("C12", L(rseq_mempool_destroy(p)) == 0 && !niv && !nhp, "%s: parent destroy after the child's", cs(&c));
	}
}

/* ---------------------------------------------------------------- sets */
static void do_set(long it)
{
	for (case_no = 0; case_no < it; case_no++) {
		reset_track(); struct rseq_mempool_set *s = L(rseq_mempool_set_create()); struct rseq_mempool *po[64]; struct conf c; size_t stride = rn(2) ? 65536 : 4096; int have[20] = { 0 };
		CK("C14", s, "set creation"); if (!s) return; int n = 1 + rn(6);
		int ncpu = 1 + rn(3), cow = rn(2);
		for (int i = 0; i < n; i++) {
			memset(&c, 0, sizeof c); c.stride = stride; c.ncpu = ncpu; c.cow = cow; c.maxr = 1; c.item = 1 + rn(1UL << (3 + rn(stride == 4096 ? 10 : 12))); int o = __builtin_ctzl(pow2up(c.item));
			struct rseq_mempool *p = mk(&c); if (!p) return;
			int r = L(rseq_mempool_set_add_pool(s, p)), e = errno;
			if (have[o]) { CK("C14", r == -1 && e == EBUSY, "second pool of order %d accepted (ret %d errno %d)", o, r, e); if (r) LV(rseq_mempool_destroy(p)); continue; }
			CK("C14", r == 0, "add_pool fails"); have[o] = 1; po[o] = p;
		}
		for (int k = 0; k < 40; k++) {
			size_t len = rn(5) ? 1 + rn(1UL << (2 + rn(13))) : (1UL << rn(15)) + rn(2); if (!rn(12)) len = 0; int o = -1; for (int i = 3; i < 20; i++) if (have[i] && (1UL << i) >= len) { o = i; break; }
			static unsigned char buf[1 << 17]; for (size_t i = 0; i < len; i++) buf[i] = pat(k, 3, i);
			int kind = rn(3); char *q = kind == 0 ? L(rseq_mempool_set_percpu_malloc(s, len)) : kind == 1 ? L(rseq_mempool_set_percpu_zmalloc(s, len)) : L(rseq_mempool_set_percpu_malloc_init(s, buf, len)); int e = errno;
			if (o < 0) { CK("C14", !q && e == ENOMEM, "request of %zu bytes with no large enough pool: %p errno %d", len, q, e); continue; }
			if (!q) {
				/* only if every pool that fits is exhausted */
				CK("C14", e == ENOMEM, "errno %d", e);
				for (int i = o; i < 20; i++) if (have[i]) { char *t = L(rseq_mempool_percpu_malloc(po[i])); CK("C14", !t, "set returned NULL for %zu although the pool of order %d has free items", len, i); }
				continue; }
			/* served by the smallest pool that has room */
			int served = -1; struct rseq_mempool *sp = NULL;
			size_t al = (uintptr_t) q; (void) al;
			uintptr_t rng = (uintptr_t) q & ~(stride - 1); (void) rng; (void) served; (void) sp;
			static struct { uintptr_t b; int o; } known[64]; static int nk; static long kc = -1; if (kc != case_no) { nk = 0; kc = case_no; }
			int found = -1; for (int i = 0; i < nk; i++) if (known[i].b == rng) found = known[i].o;
			if (found < 0) { /* identify the pool by allocating from each */
				for (int i = 3; i < 20; i++) if (have[i]) { char *t = L(rseq_mempool_percpu_malloc(po[i])); if (t) { known[nk].b = (uintptr_t) t & ~(stride - 1); known[nk++].o = i; LV(librseq_mempool_percpu_free(t, stride)); } }
				for (int i = 0; i < nk; i++) if (known[i].b == rng) found = known[i].o; }
			if (found >= 0) {
				CK("C14", (1UL << found) >= len, "request of %zu bytes served by a pool of %lu-byte items", len, 1UL << found);
				for (int i = o; i < found; i++) if (have[i]) { char *t = L(rseq_mempool_percpu_malloc(po[i])); CK("C14", !t, "request of %zu served by order %d although order %d has room", len, found, i); }
			}
			for (int cpu = 0; cpu < ncpu; cpu++) { unsigned char *x = rseq_percpu_ptr((unsigned char *) q, cpu, stride);
				if (kind == 1) for (size_t i = 0; i < len; i++) CK("C14", !x[i], "zmalloc through a set not zeroed");
				if (kind == 2) CK("C14", !memcmp(x, buf, len), "malloc_init of %zu bytes through a set: CPU %d does not hold the initial content", len, cpu); }
		}
		if (!rn(3)) { munmap_fail = 1 + rn(n); int r = L(rseq_mempool_set_destroy(s)); int hit = !munmap_fail; munmap_fail = 0;
			CK("C14", !hit == !r, "set destroy returned %d, a pool failed to unmap: %d", r, hit); if (!r) goto done; }
		CK("C14", L(rseq_mempool_set_destroy(s)) == 0, "set destroy fails");
	done:
		CK("C14", !bad_unmap && !bad_free, "set destroy releases something twice (%d unmaps, %d frees)", bad_unmap, bad_free);
		CK("C14", !niv && !nhp && !nfd, "set destroy leaves %d mappings, %d heap blocks", niv, nhp);
	}
}

/* ---------------------------------------------------------------- threads */
static struct rseq_mempool *tp; static struct conf tc; static volatile int tstop, tbad; static long titer;
static void *thr(void *a)
{
	uint64_t r = 88172645463325252ULL + (uintptr_t) a * 7919; char *q[64]; int n = 0; uint64_t me = (uintptr_t) a + 1;
	for (long i = 0; i < titer && !tbad; i++) {
		r ^= r << 13; r ^= r >> 7; r ^= r << 17;
		if ((r & 1) && n < 64) { char *x = (r & 2) ? rseq_mempool_percpu_malloc(tp) : rseq_mempool_percpu_zmalloc(tp); if (x) { for (int c = 0; c < tc.ncpu; c++) *(volatile uint64_t *) (x + c * tc.stride) = me ^ (uintptr_t) x; q[n++] = x; } }
		else if (n) { int k = (r >> 8) % n; char *x = q[k]; for (int c = 0; c < tc.ncpu; c++) if (*(volatile uint64_t *) (x + c * tc.stride) != (me ^ (uintptr_t) x)) tbad = 1; q[k] = q[--n]; librseq_mempool_percpu_free(x, tc.stride); }
	}
	while (n) librseq_mempool_percpu_free(q[--n], tc.stride);
	return NULL;
}
static void thread_case(void *a)
{
	rs = *(uint64_t *) a; gen(&tc); tc.item = 8 << rn(3); tc.stride = 4096; tc.maxr = 0; tc.init = 0; tp = mk(&tc); if (!tp) _exit(0); jitter = rn(2); titer = jitter ? 300 : 20000;
	pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, thr, (void *) i);
	for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	if (tbad) _exit(21);
	rseq_mempool_destroy(tp); _exit(0);
}
/* threads compete for a bounded pool: exactly its capacity is handed out */
static char *cq[4][4096]; static int cqn[4]; static pthread_barrier_t bar;
static void *capthr(void *a) { long i = (long) a; pthread_barrier_wait(&bar); for (;;) { char *x = rseq_mempool_percpu_malloc(tp); if (!x) return NULL; cq[i][cqn[i]++] = x; if (cqn[i] == 4096) return NULL; } }
static void *freethr(void *a) { long i = (long) a; pthread_barrier_wait(&bar); for (int k = 0; k < cqn[i]; k++) librseq_mempool_percpu_free(cq[i][k], tc.stride); return NULL; }
static void cap_case(void *a)
{
	rs = *(uint64_t *) a; gen(&tc); tc.stride = 4096; tc.item = 64 << rn(5); tc.maxr = 1 + rn(3); tc.init = 0; tp = mk(&tc); if (!tp) _exit(0); jitter = 1; size_t total = tc.maxr * cap(&tc, pow2up(tc.item)), il = pow2up(tc.item);
	for (int round = 0; round < 3; round++) {
		pthread_t t[4]; pthread_barrier_init(&bar, NULL, 4); memset(cqn, 0, sizeof cqn);
		for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, capthr, (void *) i); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
		size_t n = 0; for (int i = 0; i < 4; i++) n += cqn[i]; if (n != total) _exit(22);
		static char *all[16384]; n = 0; for (int i = 0; i < 4; i++) for (int k = 0; k < cqn[i]; k++) { for (size_t m = 0; m < n; m++) if (all[m] < cq[i][k] + il && cq[i][k] < all[m] + il) _exit(23); all[n++] = cq[i][k]; }
		for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, freethr, (void *) i); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	}
	if (rseq_mempool_destroy(tp)) _exit(24);
	_exit(0);
}
/* two threads free the same item of a robust pool: one of them is accused */
static void *dfthr(void *a) { pthread_barrier_wait(&bar); librseq_mempool_percpu_free(a, tc.stride); return NULL; }
static void df_case(void *a)
{
	rs = *(uint64_t *) a; gen(&tc); tc.stride = 4096; tc.item = 8 << rn(5); tc.robust = 1; tc.init = 0; tc.maxr = 0; tp = mk(&tc); if (!tp) _exit(7); jitter = 1;
	char *q = rseq_mempool_percpu_malloc(tp), *z = rseq_mempool_percpu_malloc(tp); if (!q || !z) _exit(7);
	pthread_t t[2]; pthread_barrier_init(&bar, NULL, 2); for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, dfthr, q); for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
	_exit(5);
}
static struct rseq_mempool_set *ts; static struct rseq_mempool *tsp[4]; static int tsr[4], tse[4];
static void *addthr(void *a) { long i = (long) a; pthread_barrier_wait(&bar); errno = 0; tsr[i] = rseq_mempool_set_add_pool(ts, tsp[i]); tse[i] = errno; return NULL; }
static void *setthr(void *a) { long i = (long) a; pthread_barrier_wait(&bar); for (;;) { char *x = rseq_mempool_set_percpu_malloc(ts, 8); if (!x) return NULL; cq[i][cqn[i]++] = x; if (cqn[i] == 4096) return NULL; } }
static void set_case(void *a)
{
	rs = *(uint64_t *) a; gen(&tc); tc.stride = 4096; tc.item = 64 << rn(5); tc.maxr = 1; tc.init = tc.robust = 0; jitter = 0; ts = rseq_mempool_set_create(); if (!ts) _exit(0);
	for (int i = 0; i < 4; i++) if (!(tsp[i] = mk(&tc))) _exit(0);
	jitter = 1; pthread_t t[4]; pthread_barrier_init(&bar, NULL, 4);
	for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, addthr, (void *) i); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	int ok = 0; for (int i = 0; i < 4; i++) if (!tsr[i]) ok++; else if (tse[i] != EBUSY) _exit(26);
	if (ok != 1) _exit(25);
	struct conf c2 = tc; c2.item = pow2up(tc.item) / 2; if (rn(2) && c2.item >= 8) { struct rseq_mempool *p = mk(&c2); if (!p || rseq_mempool_set_add_pool(ts, p)) _exit(0); } else c2.item = 0;
	size_t total = cap(&tc, pow2up(tc.item)) + (c2.item ? cap(&c2, c2.item) : 0);
	memset(cqn, 0, sizeof cqn); pthread_barrier_destroy(&bar); pthread_barrier_init(&bar, NULL, 4);
	for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, setthr, (void *) i); for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	size_t n = 0; for (int i = 0; i < 4; i++) n += cqn[i]; if (n != total) _exit(27);
	_exit(0);
}
static void do_threads(long it)
{
	int want = !strcmp(prop, "C14") ? 3 : !strcmp(prop, "C08") ? 1 : !strcmp(prop, "C09") ? 2 : 0;
	for (case_no = 0; case_no < it; case_no++) { uint64_t s = rnd() | 1;
		int k = rn(2) ? want : want == 2 || want == 3 ? want : (int) rn(2);
		int r = in_child(k == 0 ? thread_case : k == 1 ? cap_case : k == 2 ? df_case : set_case, &s);
		if (r == 7) continue;
		if (k == 2) { CK("C09", r == -SIGABRT, "two threads freeing the same item: nobody is accused (status %d)", r); continue; }
		if (k == 3) { CK("C14", r != 25, "adding pools of the same size from several threads: not exactly one is accepted"); CK("C14", r != 26, "refused pool: wrong errno");
			CK("C14", r != 27, "threads allocating from a set do not get exactly its capacity"); CK("C14", r == 0, "concurrent use of a set ended with status %d", r); continue; }
		if (k == 1) { CK("C08", r == 0, "threads competing for a bounded pool: %s (status %d)", r == 22 ? "not exactly its capacity is handed out" : r == 23 ? "an item is handed out twice" : "the allocator broke", r); CK("C05", r != 23, "an item was handed out to two threads"); continue; }
		CK("C05", r == 0, "concurrent allocation: an item was shared by two threads or the allocator broke (status %d)", r); CK("C07", r != 21, "live item overwritten"); CK("C09", r != -SIGABRT, "correct concurrent use aborted"); }
}

int main(int argc, char **argv)
{
	if (argc < 5) return 2;
	prop = argv[1]; mode = argv[2]; seed0 = strtoull(argv[3], 0, 10); long it = atol(argv[4]);
	rs = seed0 * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; i++) rnd();
	rseq_get_max_nr_cpus();	/* its files are not the pool's */
	if (!strcmp(mode, "history") || !strcmp(mode, "create")) addresses();
	if (!strcmp(mode, "history")) {
		for (case_no = 0; case_no < it; case_no++) { int steps = 20 + rn(300); uint64_t s = rnd() | 1; uint64_t keep = rs; rs = s; int r = in_child(run_history, &steps); rs = keep;
			if (r == 1) return 1;
			if (r) { fail("C09", "a correct history ended with status %d (history seed %llu)", r, (unsigned long long) s); fail("C05", "a correct history ended with status %d", r); fail("C07", "a correct history ended with status %d", r); } }
	} else if (!strcmp(mode, "robust")) do_robust(it);
	else if (!strcmp(mode, "create")) do_create(it);
	else if (!strcmp(mode, "life")) do_life(it);
	else if (!strcmp(mode, "fork")) do_fork(it);
	else if (!strcmp(mode, "set")) do_set(it);
	else if (!strcmp(mode, "threads")) do_threads(it);
	else return 2;
	return failed;
}
