/* Concrete battery for the per-CPU operations.  args: <prop> <mode> <seed> <iters>; modes: ops, abort */
#include <rseq/rseq.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sched.h>
#include <ucontext.h>
#include <sys/mman.h>

static const char *prop, *mode; static unsigned long seed; static long cases; static int nfail;
static unsigned long rnd(void) { seed = seed * 6364136223846793005UL + 1442695040888963407UL; unsigned long x = seed; x ^= x >> 33; x *= 0xff51afd7ed558ccdUL; x ^= x >> 29; return x; }
#define R(n) ((long)(rnd() % (unsigned long)(n)))
static int is(const char *p) { return !strcmp(prop, p) || !strcmp(prop, "all"); }
#define FAIL(p, ...) do { if (is(p)) { printf("FAIL %s ", p); printf(__VA_ARGS__); printf("\n"); fflush(stdout); if (++nfail > 20) exit(1); } } while (0)

#define AR 1024
struct args { intptr_t *v, *v2, *load, *dummy; intptr_t expect, expect2, newv, newv2, count, off; char *dst, *src; size_t len; int cpu; char *base; intptr_t x; intptr_t c1, c2; char loc[32]; };
enum { O_CBNE, O_ADD, O_CBEQ, O_DEREF, O_CBNE2, O_STST, O_MEMCPY, NOPS };
static const char *opn[] = { "load_cbne_store", "load_add_store", "load_cbeq_store_add_load_store", "load_add_load_load_add_store", "load_cbne_load_cbne_store", "load_cbne_store_store", "load_cbne_memcpy_store" };
enum { X_PLAIN, X_BASE, X_EQ, X_LIVE, X_LOCAL, NCTX };
static const char *ctxn[] = { "separate operands", "operands in one structure", "operands with equal values", "many live registers", "local variables" };

/* shift the descriptor section: a descriptor is only aligned on 32 bytes if its own directive says so */
__asm__(".pushsection __rseq_cs, \"aw\"\n.balign 32\n.quad 0, 0\n.popsection\n");
/* operand lists: V v, E expect ... for each context */
#define ARGS_CBNE(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, EX, NV
#define ARGS_ADD(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, CN
#define ARGS_CBEQ(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, EX, OF, LD
#define ARGS_DEREF(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, OF, CN
#define ARGS_CBNE2(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, EX, V2, EX2, NV
#define ARGS_STST(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, EX, V2, NV2, NV
#define ARGS_MEMCPY(V,V2,LD,EX,EX2,NV,NV2,CN,OF,DS,SR,LN) V, EX, DS, SR, LN, NV
#define NI __attribute__((noinline, noclone, aligned(64)))
#define LIVE 12
static volatile long lv[LIVE];
#define ONE(OP, fn, MO, mo, MD, md) \
NI int w0_##OP##_##MO##_##MD(struct args *a) { \
	return rseq_##fn##__ptr(mo, md, ARGS_##OP(a->v, a->v2, a->load, a->expect, a->expect2, a->newv, a->newv2, a->count, a->off, a->dst, a->src, a->len), a->cpu); } \
NI int w1_##OP##_##MO##_##MD(struct args *a) { char *b = a->base; \
	return rseq_##fn##__ptr(mo, md, ARGS_##OP((intptr_t *)(b + 128), (intptr_t *)(b + 136), (intptr_t *)(b + 144), a->expect, a->expect2, a->newv, a->newv2, a->count, a->off, b, b + 512, a->len), a->cpu); } \
NI int w2_##OP##_##MO##_##MD(struct args *a) { intptr_t x = a->x; int cpu = a->cpu; \
	return rseq_##fn##__ptr(mo, md, ARGS_##OP(a->v, a->v2, a->load, x, x, x, x, x, x, a->dst, a->src, (size_t) x), cpu); } \
NI int w3_##OP##_##MO##_##MD(struct args *a) { \
	long k0 = lv[0], k1 = lv[1], k2 = lv[2], k3 = lv[3], k4 = lv[4], k5 = lv[5], k6 = lv[6], k7 = lv[7], k8 = lv[8], k9 = lv[9], k10 = lv[10], k11 = lv[11]; \
	int r = rseq_##fn##__ptr(mo, md, ARGS_##OP(a->v, a->v2, a->load, a->expect, a->expect2, a->newv, a->newv2, a->count, a->off, a->dst, a->src, a->len), a->cpu); \
	a->c1 = k0 ^ (k1 << 1) ^ (k2 << 2) ^ (k3 << 3) ^ (k4 << 4) ^ (k5 << 5) ^ (k6 << 6) ^ (k7 << 7) ^ (k8 << 8) ^ (k9 << 9) ^ (k10 << 10) ^ (k11 << 11); return r; } \
NI int w4_##OP##_##MO##_##MD(struct args *a) { intptr_t l1 = a->c1, l2 = a->c2; char d[32]; memset(d, 7, sizeof d); intptr_t w1 = l1 + 1; \
	int r = rseq_##fn##__ptr(mo, md, ARGS_##OP(&l1, &l2, &l2, a->expect, a->expect2, a->newv, a->newv2, a->count, a->off, d, a->src, a->len), a->cpu); \
	a->c1 = l1; a->c2 = l2; a->x = w1; memcpy(a->loc, d, 32); return r; }
#define ALLMODES(OP, fn, MO, mo) ONE(OP, fn, MO, mo, CPU, RSEQ_PERCPU_CPU_ID) ONE(OP, fn, MO, mo, CID, RSEQ_PERCPU_MM_CID)
ALLMODES(CBNE, load_cbne_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(ADD, load_add_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(CBEQ, load_cbeq_store_add_load_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(DEREF, load_add_load_load_add_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(CBNE2, load_cbne_load_cbne_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(STST, load_cbne_store_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(STST, load_cbne_store_store, REL, RSEQ_MO_RELEASE)
ALLMODES(MEMCPY, load_cbne_memcpy_store, RLX, RSEQ_MO_RELAXED)
ALLMODES(MEMCPY, load_cbne_memcpy_store, REL, RSEQ_MO_RELEASE)
/* ordering and mode chosen at run time */
NI int dyn(int op, int mo_, int md_, struct args *a) { enum rseq_mo mo = (enum rseq_mo) mo_; enum rseq_percpu_mode md = (enum rseq_percpu_mode) md_;
	switch (op) {
#define D(OP, fn) case O_##OP: return rseq_##fn##__ptr(mo, md, ARGS_##OP(a->v, a->v2, a->load, a->expect, a->expect2, a->newv, a->newv2, a->count, a->off, a->dst, a->src, a->len), a->cpu);
	D(CBNE, load_cbne_store) D(ADD, load_add_store) D(CBEQ, load_cbeq_store_add_load_store) D(DEREF, load_add_load_load_add_store)
	D(CBNE2, load_cbne_load_cbne_store) D(STST, load_cbne_store_store) D(MEMCPY, load_cbne_memcpy_store)
	} return -2; }

static struct fn { int (*f[NCTX])(struct args *); int op, rel, cid; } fns[] = {
#define F1(OP, MO, MD, r, c) { { w0_##OP##_##MO##_##MD, w1_##OP##_##MO##_##MD, w2_##OP##_##MO##_##MD, w3_##OP##_##MO##_##MD, w4_##OP##_##MO##_##MD }, O_##OP, r, c },
#define F2(OP, MO, r) F1(OP, MO, CPU, r, 0) F1(OP, MO, CID, r, 1)
	F2(CBNE, RLX, 0) F2(ADD, RLX, 0) F2(CBEQ, RLX, 0) F2(DEREF, RLX, 0) F2(CBNE2, RLX, 0) F2(STST, RLX, 0) F2(STST, REL, 1) F2(MEMCPY, RLX, 0) F2(MEMCPY, REL, 1)
};
#define NFN ((int)(sizeof fns / sizeof *fns))

static char *mem; static char ini[AR], snap[AR], alt[AR], ref[AR], prp[AR]; /* arena, initial, expected after success, with preparatory stores */
static char prpmask[AR];
static intptr_t ld(const char *m, intptr_t *p) { intptr_t x; memcpy(&x, m + ((char *)p - mem), 8); return x; }
static void stw(char *m, intptr_t *p, intptr_t x) { memcpy(m + ((char *)p - mem), &x, 8); }
/* documented pseudo-code executed on ref; returns documented return value */
static int spec(int op, struct args *a)
{
	memcpy(ref, ini, AR); memcpy(prp, ini, AR); memset(prpmask, 0, AR);
	switch (op) {
	case O_CBNE: if (ld(ref, a->v) != a->expect) return 1; stw(ref, a->v, a->newv); return 0;
	case O_ADD: stw(ref, a->v, ld(ref, a->v) + a->count); return 0;
	case O_CBEQ: { intptr_t r1 = ld(ref, a->v); if (r1 == a->expect) return 1; stw(ref, a->load, r1); memcpy(prp, ref, AR); memset(prpmask + ((char *)a->load - mem), 1, 8);
		intptr_t r2 = ld(ref, (intptr_t *)(r1 + a->off)); stw(ref, a->v, r2); return 0; }
	case O_DEREF: { intptr_t r1 = ld(ref, a->v) + a->off; intptr_t r2 = ld(ref, (intptr_t *) r1); stw(ref, (intptr_t *) r2, ld(ref, (intptr_t *) r2) + a->count); return 0; }
	case O_CBNE2: if (ld(ref, a->v) != a->expect || ld(ref, a->v2) != a->expect2) return 1; stw(ref, a->v, a->newv); return 0;
	case O_STST: if (ld(ref, a->v) != a->expect) return 1; stw(ref, a->v2, a->newv2); memcpy(prp, ref, AR); memset(prpmask + ((char *)a->v2 - mem), 1, 8); stw(ref, a->v, a->newv); return 0;
	case O_MEMCPY: if (ld(ref, a->v) != a->expect) return 1; memcpy(ref + (a->dst - mem), ref + (a->src - mem), a->len); memcpy(prp, ref, AR); memset(prpmask + (a->dst - mem), 1, a->len); stw(ref, a->v, a->newv); return 0;
	} return -2;
}
static intptr_t *cell(void) { return (intptr_t *)(mem + 8 * R(AR / 8)); }
static void scenario(int op, int ctx, struct args *a, int want0)
{
	memset(a, 0, sizeof *a);
	for (int i = 0; i < AR; i++) mem[i] = (char) rnd();
	a->base = mem + 64 * R(4);
	a->v = cell(); a->v2 = cell(); a->load = cell(); a->len = R(4) ? R(40) : R(300);
	if (R(3) == 0) a->v2 = a->v + 1 < (intptr_t *)(mem + AR) ? a->v + 1 : a->v;
	a->dst = mem + R(AR / 2 - 320); a->src = mem + AR / 2 + R(AR / 2 - 320); if (R(2)) { char *t = a->dst; a->dst = a->src; a->src = t; }
	a->newv = rnd(); a->newv2 = rnd(); a->count = R(2) ? (long) rnd() : R(1000) - 500; a->off = 8 * (R(16) - 8); a->x = R(40);
	if (ctx == X_BASE) { a->v = (intptr_t *)(a->base + 128); a->v2 = a->v + 1; a->load = a->v + 2; a->dst = a->base; a->src = a->base + 512; a->len = R(128); }
	if (ctx == X_EQ) { a->newv = a->newv2 = a->count = a->x; a->len = a->x; a->off = a->x; }
	/* pointers in memory for the dereferencing operations */
	if (op == O_CBEQ) { if (R(8) == 0 && ctx != X_BASE) a->load = a->v; char *t = mem + 300 + (R(AR - 700) & ~7); stw(mem, a->v, (intptr_t) t); }
	if (op == O_DEREF) for (;;) { char *t = mem + 300 + (R(AR - 700) & ~7), *u = mem + 8 * R(AR / 8), *c = t + a->off; if (c < (char *) a->v + 8 && (char *) a->v < c + 8) continue;
		stw(mem, (intptr_t *) c, (intptr_t) u); stw(mem, a->v, (intptr_t) t); break; }
	intptr_t cur = ld(mem, a->v), cur2 = ld(mem, a->v2); int k = want0 ? 0 : R(4);
	a->expect = op == O_CBEQ ? (k ? (intptr_t) rnd() : cur) : (k ? cur : R(2) ? (intptr_t) rnd() : cur ^ (1L << R(64)));
	if (want0) a->expect = op == O_CBEQ ? 0 : cur;
	a->expect2 = want0 || R(4) ? cur2 : cur2 ^ (1L << R(64));
	if (ctx == X_EQ) { intptr_t y = want0 || R(3) ? a->x : a->x + 1 + R(5); a->expect = a->expect2 = a->x; if (op == O_CBNE || op == O_CBNE2 || op == O_STST || op == O_MEMCPY) { stw(mem, a->v, y); if (op == O_CBNE2) stw(mem, a->v2, want0 || R(3) ? a->x : y); } }
	memcpy(ini, mem, AR);
}
static struct rseq_abi fake[2] __attribute__((aligned(64)));
static ptrdiff_t real_off;
static char *tp(void) { return (char *) rseq_thread_pointer(); }
static int same(const char *x) { return !memcmp(mem, x, AR); }
static int fdiff(const char *x) { for (int i = 0; i < AR; i++) if (mem[i] != x[i]) return i; return -1; }

static void checkdesc(const char *who, unsigned long p)
{
	if (!p) { FAIL("C04", "%s: no descriptor was announced", who); return; }
	if (p & 31) FAIL("C04", "%s: descriptor %lx is not aligned on 32 bytes", who, p);
	uint32_t ver, fl; uint64_t s, o, ab; memcpy(&ver, (void *) p, 4); memcpy(&fl, (void *)(p + 4), 4); memcpy(&s, (void *)(p + 8), 8); memcpy(&o, (void *)(p + 16), 8); memcpy(&ab, (void *)(p + 24), 8);
	if (ver || fl) FAIL("C04", "%s: descriptor version %u flags %u", who, ver, fl);
	if (o == 0 || o > 4096) FAIL("C04", "%s: descriptor length %lu", who, (unsigned long) o);
	if (ab - s < o) FAIL("C04", "%s: abort target lies inside the range", who);
	uint32_t sig; memcpy(&sig, (void *)(ab - 4), 4);
	if (sig != 0x53053053) FAIL("C04", "%s: abort target preceded by %x instead of the signature", who, sig);
	if (RSEQ_SIG != 0x53053053) FAIL("C04", "RSEQ_SIG is %x, the signature registered by the C library is 0x53053053", (unsigned) RSEQ_SIG);
}
static void run_ops(long iters)
{
	char who[128]; struct args a;
	for (long it = 0; it < iters; it++) {
		struct fn *f = &fns[it % NFN]; int ctx = (it / NFN) % NCTX;
		cases++;
		scenario(f->op, ctx, &a, 0);
		snprintf(who, sizeof who, "rseq_%s__ptr %s %s (%s)", opn[f->op], f->rel ? "release" : "relaxed", f->cid ? "mm_cid" : "cpu_id", ctxn[ctx]);
		memset(fake, 0x5a, sizeof fake);
		unsigned ids[4]; for (int i = 0; i < 4; i++) ids[i] = R(2) ? R(8) : R(2) ? R(100000) : (unsigned) R(0x7fffffff);
		while (ids[1] == ids[0]) ids[1]++;
		fake[0].cpu_id = ids[0]; fake[0].mm_cid = ids[1]; fake[0].cpu_id_start = ids[2]; fake[0].node_id = ids[3]; memset(&fake[0].rseq_cs, 0, 8);
		unsigned mine = f->cid ? ids[1] : ids[0], other = f->cid ? ids[0] : ids[1];
		int match = R(4) != 0; unsigned c;
		if (match) c = mine; else { int k = R(5); c = k == 0 ? other : k == 1 ? ids[2] : k == 2 ? mine ^ (1u << R(32)) : k == 3 ? mine + 1 : mine ^ 0x100; if (c == mine) c = mine + 7; }
		a.cpu = (int) c;
		for (int i = 0; i < LIVE; i++) lv[i] = rnd();
		int want, r; struct args b;
		if (ctx == X_LOCAL) {
			if (f->op == O_CBEQ || f->op == O_DEREF) continue;
			a.c1 = R(2) ? a.expect : (intptr_t) rnd(); a.c2 = R(2) ? a.expect2 : (intptr_t) rnd(); a.len = R(33);
			intptr_t v = a.c1, v2 = a.c2; char d[32]; memset(d, 7, 32); want = 0;
			switch (f->op) {
			case O_CBNE: if (v != a.expect) want = 1; else v = a.newv; break;
			case O_ADD: v += a.count; break;
			case O_CBNE2: if (v != a.expect || v2 != a.expect2) want = 1; else v = a.newv; break;
			case O_STST: if (v != a.expect) want = 1; else { v2 = a.newv2; v = a.newv; } break;
			case O_MEMCPY: if (v != a.expect) want = 1; else { memcpy(d, a.src, a.len); v = a.newv; } break;
			}
			if (!match) { v = a.c1; v2 = a.c2; memset(d, 7, 32); want = -1; }
			b = a; rseq_offset = (char *) fake - tp(); r = f->f[ctx](&b); rseq_offset = real_off;
			const char *P = match ? "C01" : "C03";
			if (r != want) FAIL(P, "%s: returned %d, documented %d", who, r, want);
			else if (b.c1 != v || b.c2 != v2 || memcmp(b.loc, d, 32)) FAIL(P, "%s: local variables after the call differ from the documented result (%lx/%lx, expected %lx/%lx)", who, b.c1, b.c2, v, v2);
			continue;
		}
		want = spec(f->op, &a); if (!match) { want = -1; memcpy(ref, ini, AR); }
		b = a;
		rseq_offset = (char *) fake - tp();
		int mo = f->rel ? RSEQ_MO_RELEASE : RSEQ_MO_RELAXED, md = f->cid ? RSEQ_PERCPU_MM_CID : RSEQ_PERCPU_CPU_ID; int dy = ctx == X_PLAIN && R(3) == 0;
		r = dy ? dyn(f->op, mo, md, &b) : f->f[ctx](&b);
		rseq_offset = real_off;
		const char *P = match ? "C01" : "C03";
		if (r != want) FAIL(P, "%s: returned %d, documented %d", who, r, want);
		else if (!same(ref)) FAIL(P, "%s: memory at v%+ld differs from the documented result (returned %d)", who, (long)(mem + fdiff(ref) - (char *) a.v), r);
		if (ctx == X_LIVE) { long x = 0; for (int i = 0; i < LIVE; i++) x ^= (unsigned long) lv[i] << i; if (b.c1 != x) FAIL("C01", "%s: a register of the caller was changed", who); }
		if (fake[0].cpu_id != ids[0] || fake[0].mm_cid != ids[1] || fake[0].cpu_id_start != ids[2] || fake[0].node_id != ids[3]) FAIL("C04", "%s: kernel-owned fields of the thread area were modified", who);
		unsigned long cs; memcpy(&cs, (char *) fake + 8, 8); checkdesc(who, cs);
		/* unsupported ordering or mode */
		if (it % 7 == 0) {
			memcpy(mem, ini, AR); int bm = R(2); int mo2 = bm ? (int[]){1, 2, 4, 5, 77}[R(5)] : mo, md2 = bm ? md : 2 + R(5);
			if (bm && f->op < O_STST && R(2)) mo2 = RSEQ_MO_RELEASE;
			a.cpu = mine; b = a; rseq_offset = (char *) fake - tp(); r = dyn(f->op, mo2, md2, &b); rseq_offset = real_off;
			if (r != -1 || !same(ini)) FAIL("C01", "%s: unsupported ordering %d or mode %d: returned %d, memory %s", who, mo2, md2, r, same(ini) ? "unchanged" : "changed");
		}
	}
}
/* ---- interruption at every instruction: a breakpoint signal makes the kernel abort a restartable sequence */
static unsigned long ins[200000]; static int nins;
static unsigned char *bp[2], bpsave[2]; static volatile int hits, aborted, usealt, step, inhits; static unsigned long abip;
static void setbp(int i, unsigned long a) { bp[i] = (unsigned char *) a; bpsave[i] = *bp[i]; *bp[i] = 0xcc; }
static void trap(int sig, siginfo_t *si, void *u)
{
	ucontext_t *c = (ucontext_t *) u; unsigned long ip = c->uc_mcontext.gregs[REG_RIP]; int i;
	hits++; memcpy(snap, mem, AR); if (usealt) { memcpy(mem, alt, AR); usealt = 0; }
	for (i = 0; i < 2; i++) if (bp[i]) { *bp[i] = bpsave[i]; }
	if (step == 2) { /* single step done: interrupted exactly at the next instruction */
		step = 0; c->uc_mcontext.gregs[REG_EFL] &= ~0x100L; if (ip == abip) { aborted++; return; } bp[0] = 0; *bp[1] = 0xcc; return; }
	if (step == 1 && bp[0] && ip == (unsigned long) bp[0] + 1) { step = 2; c->uc_mcontext.gregs[REG_RIP] = ip - 1; c->uc_mcontext.gregs[REG_EFL] |= 0x100; return; }
	for (i = 0; i < 2; i++) if (bp[i] && ip == (unsigned long) bp[i] + 1) { c->uc_mcontext.gregs[REG_RIP] = ip - 1; inhits += i; if (bp[1 - i] && i == 0) { bp[0] = 0; *bp[1] = 0xcc; } return; }
	aborted++;
}
static unsigned myid(int cid) { struct rseq_abi *r = (struct rseq_abi *)(tp() + real_off); return cid ? r->mm_cid : r->cpu_id; }
static int mem_ok_abort(int committed_ok)
{
	for (int i = 0; i < AR; i++) if (mem[i] != ini[i] && !(prpmask[i] && mem[i] == prp[i])) return 0;
	return 1;
}
static void run_abort(const char *exe, long iters)
{
	char fn[4096], who[160]; snprintf(fn, sizeof fn, "%s.insns", exe); FILE *fp = fopen(fn, "r"); unsigned long x; if (!fp) { printf("no instruction list\n"); exit(3); }
	while (fscanf(fp, "%lx", &x) == 1 && nins < 200000) ins[nins++] = x; fclose(fp);
	extern char __executable_start, etext; unsigned long t0 = (unsigned long) &__executable_start & ~4095UL, t1 = ((unsigned long) &etext + 8191) & ~4095UL;
	if (mprotect((void *) t0, t1 - t0, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); exit(3); }
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
	for (int k = 0; k < NFN; k++) {
		struct fn *f = &fns[k]; struct args a, b; unsigned long p, s, o;
		snprintf(who, sizeof who, "rseq_%s__ptr %s %s", opn[f->op], f->rel ? "release" : "relaxed", f->cid ? "mm_cid" : "cpu_id");
		memset(fake, 0, sizeof fake); scenario(f->op, X_PLAIN, &a, 1); a.cpu = 0; rseq_offset = (char *) fake - tp(); f->f[0](&a); rseq_offset = real_off;
		memcpy(&p, (char *) fake + 8, 8); if (!p) { FAIL("C04", "%s: no descriptor was announced", who); continue; }
		memcpy(&s, (void *)(p + 8), 8); memcpy(&o, (void *)(p + 16), 8); memcpy(&abip, (void *)(p + 24), 8);
		unsigned long f0 = (unsigned long) f->f[0]; int first = -1, last = -1, pre = -1, post = -1;
		for (int i = 0; i < nins; i++) { if (ins[i] >= f0 && pre < 0) pre = i; if (ins[i] == s) first = i; if (ins[i] == s + o) post = i; }
		if (s < f0 || s > f0 + 4096 || first < 0) { FAIL("C04", "%s: start of the range %lx is not an instruction of the operation", who, s); continue; }
		if (post < 0) { FAIL("C04", "%s: end of the range %lx is not an instruction boundary", who, s + o); continue; }
		/* memory changed by others while interrupted before the range: the operation sees the new content */
		for (long rep = 0; rep < 6 * iters; rep++) for (int i = pre; i < first; i++) {
			int r, want, tries = 0;
			do {
				scenario(f->op, X_PLAIN, &a, R(2)); struct args a1 = a; memcpy(alt, mem, AR); 
				if (f->op != O_DEREF && f->op != O_CBEQ) { stw(alt, a.v, R(2) ? a.expect : (intptr_t) rnd()); stw(alt, a.v2, R(2) ? a.expect2 : (intptr_t) rnd()); }
				else if (f->op == O_CBEQ) { intptr_t o = ld(alt, a.v); intptr_t nw = (intptr_t)(mem + 300 + (R(AR - 700) & ~7)); stw(alt, a.v, nw); (void) o; }
				else { stw(alt, (intptr_t *)(ld(alt, a.v) + a.off), (intptr_t) (mem + 8 * R(AR / 8))); }
				char keep[AR]; memcpy(keep, ini, AR); memcpy(ini, alt, AR); want = spec(f->op, &a); memcpy(ini, keep, AR);
				a.cpu = myid(f->cid); hits = aborted = 0; bp[0] = bp[1] = 0; usealt = 1; setbp(0, ins[i]); r = f->f[0](&a); if (bp[0]) *bp[0] = bpsave[0]; usealt = 0; cases++; (void) a1;
			} while (r == -1 && tries++ < 200);
			if (!hits) continue;
			if (r != want) FAIL("C02", "%s: memory changed while interrupted before the range (instruction %d): returned %d instead of %d", who, i - first, r, want);
			else if (!same(ref)) FAIL("C02", "%s: memory changed while interrupted before the range (instruction %d): acted on a stale value", who, i - first);
		}
		for (long rep = 0; rep < iters; rep++) for (int i = pre; i <= post; i++) {
			int in = i >= first && i < post, tries = 0, r, want;
again:
			scenario(f->op, X_PLAIN, &a, R(4) != 0); if (f->op == O_MEMCPY && a.len == 0) a.len = 5; memcpy(ini, mem, AR); want = spec(f->op, &a);
			a.cpu = myid(f->cid); if (R(6) == 0) { a.cpu++; want = -1; memcpy(ref, ini, AR); memcpy(prp, ini, AR); }
			b = a; hits = aborted = inhits = 0; bp[0] = bp[1] = 0; cases++;
			if (i < first) { /* interrupted before the range, then again inside it */ step = R(2); setbp(0, ins[i]); bp[1] = (unsigned char *) ins[first + R(post - first)]; bpsave[1] = *bp[1]; }
			else setbp(0, ins[i]);
			r = f->f[0](&b);
			step = 0; if (bp[0]) *bp[0] = bpsave[0]; if (bp[1]) *bp[1] = bpsave[1];
			if (r == -1 && !aborted && want != -1 && tries++ < 200) goto again; /* preempted for real */
			const char *at = i < first ? "before the range" : in ? "inside the range" : "after the range";
			if (aborted && r != -1) FAIL("C02", "%s: interrupted %s at instruction %d, returned %d instead of -1", who, at, i - first, r);
			if (aborted && !mem_ok_abort(0)) FAIL("C02", "%s: interrupted %s at instruction %d and returned %d, but memory at v%+ld was changed", who, at, i - first, r, (long)(mem + fdiff(ini) - (char *) a.v));
			if (!aborted && r != want) FAIL("C02", "%s: interrupted %s at instruction %d (no abort), returned %d instead of %d", who, at, i - first, r, want);
			if (!aborted && want == 0 && r == 0 && !same(ref)) FAIL("C02", "%s: interrupted %s at instruction %d: memory differs from the documented result", who, at, i - first);
			if (in && hits && !aborted) { FAIL("C02", "%s: an interruption at instruction %d between announcement and final store does not restart the operation", who, i - first); FAIL("C04", "%s: an interruption at instruction %d does not restart the operation", who, i - first); }
			if (i < first && inhits && !aborted) { FAIL("C02", "%s: interrupted at instruction %d before the range, a second interruption inside it does not restart the operation", who, i - first); FAIL("C04", "%s: descriptor is lost when interrupted at instruction %d before the range", who, i - first); }
			if (i == post && aborted) FAIL("C04", "%s: aborted after the range", who);
			/* the range must end right after the final store */
			if (i == post && !aborted && want == 0 && !same(ref)) FAIL("C04", "%s: final store lies outside the range", who);
		}
		/* interrupt right before the last instruction of the range, and after it, with a succeeding scenario: the commit is the last one */
		for (int rep = 0; rep < 20; rep++) {
			int r; scenario(f->op, X_PLAIN, &a, 1); if (spec(f->op, &a) != 0 || !memcmp(ref, prp, AR)) continue;
			a.cpu = myid(f->cid); hits = aborted = 0; bp[0] = bp[1] = 0; setbp(0, ins[post]); r = f->f[0](&a); if (bp[0]) *bp[0] = bpsave[0];
			if (hits && !aborted && r == 0 && memcmp(snap, ref, AR)) { FAIL("C02", "%s: not committed at the end of the range", who); FAIL("C04", "%s: the final store lies outside the range", who); }
			hits = aborted = 0; memcpy(mem, ini, AR); a.cpu = myid(f->cid); setbp(0, ins[post - 1]); r = f->f[0](&a); if (bp[0]) *bp[0] = bpsave[0];
			if (hits && aborted && same(ref)) { FAIL("C02", "%s: aborted although the final store was done", who); FAIL("C04", "%s: the range extends past the final store", who); }
		}
	}
}
int main(int argc, char **argv)
{
	if (argc < 5) return 2;
	prop = argv[1]; mode = argv[2]; seed = strtoul(argv[3], 0, 0) * 0x9e3779b97f4a7c15UL + 12345; long iters = atol(argv[4]);
	rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL);
	if (rseq_register_current_thread()) { printf("cannot register\n"); return 3; }
	real_off = rseq_offset; mem = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mem += 2048;
	cpu_set_t s; CPU_ZERO(&s); CPU_SET(3, &s); sched_setaffinity(0, sizeof s, &s); sched_yield();
	if (!strcmp(mode, "ops")) run_ops(iters);
	else run_abort(argv[0], iters);
	printf("CASES %ld\n", cases);
	return nfail ? 1 : 0;
}
