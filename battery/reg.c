/* Concrete checks of thread registration and rseq queries against a simulated kernel and C library
 * (dlsym, getauxval, syscall and sched_getcpu are intercepted at link time).  Each case runs in a
 * process of its own, since the library initializes itself in a constructor. */
#define _GNU_SOURCE
#include <rseq/rseq.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/auxv.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <spawn.h>
extern char **environ;

static const char *prop = "?";
static int failures;
#define FAIL(fmt, ...) do { printf("FAIL %s " fmt "\n", prop, ##__VA_ARGS__); fflush(stdout); failures++; } while (0)
#define CK(c, fmt, ...) do { if (!(c)) FAIL(fmt, ##__VA_ARGS__); } while (0)
static int only(const char *p) { return !strcmp(prop, p); }

/* ---- configuration, from the environment (needed by constructors) */
static int cfg(const char *k, int d) { char b[64]; snprintf(b, sizeof b, "RB_%s", k); char *v = getenv(b); return v ? atoi(v) : d; }

struct call { void *p; unsigned len, flags, sig; int rc; };
static __thread struct { int on; void *p; unsigned len, sig; } kreg;   /* the kernel's view of this thread */
static __thread struct call last; static __thread int ncalls; static int allcalls;
static __thread int fail_errno;             /* next rseq call fails with this */
static __thread int fail_getcpu, fake_cpu = 5, fake_node = 3;
static __thread struct { char b[4096]; } libc_area __attribute__((aligned(64)));
static ptrdiff_t libc_off; static unsigned libc_size, libc_flags = 0;
static int slow_init;


void *__wrap_dlsym(void *h, const char *n)
{
	int mask = cfg("SYMS", 7);
	if (slow_init) usleep(3000);
	libc_off = (char *) &libc_area - (char *) rseq_thread_pointer(); libc_size = cfg("LIBC_SIZE", 32); libc_flags = cfg("LIBC_FLAGS", 0);
	if (!strcmp(n, "__rseq_offset")) return mask & 1 ? &libc_off : NULL;
	if (!strcmp(n, "__rseq_size")) return mask & 2 ? &libc_size : NULL;
	if (!strcmp(n, "__rseq_flags")) return mask & 4 ? &libc_flags : NULL;
	return NULL;
}
unsigned long __real_getauxval(unsigned long t);
unsigned long __wrap_getauxval(unsigned long t)
{
	if (t == 27) return cfg("FEAT", 28);
	if (t == 28) return cfg("ALIGN", 32);
	return __real_getauxval(t);
}
int __wrap_sched_getcpu(void) { if (fail_getcpu) { errno = ENOSYS; return -1; } return fake_cpu; }
static int dogetcpu(unsigned *c, unsigned *n) { if (fail_getcpu) { errno = ENOSYS; return -1; } if (c) *c = fake_cpu; if (n) *n = fake_node; return 0; }
int __wrap_getcpu(unsigned *c, unsigned *n) { return dogetcpu(c, n); }
static int owns(void) { return cfg("SYMS", 7) == 7 && cfg("LIBC_SIZE", 32) != 0; }
static unsigned feat(void) { int f = cfg("FEAT", 28); return f ? f : 20; }
long __wrap_syscall(long nr, ...)
{
	va_list ap; va_start(ap, nr);
	if (nr == SYS_getcpu) { unsigned *c = va_arg(ap, unsigned *), *n = va_arg(ap, unsigned *); return dogetcpu(c, n); }
	if (nr != SYS_rseq) { FAIL("unexpected system call %ld", nr); errno = ENOSYS; return -1; }
	struct rseq_abi *p = va_arg(ap, struct rseq_abi *); unsigned len = va_arg(ap, unsigned), fl = va_arg(ap, int), sig = va_arg(ap, unsigned);
	int e = 0, kern = cfg("KERNEL", 1);
	if (!p && !len) { errno = kern ? EINVAL : ENOSYS; return -1; }
	ncalls++; __atomic_add_fetch(&allcalls, 1, __ATOMIC_SEQ_CST);
	CK(!owns(), "the library made a registration call although the C library owns registration");
	last = (struct call) { p, len, fl, sig, 0 };
	if (!kern) e = ENOSYS;
	else if (fail_errno) { e = fail_errno; fail_errno = 0; }
	else if (fl == 1) {
		if (!kreg.on) e = EINVAL;
		else {
			CK(p == kreg.p, "unregistration with another address");
			CK(len == kreg.len, "unregistration with length %u, registered with %u (kernel feature size %u)", len, kreg.len, feat());
			CK(sig == kreg.sig, "unregistration with another signature");
			if (p != kreg.p || len != kreg.len || sig != kreg.sig) e = EINVAL;
		}
	} else if (fl == 0) {
		CK(sig == RSEQ_SIG, "registration with signature %x", sig);
		CK(len >= 32, "registration with %u bytes", len);
		CK(len >= feat(), "registration with %u bytes, the kernel features need %u", len, feat());
		CK(len <= 1024, "registration with %u bytes", len);
		CK(((uintptr_t) p & ((cfg("ALIGN", 32) ? cfg("ALIGN", 32) : 32) - 1)) == 0, "registered area is not aligned");
		if (kreg.on) e = EBUSY;
	} else FAIL("rseq called with flags %u", fl);
	if (e) { errno = e; last.rc = -1; return -1; }
	if (fl == 1) { kreg.on = 0; p->cpu_id = -1; p->cpu_id_start = 0; return 0; }
	kreg.on = 1; kreg.p = p; kreg.len = len; kreg.sig = sig; p->cpu_id = fake_cpu; p->cpu_id_start = fake_cpu;
	if (feat() >= 24) p->node_id = fake_node;
	if (feat() >= 28) p->mm_cid = 1;
	/* the kernel may write the whole registered area: it must not hold anything else */
	memset((char *) p + 32, 0xa5, len > 32 ? len - 32 : 0);
	return 0;
}

static unsigned want_libc_size(void)
{
	unsigned l = cfg("LIBC_SIZE", 32), f = feat();
	if (l == 20 || l == 32) return f < 32 ? f : 32;
	return l;
}
static int any_registered;
static void ck_state(const char *when)
{
	if (owns()) {
		if (only("C16")) {
			CK(rseq_size == want_libc_size(), "%s: advertised size %u, expected %u (C library says %d, kernel feature size %u)", when, rseq_size, want_libc_size(), cfg("LIBC_SIZE", 32), feat());
			CK(rseq_offset == libc_off, "%s: offset of the C library not used", when);
			CK(rseq_flags == libc_flags, "%s: flags of the C library not used", when);
		}
		return;
	}
	if (only("C16")) {
		if (any_registered) CK(rseq_size == feat(), "%s: advertised size %u after a registration, kernel feature size %u", when, rseq_size, feat());
		else CK((int) rseq_size <= 0, "%s: advertised size %u without any registration", when, rseq_size);
		CK(rseq_flags == 0, "%s: flags %u", when, rseq_flags);
	}
	if (kreg.on) CK((char *) rseq_thread_pointer() + rseq_offset == (char *) kreg.p, "%s: the published offset does not lead to the registered area", when);
}
static unsigned long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005UL + 1442695040888963407UL; return (rs >> 33) % n; }

static int exits_abort(int (*f)(void))
{
	fflush(stdout);
	pid_t c = fork();
	if (!c) { struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); close(2); int r = f(); _exit(r ? 41 : 40); }
	int st; waitpid(c, &st, 0);
	return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 1 : WEXITSTATUS(st) == 41 ? 2 : 0;
}
static void queries(void)
{
	if (!only("C16")) return;
	int k = cfg("KERNEL", 1);
	CK(rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL) == !!k, "kernel availability");
	CK(rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) == owns(), "C library availability is %d", rseq_available(RSEQ_AVAILABLE_QUERY_LIBC));
	for (unsigned q = 2; q < 6; q++) CK(!rseq_available(q), "unknown query %u answered with true", q);
	CK(!rseq_available(-1U), "unknown query -1 answered with true");
	CK(rseq_fallback_current_cpu() == fake_cpu, "fallback cpu");
	CK(rseq_fallback_current_node() == fake_node, "fallback node");
	fail_getcpu = 1; CK(rseq_fallback_current_node() < 0, "fallback node without an answer"); fail_getcpu = 0;
	struct rseq_abi *a = rseq_get_abi(); struct rseq_abi save = *a; unsigned ss = rseq_size;
	for (int i = 0; i < 6; i++) {
		int c = (int[]) { 0, 1, 77, 0x7fffffff, -1, -2 } [i]; a->cpu_id = c; a->cpu_id_start = i + 9;
		CK(rseq_current_cpu_raw() == c, "current_cpu_raw"); CK(rseq_cpu_start() == i + 9, "cpu_start");
		CK(rseq_current_cpu() == (c < 0 ? fake_cpu : c), "current_cpu with cpu_id %d is %d", c, rseq_current_cpu());
	}
	a->node_id = 12; a->mm_cid = 34;
	for (int z = -1; z < 40; z++) {
		rseq_size = z;
		CK(rseq_node_id_available() == (z >= 24), "node id availability with size %d", z);
		CK(rseq_mm_cid_available() == (z >= 28), "mm_cid availability with size %d", z);
		if (z >= 24) CK(rseq_current_node_id() == 12, "node id");
		if (z >= 28) CK(rseq_current_mm_cid() == 34, "mm_cid");
	}
	rseq_size = ss;
	a->rseq_cs.arch.ptr = 0x1234; rseq_prepare_unload(); CK(a->rseq_cs.arch.ptr == 0, "prepare_unload");
	CK(a->cpu_id == -2 && a->node_id == 12 && a->mm_cid == 34, "queries modified the area");
	*a = save;
}
static void *thread(void *arg)
{
	long n = (long) arg;
	for (int i = 0; i < n; i++) {
		int op = rnd(5), was = kreg.on, c0 = ncalls, sz = rseq_size;
		static const int errs[] = { ENOSYS, EINVAL, EBUSY, EPERM };
		int inj = rnd(4) == 0 ? errs[rnd(4)] : 0, kern = cfg("KERNEL", 1);
		if (op < 3) {
			int should = owns() ? 0 : !kern || was || inj;
			fail_errno = owns() ? 0 : inj;
			if (should && any_registered) {
				if (only("C15")) CK(exits_abort(rseq_register_current_thread) == 1, "refused registration after another thread registered does not stop the program");
				fail_errno = 0; continue;
			}
			errno = 0; int r = rseq_register_current_thread();
			CK(r == (should ? -1 : 0), "register returned %d, expected %d", r, should ? -1 : 0);
			if (should && only("C15")) CK(errno == (!kern ? ENOSYS : inj ? inj : EBUSY), "register: errno %d", errno);
			if (should) CK(rseq_size == (unsigned) sz, "a refused registration changed the advertised size");
			if (!owns() && !should) any_registered = 1;
			if (owns()) CK(ncalls == c0, "registration call although the C library owns registration");
			else { CK(ncalls == c0 + 1, "%d registration calls", ncalls - c0); CK(should || kreg.on, "register reports success, the kernel holds no registration"); }
		} else {
			int should = owns() ? 0 : !kern || !was || inj;
			fail_errno = owns() ? 0 : inj;
			errno = 0; int r = rseq_unregister_current_thread();
			CK(r == (should ? -1 : 0), "unregister returned %d, expected %d", r, should ? -1 : 0);
			if (owns()) CK(ncalls == c0, "unregistration call although the C library owns registration");
			else { CK(ncalls == c0 + 1, "%d unregistration calls", ncalls - c0); CK(should || !kreg.on, "unregister reports success, the kernel still holds the registration"); }
			CK(rseq_size == (unsigned) sz, "unregistration changed the advertised size");
		}
		fail_errno = 0;
		ck_state("after a call");
	}
	queries();
	if (kreg.on && !owns()) { fail_errno = 0; CK(rseq_unregister_current_thread() == 0, "final unregistration failed"); }
	return NULL;
}
/* registrations racing with the first initialization, before the library's constructor */
static void *early(void *arg)
{
	int r = rseq_register_current_thread();
	if (owns()) { CK(r == 0, "early registration returned %d", r); ck_state("early"); }
	else if (cfg("KERNEL", 1)) {
		CK(r == 0 && kreg.on, "early registration returned %d", r);
		CK(!kreg.on || (char *) rseq_thread_pointer() + rseq_offset == (char *) kreg.p, "early: the published offset does not lead to the registered area");
		CK(rseq_size == feat(), "early: a registered thread sees advertised size %u, kernel feature size %u", rseq_size, feat());
		CK(rseq_unregister_current_thread() == 0, "early unregistration failed");
	}
	return NULL;
}
__attribute__((constructor(101))) static void early_ctor(void)
{
	if (!getenv("RB_CASE")) return;
	prop = getenv("RB_PROP"); rs = cfg("SEED", 1);
	if (cfg("EARLY", 0)) {
		pthread_t t[4]; slow_init = 1;
		for (int i = 0; i < 4; i++) { pthread_create(&t[i], NULL, early, NULL); usleep(rnd(6000)); }
		for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
		slow_init = 0; if (!owns() && cfg("KERNEL", 1)) any_registered = 1;
	}
}
__attribute__((destructor(101))) static void late_dtor(void)
{
	if (getenv("RB_CASE") && only("C16")) {
		if (owns()) CK(rseq_size == want_libc_size() && rseq_offset == libc_off, "the C library's registration is no longer advertised after the library's destructor");
		else CK((int) rseq_size <= 0, "features are advertised after the library's destructor");
	}
	fflush(stdout);
	if (failures) _exit(1);
}
int main(int argc, char **argv)
{
	if (getenv("RB_CASE")) {
		prop = getenv("RB_PROP"); rs = cfg("SEED", 1);
		ck_state("after initialization");
		if (!cfg("EARLY", 0)) CK(allcalls == 0, "initialization made a registration call");
		thread((void *) (long) rnd(8));
		for (int t = 0; t < 3; t++) { pthread_t p; pthread_create(&p, NULL, thread, (void *) (long) rnd(8)); pthread_join(p, NULL); }
		return failures ? 1 : 0;
	}
	prop = argv[1]; rs = atol(argv[3]) * 7919 + 1; int n = atoi(argv[4]), bad = 0;
	for (int i = 0; i < n && bad < 5; i++) {
		static const int F[] = { 0, 20, 24, 28, 32, 33, 40, 64, 256, 1024 }, A[] = { 0, 32, 64, 1024 }, L[] = { 0, 20, 32, 20, 32, 24, 28, 33, 40, 64 };
		char b[9][64]; char *env[64]; int e = 0;
		unsigned syms = rnd(2) ? 7 : rnd(8);
		snprintf(b[0], 64, "RB_CASE=1"); snprintf(b[1], 64, "RB_PROP=%s", prop); snprintf(b[2], 64, "RB_SEED=%u", rnd(1 << 30)); snprintf(b[3], 64, "RB_FEAT=%d", F[rnd(10)]);
		snprintf(b[4], 64, "RB_ALIGN=%d", A[rnd(4)]); snprintf(b[5], 64, "RB_SYMS=%u", syms); snprintf(b[6], 64, "RB_LIBC_SIZE=%d", L[rnd(10)]); snprintf(b[7], 64, "RB_KERNEL=%d", rnd(6) != 0); snprintf(b[8], 64, "RB_EARLY=%d", rnd(6) == 0);
		for (int k = 0; k < 9; k++) env[e++] = b[k];
		env[e] = NULL;
		fflush(stdout);
		pid_t c; char *av[] = { argv[0], NULL };
		if (posix_spawn(&c, "/proc/self/exe", NULL, NULL, av, env)) { printf("spawn failed\n"); return 3; }
		int st; waitpid(c, &st, 0);
		if (WIFSIGNALED(st)) { printf("FAIL %s the program was stopped by signal %d;", prop, WTERMSIG(st)); bad++; }
		else if (WEXITSTATUS(st)) { bad++; printf("FAIL %s in the case", prop); }
		if (st) { for (int k = 2; k < 9; k++) printf(" %s", b[k]); printf("\n"); }
	}
	printf("CASES %d\n", n);
	return bad ? 1 : 0;
}
