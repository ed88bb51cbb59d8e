/* Concrete checks of rseq_mempool_range_init_numa with recorded move_pages requests. */
#define _GNU_SOURCE
#include <rseq/mempool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
static const char *prop; static int bad;
#define FAIL(fmt, ...) do { printf("FAIL %s " fmt "\n", prop, ##__VA_ARGS__); if (++bad > 8) { printf("CASES 1\n"); exit(1); } } while (0)
static unsigned long rs;
static unsigned long rnd(unsigned long n) { rs = rs * 6364136223846793005UL + 1442695040888963407UL; return (rs >> 20) % n; }
static char *A; static size_t L; static int cpu, flags, node; static unsigned char *cnt; static unsigned long np, req, failat, failed;
int __wrap_numa_node_of_cpu(int c) { if (c != cpu) FAIL("node of CPU %d asked, CPU is %d", c, cpu); if (node < 0) errno = EINVAL; return node; }
long __wrap_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int fl)
{
	if (pid) FAIL("pages of process %d moved", pid);
	if (fl != flags) FAIL("flags %d instead of %d", fl, flags);
	if (failed) FAIL("request after a failed one");
	if (req++ == failat) { failed = 1; errno = EACCES; return -1; }
	for (unsigned long i = 0; i < n; i++) {
		uintptr_t o = (uintptr_t) pages[i] - (uintptr_t) A;
		if (o % 4096 || o / 4096 >= np) FAIL("page at offset %ld moved, range has %lu pages (length %zu)", (long) o, np, L);
		else if (cnt[o / 4096]++) FAIL("page %lu of %lu moved twice", o / 4096, np);
		if (nodes[i] != node) FAIL("page %lu moved to node %d, the CPU is on node %d", o / 4096, nodes[i], node);
		status[i] = rnd(50) ? node : -ENOENT;
	}
	return rnd(4) ? 0 : rnd(n + 1);
}
int main(int argc, char **argv)
{
	prop = argv[1]; rs = atol(argv[3]) * 31337 + 7; int n = atoi(argv[4]);
	freopen("/dev/null", "w", stderr);
	for (int i = 0; i < n; i++) {
		static const long edge[] = { 0, 1, 2, 3, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289 };
		np = rnd(2) ? edge[rnd(15)] : rnd(14000); L = np * 4096 + (rnd(3) ? 0 : rnd(4096)); A = (char *) (0x100000000UL + rnd(1000) * 4096);
		cpu = rnd(300); flags = rnd(8) ? (rnd(2) ? 2 : 4) : 0; node = rnd(10) ? (int) rnd(64) : -1; req = 0; failed = 0; failat = rnd(5) ? -1UL : rnd(4);
		cnt = calloc(1, np + 1); errno = 0;
		int r = rseq_mempool_range_init_numa(A, L, cpu, flags);
		if (!flags) { if (r != -1 || errno != EINVAL || req) FAIL("no flags: returned %d, errno %d, %lu requests", r, errno, req); }
		else if (node < 0) { if (r != -1 || req) FAIL("unknown CPU: returned %d, %lu requests", r, req); }
		else if (failed) { if (r != -1 || errno != EACCES) FAIL("failed request: returned %d, errno %d", r, errno); }
		else {
			if (r) FAIL("returned %d", r);
			for (unsigned long k = 0; k < np; k++) if (cnt[k] != 1) { FAIL("page %lu of %lu was moved %d times", k, np, cnt[k]); break; }
		}
		free(cnt);
	}
	printf("CASES %d\n", n);
	return bad ? 1 : 0;
}
