/* Concrete checks of the possible-CPU count with simulated sysfs content (calls intercepted at link time). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <rseq/rseq.h>
int get_possible_cpus_array_len(void);
static const char *prop; static int bad;
#define FAIL(fmt, ...) do { printf("FAIL %s " fmt "\n", prop, ##__VA_ARGS__); fflush(stdout); bad++; } while (0)
static unsigned long rs;
static unsigned long rnd(unsigned long n) { rs = rs * 6364136223846793005UL + 1442695040888963407UL; return (rs >> 20) % n; }
static char mask[8192]; static int mlen, mpos, mode; /* 0 fine, 1 open fails, 2 read fails */
static struct { char name[64]; int type; } ents[64]; static int nents, epos, nodir, opened, dirs; static long conf;
int __wrap_open(const char *p, int fl, ...) { if (strcmp(p, "/sys/devices/system/cpu/possible")) { FAIL("opened %s", p); } if (mode == 1) { errno = ENOENT; return -1; } opened++; mpos = 0; return 100; }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd != 100) { errno = EBADF; return -1; }
	if (rnd(4) == 0) { errno = EINTR; return -1; }
	if (mode == 2 && (mpos || rnd(2))) { errno = EIO; return -1; }
	size_t l = mlen - mpos; if (n < l) l = n; if (l > 1 && rnd(3)) l = 1 + rnd(l);
	memcpy(b, mask + mpos, l); mpos += l; return l;
}
int __real_close(int); int __wrap_close(int fd) { if (fd == 100) { opened--; if (rnd(20) == 0) { errno = EIO; return -1; } return 0; } return __real_close(fd); }
DIR *__wrap_opendir(const char *p) { if (strcmp(p, "/sys/devices/system/cpu")) FAIL("opened directory %s", p); if (nodir) { errno = ENOENT; return NULL; } dirs++; epos = 0; return (DIR *) &epos; }
struct dirent *__wrap_readdir(DIR *d) { static struct dirent e; if (epos >= nents) return NULL; memset(&e, 0x7f, sizeof e); e.d_type = ents[epos].type; strcpy(e.d_name, ents[epos].name); epos++; return &e; }
int __wrap_closedir(DIR *d) { dirs--; return rnd(20) ? 0 : -1; }
long __real_sysconf(int); long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_CONF ? conf : __real_sysconf(n); }
static void put(long v) { mlen += sprintf(mask + mlen, "%ld", v); }
static long gen(void)
{
	/* -> highest CPU of a valid mask, -1 when the mask gives none */
	long hi = -1; int kind = rnd(10);
	mode = 0; mlen = 0;
	if (kind == 0) { mode = 1; return -1; }
	if (kind == 1) { mode = 2; put(5); return -1; }
	if (kind == 2) { static const char *t[] = { "", "\n", "abc\n", "x", "?" }; strcpy(mask, t[rnd(5)]); mlen = strlen(mask); return -1; }
	if (kind == 3) { static const char *t[] = { "2147483647\n", "0-2147483647\n", "4294967295\n", "0-4294967296\n", "18446744073709551616\n", "99999999999999999999999\n" }; strcpy(mask, t[rnd(6)]); mlen = strlen(mask); return -1; }
	long c = rnd(4) ? 0 : rnd(300); int big = rnd(8) == 0, parts = big ? 300 + rnd(200) : 1 + rnd(4);
	for (int i = 0; i < parts && mlen < 4060; i++) {
		if (i) mask[mlen++] = ',';
		put(c); hi = c;
		if (rnd(2)) { c += 1 + (rnd(3) ? rnd(20) : rnd(1000)); if (i == parts - 1 && rnd(6) == 0) c = 2147483646 - rnd(3); mask[mlen++] = '-'; put(c); hi = c; if (c > 2000000000) break; }
		c += 2 + rnd(20);
	}
	if (rnd(5)) mask[mlen++] = '\n';
	return hi;
}
int main(int argc, char **argv)
{
	prop = argv[1]; rs = atol(argv[3]) * 7919 + 3; int n = atoi(argv[4]), fails = 0;
	for (int i = 0; i < n && fails < 6; i++) {
		long hi = gen(), m = -1; nodir = rnd(5) == 0; nents = rnd(30); conf = rnd(6) ? (long) rnd(64) : -1;
		int odd = rnd(6) == 0;
		for (int k = 0; k < nents; k++) {
			int v = rnd(5) ? rnd(50) : rnd(5000), t = rnd(5) ? DT_DIR : rnd(2) ? DT_REG : DT_LNK; long id = v; int ok = 1;
			switch (rnd(8)) {
			case 0: strcpy(ents[k].name, rnd(2) ? "cpufreq" : "cpuidle"); ok = 0; break;
			case 1: sprintf(ents[k].name, rnd(2) ? "cpu%dx" : "xcpu%d", v); ok = 0; break;
			case 2: strcpy(ents[k].name, rnd(2) ? "." : "cpu"); ok = 0; break;
			case 3: if (odd) { id = rnd(3) == 0 ? 2147483647 : rnd(2) ? 2147483646 : 4294967296L; sprintf(ents[k].name, "cpu%ld", id); break; } /* fall through */
			default: sprintf(ents[k].name, "cpu%d", v);
			}
			ents[k].type = t; if (ok && t == DT_DIR && id > m) m = id;
		}
		if (nodir || m >= 2147483647) m = -1;
		long want = hi >= 0 ? hi + 1 : (conf > m + 1 ? conf : m + 1); if (want < 0) want = 0;
		unsigned long s0 = rs; fflush(stdout);
		pid_t c = fork();
		if (!c) {
			bad = 0; fclose(stderr);
			int r = get_possible_cpus_array_len();
			if (r != want) FAIL("possible CPUs %d, expected %ld (mask \"%.*s\", mode %d, directories up to %ld, configured %ld)", r, want, mlen > 60 ? 60 : mlen, mask, mode, m, conf);
			if (r > 0) {
				mode = 0; strcpy(mask, "0-9876\n"); mlen = strlen(mask); conf = 333; nents = 0;
				for (int k = 0; k < 3; k++) { int r2 = k == 1 ? rseq_get_max_nr_cpus() : get_possible_cpus_array_len(); if (r2 != r) FAIL("the count changed from %d to %d", r, r2); }
			}
			fflush(stdout); _exit(bad ? 1 : 0);
		}
		int st; waitpid(c, &st, 0); rs = s0 + i;
		if (WIFSIGNALED(st)) { FAIL("counting stopped the program (signal %d), mask \"%.60s\"", WTERMSIG(st), mask); fails++; } else if (st) fails++;
	}
	printf("CASES %d\n", n);
	return fails ? 1 : 0;
}
