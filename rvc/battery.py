"""Concrete programs run against the real sources of /repo, rebuilt on every run in a scratch folder.
They replay violations (a failed obligation is confirmed on the running code) and validate the assumed
contracts of the C library and kernel."""
import os, subprocess, tempfile, atexit, shutil, time, threading
from . import frontend
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'battery')
_tmp = None; _built = {}; _lock = threading.Lock(); _pid = None
def scratch():
    global _tmp, _pid
    if _tmp is None or _pid != os.getpid():
        _tmp = tempfile.mkdtemp(prefix='rvcbat.'); _pid = os.getpid()
        atexit.register(lambda d=_tmp, p=_pid: shutil.rmtree(d, ignore_errors=True) if os.getpid() == p else None)
    return _tmp
WRAP = lambda l: ['-Wl,--wrap=' + x for x in l.split()]
SPEC = {
    'pool': dict(src=['pool.c'], repo=['rseq-mempool.c', 'rseq.c', 'smp.c'], flags=['-O1', '-fno-builtin'],
                 link=WRAP('mmap munmap memfd_create close ftruncate madvise calloc malloc strdup free pthread_mutex_lock pthread_mutex_unlock')),
    'smp': dict(src=['smp.c'], repo=['rseq.c', 'smp.c'], flags=['-O1'], link=WRAP('open read close opendir readdir closedir sysconf')),
    'numa': dict(src=['numa.c'], repo=['rseq-mempool.c', 'rseq.c', 'smp.c'], flags=['-O1'], link=WRAP('numa_node_of_cpu move_pages')),
    'reg': dict(src=['reg.c'], repo=['rseq.c', 'smp.c'], flags=['-O1'], link=WRAP('dlsym getauxval syscall sched_getcpu getcpu')),
}
for _n, _cc, _fl in (('percpu', 'gcc', ['-O2']), ('percpu_clang', 'clang', ['-O2']), ('percpu_O0', 'gcc', ['-O0'])):
    SPEC[_n] = dict(src=['percpu.c'], repo=['rseq.c', 'smp.c'], cc=_cc, flags=_fl + ['-no-pie'], link=[], insns=True)
class BuildError(Exception): pass
def build(name):
    with _lock:
        if name in _built: return _built[name]
        sp = SPEC[name]; out = os.path.join(scratch(), name); R = frontend.REPO
        cmd = [sp.get('cc', 'gcc'), '-g', '-w', '-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-I' + R + '/include', '-I' + R + '/src'] + sp['flags'] + \
              [os.path.join(HERE, f) for f in sp['src']] + [os.path.join(R, 'src', f) for f in sp['repo']] + sp['link'] + ['-o', out, '-lnuma', '-ldl', '-lpthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])
        if sp.get('insns'):
            r = subprocess.run(['objdump', '-d', '--no-show-raw-insn', out], capture_output=True, text=True)
            if r.returncode: raise BuildError('objdump: ' + r.stderr[-500:])
            with open(out + '.insns', 'w') as f:
                for l in r.stdout.splitlines():
                    w = l.split()
                    if w and w[0].endswith(':') and l.startswith(' '): f.write(w[0][:-1] + '\n')
        _built[name] = out
        return out

class Run:
    """one execution of a battery program"""
    def __init__(s, prog, args, timeout=60, env=None, crash_is_fail=True): s.prog, s.args, s.timeout, s.env, s.crash = prog, [str(a) for a in args], timeout, env or {}, crash_is_fail
    def cmd(s): return '%s %s' % (s.prog, ' '.join(s.args))
    def go(s):
        """-> (failed, text)"""
        t = time.time(); exe = build(s.prog)
        try:
            r = subprocess.run([exe] + s.args, capture_output=True, text=True, errors='replace', timeout=s.timeout, env=dict(os.environ, **s.env), cwd=scratch())
            rc, out = r.returncode, r.stdout + r.stderr[-1500:]
        except subprocess.TimeoutExpired as e:
            rc, out = -99, 'TIMEOUT after %ds (hang)' % s.timeout
        s.wall = time.time() - t; s.rc = rc
        fl = [l for l in out.splitlines() if l.startswith('FAIL')]
        st = [l for l in out.splitlines() if l.startswith('CASES')]
        s.cases = int(st[-1].split()[1]) if st else 0
        if fl: return True, '\n'.join(fl[:10])
        if rc < 0 and rc != -99 and s.crash: return True, 'FAIL the library crashed (signal %d) on a valid call sequence: %s' % (-rc, out[-600:])
        if rc == -99: return None, out
        if rc == 0: return False, out[-300:]
        return None, 'exit %d: %s' % (rc, out[-600:])
