"""Contracts of thread registration and rseq queries (src/rseq.c, include/rseq/rseq.h): C15, C16.

Ghost state: what the kernel holds for the current thread (address, length, signature of its
registration), the kernel's feature size and alignment (aux vector), and whether the C library owns
registration (its three symbols exist and its size is not zero).  The static variables of rseq.c are
never named: a library state is the content of all its writable globals, and the set of reachable
library states is shown to be closed under every API call (so histories of any length, and any number
of threads, are covered)."""
import re, z3
from .engine import *
from . import models as MD
from .models import ret, i32

SRC = 'src/rseq.c'
EXTRA = '''
int32_t __rvcq_cpu_raw(void) { return rseq_current_cpu_raw(); }
uint32_t __rvcq_cpu_start(void) { return rseq_cpu_start(); }
uint32_t __rvcq_cpu(void) { return rseq_current_cpu(); }
uint32_t __rvcq_node(void) { return rseq_current_node_id(); }
uint32_t __rvcq_mm_cid(void) { return rseq_current_mm_cid(); }
int __rvcq_node_av(void) { return !!rseq_node_id_available(); }
int __rvcq_mm_cid_av(void) { return !!rseq_mm_cid_available(); }
void __rvcq_unload(void) { rseq_prepare_unload(); }
const int __rvc_o_cpu_id_start = offsetof(struct rseq_abi, cpu_id_start), __rvc_o_cpu_id = offsetof(struct rseq_abi, cpu_id), __rvc_o_rseq_cs = offsetof(struct rseq_abi, rseq_cs);
const int __rvc_o_node = offsetof(struct rseq_abi, node_id), __rvc_o_mm = offsetof(struct rseq_abi, mm_cid);
const int __rvc_nr_rseq = __NR_rseq, __rvc_nr_getcpu = __NR_getcpu, __rvc_q_kernel = RSEQ_AVAILABLE_QUERY_KERNEL, __rvc_q_libc = RSEQ_AVAILABLE_QUERY_LIBC;
'''
SIG = 0x53053053
ENOSYS, EINVAL, EBUSY, EPERM = 38, 22, 16, 1
NAMES = ('__rseq_offset', '__rseq_size', '__rseq_flags')

def cstr(ex, st, p):
    o = ex.objof(st, p)
    if o is None or o.kind != 'struct': raise Unsupported('string argument')
    i = cval(z3.simplify(p - o.base)); s = ''
    while True:
        b = z3.simplify(o.read(i, 1))
        if not is_const(b): raise Unsupported('string argument')
        if cval(b) == 0: return s
        s += chr(cval(b)); i += 1

class World:
    def __init__(w, m, C, libc):
        w.m, w.C, w.libc = m, C, libc
        w.F = z3.BitVec('AT_RSEQ_FEATURE_SIZE', 64); w.AL = z3.BitVec('AT_RSEQ_ALIGN', 64); w.TP = z3.BitVec('thread_pointer', 64)
        w.alt = []              # library states another thread may install while this one waits/sleeps
        w.calls = 'calls'
    def feat(w): return z3.If(w.F == 0, BV(20, 32), z3.Extract(31, 0, w.F))
    def globals_(w):
        return sorted(n for n, g in w.m.globals.items() if not n.startswith('@llvm.') and not g['const'] and not g['tls'] and not g['external'] and 'mutex' not in repr(g['type']))
    def tls(w): return [n for n, g in w.m.globals.items() if g['tls']]

def setup(m, C, libc, func, decide=None, tlimit=None):
    """libc: 'owns' | 'zero' (symbols there, size 0) | 'none' (some symbol missing)"""
    w = World(m, C, libc)
    ex = Engine(m, dict(MD.BASE)); ex.func = func; ex.w = w
    if tlimit: ex.deadline = time.time() + tlimit
    if decide: ex.decide = set(decide)
    ex.hooks['global_init'] = True
    st = State()
    st.assume(z3.Or(w.F == 0, z3.And(z3.UGE(w.F, bv64(20)), z3.ULE(w.F, bv64(1024)))), z3.Or(w.AL == 0, z3.And(z3.ULE(w.AL, bv64(1024)), z3.UGE(w.AL, bv64(32)), w.AL & (w.AL - 1) == 0)),
              z3.Extract(3, 0, w.TP) == 0, z3.UGT(w.TP, bv64(1 << 44)), z3.ULT(w.TP, bv64(1 << 45)))
    for n in w.globals_(): ex.glob(st, '@' + n if not n.startswith('@') else n)
    for n in w.tls():
        g = m.globals[n]; b = ex.glob(st, n); st.objs[n].zero = False
        a = g.get('align') or 1
        st.assume(b & bv64(a - 1) == 0, z3.UGT(b, bv64(1 << 43)), z3.ULT(b, bv64(1 << 44)))
    st.g['reg'] = None; st.g['sys'] = []
    # C library symbols
    for n, sz in zip(NAMES, (8, 4, 4)):
        o = Obj('libc:' + n, z3.BitVec('&libc:' + n, 64), sz, const=True); st.add(o)
        st.assume(z3.UGT(o.base, bv64(1 << 40)), z3.ULT(o.base, bv64(1 << 41)), z3.Extract(2, 0, o.base) == 0)
    lo = w.libc_off = st.objs['libc:__rseq_offset'].read(0, 8); ls = w.libc_size = st.objs['libc:__rseq_size'].read(0, 4); w.libc_flags = st.objs['libc:__rseq_flags'].read(0, 4)
    w.has = {n: z3.Bool('has ' + n) for n in NAMES}
    if libc == 'owns': st.assume(*w.has.values()); st.assume(ls != 0, z3.UGE(ls, BV(20, 32)), z3.ULE(ls, BV(4096, 32)))
    elif libc == 'zero': st.assume(*w.has.values()); st.assume(ls == 0)
    else: st.assume(z3.Not(z3.And(*w.has.values())))
    M = ex.models
    def m_dlsym(ex, st, a, rt):
        n = cstr(ex, st, a[1])
        if n not in NAMES: return ret(st, bv64(0))
        r = []
        for v in (True, False):
            c = w.has[n] if v else z3.Not(w.has[n])
            if ex.feasible(st, c):
                s2 = st.copy(); s2.assume(c); r.append(ret(s2, s2.objs['libc:' + n].base if v else bv64(0)))
        return r
    def m_auxv(ex, st, a, rt):
        t = z3.simplify(a[0])
        if is_const(t) and cval(t) == 27: return ret(st, w.F)
        if is_const(t) and cval(t) == 28: return ret(st, w.AL)
        return ret(st, fresh('auxval'))
    def m_asm(ex, st, tmpl, cons, args, rt):
        t = tmpl.strip().strip('"')
        if '%fs:0' in t and not args: return [('ret', st, w.TP)]
        return MD.m_asm(ex, st, tmpl, cons, args, rt)
    def interfere(ex, st):
        """another thread runs API functions while this one is in the kernel or waits for a lock"""
        r = [st]
        for sn in w.alt:
            s2 = st.copy(); install(w, s2, sn); s2.g['inst'] = True; r.append(s2)
        return r
    w.interfere = interfere
    def m_lock(ex, st, a, rt):
        if w.block: return []
        if st.g.get('locked'): ex.oblige(st, 'lock is not taken twice', FALSE, ('C15', 'C16')); raise Infeasible()
        o = []
        for s in interfere(ex, st):
            s.g['locked'] = True; o.append(ret(s, i32(0)))
        return o
    def m_unlock(ex, st, a, rt):
        ex.oblige(st, 'unlock only after lock', z3.BoolVal(bool(st.g.get('locked'))), ('C15',)); st.g['locked'] = False
        return ret(st, i32(0))
    w.block = False
    def m_syscall(ex, st, a, rt):
        nr = z3.simplify(a[0])
        if not is_const(nr): raise Unsupported('system call number')
        if cval(nr) == C['nr_getcpu']:
            return m_getcpu(ex, st, a)
        if cval(nr) != C['nr_rseq']: raise Unsupported('system call %d' % cval(nr))
        ptr, ln, fl, sig = a[1:5]
        ln = ln if ln.size() == 32 else z3.Extract(31, 0, ln); fl = fl if fl.size() == 32 else z3.Extract(31, 0, fl); sig = sig if sig.size() == 32 else z3.Extract(31, 0, sig)
        out = []
        def fail(s, *errs):
            e = fresh('errno', 32); s.assume(z3.Or([e == x for x in errs])); MD.set_errno(ex, s, e); s.g['sys'] = s.g['sys'] + [('fail', ptr, ln, fl, sig, e)]; out.append(ret(s, bv64(-1)))
        f = z3.simplify(fl)
        if not is_const(f): raise Unsupported('rseq flags')
        if is_const(z3.simplify(ptr)) and cval(z3.simplify(ptr)) == 0:
            fail(st.copy(), ENOSYS, EINVAL); return out
        if cval(f) == 0:
            ex.oblige(st, 'registration only when the C library does not own it', z3.BoolVal(libc != 'owns'), ('C15',))
            o = ex.objof(st, ptr)
            ex.oblige(st, 'registered area is a thread-local object', z3.BoolVal(o is not None and o.name in w.tls()), ('C15', 'C16'))
            ex.oblige(st, 'registered area is aligned as the kernel requires', z3.And(ptr & 31 == 0, z3.Or(w.AL == 0, ptr & (w.AL - 1) == 0)), ('C15', 'C16'))
            ex.oblige(st, 'registered length covers the original 32 bytes', z3.UGE(ln, BV(32, 32)), ('C15', 'C16'))
            ex.oblige(st, 'registered length covers every feature of the kernel', z3.UGE(z3.ZeroExt(32, ln), w.F), ('C16', 'C15'))
            if o is not None: ex.oblige(st, 'registered length stays inside the thread area', z3.UGE(bv64(o.size) - (ptr - o.base), z3.ZeroExt(32, ln)), ('C16', 'C15'))
            ex.oblige(st, 'registration uses the signature of the abort handlers', sig == BV(SIG, 32), ('C15',))
            for s in interfere(ex, st):
                if st.g['reg'] is None:
                    s2 = s.copy(); cpu = fresh('cpu', 32); s2.assume(cpu >= 0)
                    if o is not None:
                        so = s2.objs[o.name]; d = cval(z3.simplify(ptr - o.base))
                        so.write(d + C['o_cpu_id'], 4, cpu); so.write(d + C['o_cpu_id_start'], 4, cpu)
                    s2.g['reg'] = (ptr, ln, sig); s2.g['sys'] = s2.g['sys'] + [('reg', ptr, ln, fl, sig, None)]
                    s2.g['last'] = 'ok'; out.append(ret(s2, bv64(0)))
                s.g['last'] = 'fail'; fail(s, ENOSYS, EINVAL, EBUSY, EPERM)
            return out
        if cval(f) == 1:
            ex.oblige(st, 'unregistration only when the C library does not own it', z3.BoolVal(libc != 'owns'), ('C15',))
            if st.g['reg'] is not None:
                p0, l0, s0 = st.g['reg']
                ex.oblige(st, 'unregistration passes the registered address', ptr == p0, ('C15',))
                ex.oblige(st, 'unregistration passes the registered length', ln == l0, ('C15',))
                ex.oblige(st, 'unregistration passes the registered signature', sig == s0, ('C15',))
                s2 = st.copy(); s2.g['reg'] = None; s2.g['sys'] = s2.g['sys'] + [('unreg', ptr, ln, fl, sig, None)]; s2.g['last'] = 'ok'; out.append(ret(s2, bv64(0)))
            s3 = st.copy(); s3.g['last'] = 'fail'; fail(s3, ENOSYS, EINVAL, EBUSY, EPERM)
            return out
        ex.oblige(st, 'rseq is called with known flags', FALSE, ('C15',)); raise Infeasible()
    def m_getcpu(ex, st, a):
        s1, s2 = st.copy(), st; s2.g['last'] = 'fail'; MD.set_errno(ex, s2, ENOSYS)
        s1.g['last'] = 'ok'; c, n = fresh('getcpu_cpu', 32), fresh('getcpu_node', 32); s1.assume(c >= 0, n >= 0); s1.g['getcpu'] = (c, n)
        for p, v in ((a[1], c), (a[2], n)):
            q = z3.simplify(p)
            if is_const(q) and cval(q) == 0: continue
            s1 = ex.store(s1, p, 4, v, 'getcpu result')[0]
        return [ret(s1, bv64(0)), ret(s2, bv64(-1))]
    def m_getcpu_fn(ex, st, a, rt):
        return [(k, s, z3.Extract(31, 0, v)) for k, s, v in m_getcpu(ex, st, [None] + a)]
    def m_sched(ex, st, a, rt):
        c = fresh('sched_getcpu', 32); s1, s2 = st.copy(), st
        s1.assume(c >= 0); s1.g['sched'] = c; s1.g['last'] = 'ok'; s2.g['last'] = 'fail'; MD.set_errno(ex, s2, ENOSYS); return [ret(s1, c), ret(s2, i32(-1))]
    M.update({'dlsym': m_dlsym, 'getauxval': m_auxv, 'asm': m_asm, 'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock, 'syscall': m_syscall,
              'getcpu': m_getcpu_fn, 'sched_getcpu': m_sched, 'llvm.threadlocal': lambda ex, st, a, rt: ret(st, a[0]),
              'get_possible_cpus_array_len': lambda ex, st, a, rt: ret(st, z3.BitVec('possible_cpus', 32))})
    return ex, w, st

# ---------------------------------------------------------------- library states
def snap(w, st): return {n: st.objs[n].copy() for n in w.globals_()}
def install(w, st, sn):
    for n, o in sn.items(): st.objs[n] = o.copy()
def words(o):
    o = o.copy(); return [o.read(i, 8) if i + 8 <= o.size else o.read(i, 4) if i + 4 <= o.size else None for i in range(0, o.size, 8)] if o.size % 4 == 0 else [o.read(i, 1) for i in range(o.size)]
def same(w, a, b):
    return z3.And([x == y for n in a for x, y in zip(words(a[n]), words(b[n])) if not x.eq(y)] or [TRUE])
def pub(st, n, k):
    o = st.objs['@' + n]; return z3.simplify(o.read(0, k))
def ctors(m):
    t = re.search(r'^@llvm\.global_ctors = .*$', m.text, re.M)
    return re.findall(r'ptr @([\w.$]+), ptr null', t.group(0)) if t else []
def dtors(m):
    t = re.search(r'^@llvm\.global_dtors = .*$', m.text, re.M)
    return re.findall(r'ptr @([\w.$]+), ptr null', t.group(0)) if t else []

def run_ctors(ex, w, st):
    sts = [st]
    for c in ctors(w.m):
        n = []
        for s in sts:
            for k, s2, v in ex.call_func(s, w.m.funcs[c], []):
                s2.trace = ['constructor ' + c]
                if k != 'ret': ex.oblige(s2, 'the constructor does not stop the program', FALSE, ('C15', 'C16'), cont=False)
                else: n.append(s2)
        sts = n
    return sts

def post_init(ex, w, s):
    """library state after initialization"""
    size, off, fl = pub(s, 'rseq_size', 4), pub(s, 'rseq_offset', 8), pub(s, 'rseq_flags', 4)
    if w.libc == 'owns':
        ls = w.libc_size; f = w.feat()
        ex.oblige(s, 'offset published by the C library is used', off == w.libc_off, ('C16', 'C15'))
        ex.oblige(s, 'flags published by the C library are used', fl == w.libc_flags, ('C16',))
        ex.oblige(s, 'advertised size with a C library that says 20 or 32 bytes: the smaller of 32 and the kernel feature size',
                  z3.Implies(z3.Or(ls == 20, ls == 32), size == z3.If(z3.ULT(f, BV(32, 32)), f, BV(32, 32))), ('C16',))
        ex.oblige(s, 'otherwise the advertised size is the one of the C library', z3.Implies(z3.And(ls != 20, ls != 32), size == ls), ('C16',))
    else:
        t = [n for n in w.tls()]
        ex.oblige(s, 'nothing is advertised before a thread registered', z3.Not(size >= 20), ('C16',))
        ex.oblige(s, 'the published offset leads to the thread area', z3.Or([w.TP + off == s.objs[n].base for n in t] or [FALSE]), ('C16', 'C15'))
        ex.oblige(s, 'published flags are 0', fl == 0, ('C16',))
    ex.oblige(s, 'initialization does not register threads', z3.BoolVal(s.g['sys'] == []), ('C15',))
    ex.oblige(s, 'initialization releases its lock', z3.BoolVal(not s.g.get('locked')), ('C15',))

def run(m, C, libc, scenario, decide=None):
    ex, w, st = setup(m, C, libc, 'rseq.c %s, C library %s' % (scenario, libc), decide, 200)
    F = m.funcs; REG, UNREG = F['rseq_register_current_thread'], F['rseq_unregister_current_thread']
    own = libc != 'owns'; nret = []
    def call(s, f, args, what):
        r = []
        for k, s2, v in ex.call_func(s.copy(), f, args): s2.trace = [what]; r.append((k, s2, v))
        return r
    if scenario == 'init':
        # first initialization, by the constructor or by another thread's/constructor's call; store by store it is
        # invisible to other threads until it is complete
        steps = Steps(ex, w); steps.on(st)
        res = run_ctors(ex, w, st.copy()); ex.nret = len(res)
        reg = [(s2, v, k) for k, s2, v in ex.call_func(st.copy(), REG, [])]
        steps.off()
        for s in res: s.trace = ['after the constructor']; post_init(ex, w, s); nret.append(s)
        for s2, v, k in reg:
            s2.trace = ['first registration before the constructor ran']
            if k == 'ret' and not own:
                post_init(ex, w, s2); ex.oblige(s2, 'registration succeeds without a system call when the C library owns it', v == 0, ('C15',))
        # unfinished initialization is not visible
        for s in res:
            fin = snap(w, s)
            for mid in s.g.get('mid', []):
                t = s.copy(); install(w, t, mid); t.g['locked'] = False; w.block = True
                try: q = ex.call_func(t, REG, [])
                finally: w.block = False
                for k, t2, v in q:
                    t2.trace = ['another thread during initialization']
                    ex.oblige(t2, 'a thread that does not wait for initialization sees it complete', same(w, mid, fin), ('C15', 'C16'), cont=False)
        # another thread completed initialization (and maybe registered) while this one waited for the lock
        init0 = snap(w, st)
        for s in res:
            alts = [snap(w, s)]
            if own: alts += [snap(w, o) for k, o, v in ex.call_func(s.copy(), REG, []) if k == 'ret' and o.g.get('last') == 'ok'][:1]
            for alt in alts:
                t = s.copy(); install(w, t, init0); t.g['sys'] = []; w.alt = [alt]
                for x in run_ctors(ex, w, t):
                    x.trace = ['initialization by two threads']
                    ex.oblige(x, 'initialization is done once: a thread that waited for it changes nothing', z3.Or(same(w, snap(w, x), alt), same(w, snap(w, x), alts[0]) if not x.g.get('inst') else FALSE), ('C15', 'C16'), cont=False)
                w.alt = []
        ex.vacuity(nret); return ex
    S1 = run_ctors(ex, w, st)
    for s1 in S1:
        s1.trace = ['after initialization']
        A = snap(w, s1)                                   # initialized, nobody registered (or C library owns)
        B = None
        if own:
            oks = [s for k, s, v in call(s1, REG, [], '') if k == 'ret' and s.g.get('last') == 'ok']
            if not oks: ex.oblige(s1, 'registration can succeed', FALSE, ('C15',), cont=False); continue
            Bs = [snap(w, s) for s in oks]
        states = [('nobody registered yet' if own else 'the C library owns registration', A, s1, False)]
        if own:
            for s, b in zip(oks, Bs): states.append(('a thread has registered', b, s, True))
        if scenario == 'calls':
            for nm, sn, base, hasreg in states:
                for tstate in (('unregistered', 'registered') if hasreg else ('unregistered',)):
                    s = base.copy(); install(w, s, sn)
                    if tstate == 'unregistered': s.g['reg'] = None; fresh_tls(ex, w, s)
                    s.g['sys'] = []
                    # interference: another thread registers successfully meanwhile
                    w.alt = [b for b in Bs] if own and not hasreg else []
                    closed = [sn] + (Bs if own else [])
                    for k, s2, v in call(s, REG, [], 'register, %s, this thread %s' % (nm, tstate)):
                        last = s2.g.get('last') if s2.g['sys'] else None
                        if not own:
                            ex.oblige(s2, 'registration succeeds without a system call when the C library owns it', z3.BoolVal(k == 'ret' and s2.g['sys'] == []), ('C15',), cont=False)
                            if k == 'ret': ex.oblige(s2, 'registration reports success', v == 0, ('C15',), cont=False); ex.oblige(s2, 'library state unchanged', same(w, snap(w, s2), sn), ('C15', 'C16'), cont=False); nret.append(s2)
                            continue
                        ex.oblige(s2, 'one registration call to the kernel', z3.BoolVal(len(s2.g['sys']) == 1), ('C15',), cont=False)
                        now = snap(w, s2)
                        if k != 'ret':
                            # allowed: kernel refuses although another thread is registered
                            other = z3.BoolVal(hasreg) if not w.alt else z3.Or([same(w, now, b) for b in w.alt])
                            ex.oblige(s2, 'the program is stopped only when the kernel treats threads differently', z3.And(z3.BoolVal(last == 'fail'), other), ('C15',), cont=False); continue
                        nret.append(s2)
                        if last == 'ok':
                            ex.oblige(s2, 'successful registration returns 0', v == 0, ('C15',), cont=False)
                            ex.oblige(s2, 'after a registration the advertised size is the kernel feature size', pub(s2, 'rseq_size', 4) == w.feat(), ('C16',), cont=False)
                            t = s2.g['reg']; ex.oblige(s2, 'the published offset leads to the registered area', w.TP + pub(s2, 'rseq_offset', 8) == t[0], ('C15', 'C16'), cont=False)
                            ex.oblige(s2, 'the advertised features are inside the registered length', z3.ULE(pub(s2, 'rseq_size', 4), t[1]), ('C16',), cont=False)
                            ex.oblige(s2, 'reachable library states are closed', z3.Or([same(w, now, b) for b in Bs]), ('C15', 'C16'), cont=False)
                        else:
                            ex.oblige(s2, 'refused registration returns -1', v == -1, ('C15',), cont=False)
                            ex.oblige(s2, 'refused registration changes nothing', z3.Or([same(w, now, x) for x in [sn] + w.alt]), ('C15', 'C16'), cont=False)
                            ex.oblige(s2, 'errno of the kernel is passed on', MD.get_errno(s2) == s2.g['sys'][-1][5], ('C15',), cont=False)
                    w.alt = []
                    for k, s2, v in call(s, UNREG, [], 'unregister, %s, this thread %s' % (nm, tstate)):
                        last = s2.g.get('last') if s2.g['sys'] else None
                        if k != 'ret': ex.oblige(s2, 'unregistration does not stop the program', FALSE, ('C15',), cont=False); continue
                        nret.append(s2)
                        ex.oblige(s2, 'library state unchanged by unregistration', same(w, snap(w, s2), sn), ('C15', 'C16'), cont=False)
                        if not own:
                            ex.oblige(s2, 'unregistration is left to the C library', z3.And(z3.BoolVal(s2.g['sys'] == []), v == 0), ('C15',), cont=False); continue
                        ex.oblige(s2, 'one unregistration call to the kernel', z3.BoolVal(len(s2.g['sys']) == 1), ('C15',), cont=False)
                        ex.oblige(s2, 'result of unregistration', v == (0 if last == 'ok' else -1), ('C15',), cont=False)
        if scenario == 'queries':
            AV = F['rseq_available']
            for nm, sn, base, hasreg in states:
                s = base.copy(); install(w, s, sn); s.g['sys'] = []
                q = z3.BitVec('query', 32)
                for k, s2, v in call(s, AV, [q], 'rseq_available, ' + nm):
                    if k != 'ret': ex.oblige(s2, 'availability query does not stop the program', FALSE, ('C16',), cont=False); continue
                    nret.append(s2); val = v if z3.is_bool(v) else v != 0
                    kq, lq = q == C['q_kernel'], q == C['q_libc']
                    if s2.g['sys']: ex.oblige(s2, 'kernel availability follows the answer of the kernel', z3.Implies(kq, val == (s2.g['sys'][-1][5] == EINVAL)), ('C16',), cont=False)
                    else: ex.oblige(s2, 'kernel availability asks the kernel', z3.Not(kq), ('C16',), cont=False)
                    ex.oblige(s2, 'C library availability is its ownership', z3.Implies(lq, val == z3.BoolVal(not own)), ('C16',), cont=False)
                    ex.oblige(s2, 'unknown queries are answered with false', z3.Implies(z3.Not(z3.Or(kq, lq)), z3.Not(val)), ('C16',), cont=False)
                    ex.oblige(s2, 'queries change no library state', same(w, snap(w, s2), sn), ('C15', 'C16'), cont=False)
                for k, s2, v in call(s, F['rseq_fallback_current_cpu'], [], 'rseq_fallback_current_cpu'):
                    if k != 'ret': ex.oblige(s2, 'fallback CPU stops the program only without an answer', z3.BoolVal(s2.g.get('last') == 'fail'), ('C16',), cont=False); continue
                    nret.append(s2); got = [x for x in (s2.g.get('sched'), (s2.g.get('getcpu') or (None,))[0]) if x is not None]
                    ex.oblige(s2, 'fallback CPU is the one of the kernel', z3.Or([v == x for x in got] or [FALSE]), ('C16',), cont=False)
                for k, s2, v in call(s, F['rseq_fallback_current_node'], [], 'rseq_fallback_current_node'):
                    if k != 'ret': ex.oblige(s2, 'fallback node does not stop the program', FALSE, ('C16',), cont=False); continue
                    nret.append(s2); g = s2.g.get('getcpu')
                    ex.oblige(s2, 'fallback node is the one of the kernel, -1 without an answer', v == (g[1] if g and s2.g.get('last') == 'ok' else BV(-1, 32)), ('C16',), cont=False)
                for k, s2, v in call(s, F['rseq_get_max_nr_cpus'], [], 'rseq_get_max_nr_cpus'):
                    if k != 'ret': ex.oblige(s2, 'max_nr_cpus does not stop the program', FALSE, ('C16', 'C17'), cont=False); continue
                    ex.oblige(s2, 'max_nr_cpus is the possible-CPU count', v == z3.BitVec('possible_cpus', 32), ('C16', 'C17'), cont=False)
                # inline queries read the registered area
                if own:
                    area = [n for n in w.tls() if ex.valid(s, w.TP + pub(s, 'rseq_offset', 8) == s.objs[n].base)]
                    if not area: ex.oblige(s, 'the published offset leads to the thread area', FALSE, ('C16',), cont=False); continue
                    an = area[0]; base_ = s.objs[an].base
                    s.assume(w.TP + pub(s, 'rseq_offset', 8) == base_); delta = 0
                else:
                    o = Obj('libc area', z3.simplify(w.TP + pub(s, 'rseq_offset', 8)), 32); s.add(o); an = o.name
                    s.assume(z3.UGE(o.base, bv64(4096)), z3.ULT(o.base, bv64(1 << 47) - 64), o.base & 31 == 0)
                inline(ex, w, C, s, an, call, nret)
            if own:
                # unload
                for d in dtors(m):
                    for nm, sn, base, hasreg in states:
                        s = base.copy(); install(w, s, sn)
                        for k, s2, v in call(s, F[d], [], 'destructor'):
                            ex.oblige(s2, 'no feature is advertised after the library is gone', z3.And(z3.BoolVal(k == 'ret'), z3.Not(pub(s2, 'rseq_size', 4) >= 20)), ('C16',), cont=False)
            else:
                for d in dtors(m):
                    s = s1.copy()
                    for k, s2, v in call(s, F[d], [], 'destructor'):
                        ex.oblige(s2, 'the registration of the C library stays advertised', z3.And(z3.BoolVal(k == 'ret'), same(w, snap(w, s2), A)), ('C16', 'C15'), cont=False)
    ex.nret = len(nret); ex.vacuity(nret); return ex

def fresh_tls(ex, w, s):
    for n in w.tls():
        o = s.objs[n]; o.b = {}; o.zero = False
        ex.init_const(o, w.m.globals[n]['type'], w.m.globals[n]['init'])

def inline(ex, w, C, s, an, call, nret):
    """include/rseq/rseq.h queries, for any content of the area and any advertised size"""
    s = s.copy(); o = s.objs[an]
    cid, cst, nid, mm = [fresh(x, 32) for x in ('cpu_id', 'cpu_id_start', 'node_id', 'mm_cid')]
    for off, v in ((C['o_cpu_id'], cid), (C['o_cpu_id_start'], cst), (C['o_node'], nid), (C['o_mm'], mm)): o.write(off, 4, v)
    for i in range(8): o.write(C['o_rseq_cs'] + i, 1, fresh('cs', 8))
    keep = [(C['o_cpu_id'], cid), (C['o_cpu_id_start'], cst), (C['o_node'], nid), (C['o_mm'], mm)]
    size = fresh('rseq_size', 32); s.objs['@rseq_size'].write(0, 4, size)
    F = w.m.funcs
    def q(fn, spec, aborts=FALSE):
        for k, s2, v in call(s, F[fn], [], fn.replace('__rvcq_', 'inline query ')):
            if k != 'ret': ex.oblige(s2, 'query stops the program only when the feature is absent', aborts, ('C16',), cont=False); continue
            nret.append(s2); ex.oblige(s2, 'query returns the registered value or its fallback', spec(s2, v), ('C16',), cont=False)
            ex.oblige(s2, 'query does not modify the area', z3.And([s2.objs[an].read(off, 4) == x for off, x in keep]), ('C16',), cont=False)
    q('__rvcq_cpu_raw', lambda s2, v: v == cid); q('__rvcq_cpu_start', lambda s2, v: v == cst)
    fb = lambda s2: next((x for x in (s2.g.get('sched'), (s2.g.get('getcpu') or (None,))[0]) if x is not None), None)
    for k, s2, v in call(s, F['__rvcq_cpu'], [], 'inline query current_cpu'):
        x = fb(s2)
        if k != 'ret': ex.oblige(s2, 'CPU query stops the program only when neither source answers', z3.And(cid < 0, z3.BoolVal(s2.g.get('last') == 'fail')), ('C16',), cont=False); continue
        ex.oblige(s2, 'current CPU is the registered one, or the fallback when not registered', z3.If(cid >= 0, v == cid, v == x if x is not None else FALSE), ('C16',), cont=False)
    q('__rvcq_node', lambda s2, v: z3.And(size >= C['o_node'] + 4, v == nid), z3.Not(size >= C['o_node'] + 4))
    q('__rvcq_mm_cid', lambda s2, v: v == mm)
    q('__rvcq_node_av', lambda s2, v: (v != 0) == (size >= C['o_node'] + 4)); q('__rvcq_mm_cid_av', lambda s2, v: (v != 0) == (size >= C['o_mm'] + 4))
    for k, s2, v in call(s, F['__rvcq_unload'], [], 'rseq_prepare_unload'):
        ex.oblige(s2, 'prepare_unload clears the announced critical section and nothing else', z3.And(z3.BoolVal(k == 'ret'), s2.objs[an].read(C['o_rseq_cs'], 8) == 0, *[s2.objs[an].read(off, 4) == x for off, x in keep]), ('C16', 'C15'), cont=False)

class Steps:
    """records the library state after every store of a path (to judge what other threads can see)"""
    def __init__(s, ex, w): s.ex, s.w = ex, w
    def on(s, st):
        ex, w = s.ex, s.w; s.orig = ex.store; gl = set(w.globals_())
        def store(st, addr, n, v, what='store'):
            r = s.orig(st, addr, n, v, what)
            for x in r:
                o = ex.objof(x, z3.simplify(addr))
                if o is not None and o.name in gl: x.g['mid'] = x.g.get('mid', []) + [snap(w, x)]
            return r
        ex.store = store
    def off(s): s.ex.store = s.orig
