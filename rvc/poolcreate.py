"""Contracts of pool creation and range creation (src/rseq-mempool.c), checked against the real
bodies (callees executed in place).

Ghost kernel state: the list of owned address intervals (anonymous mapping minus what was
unmapped), open descriptors, heap objects, and per-byte mapping attributes kept in ghost arenas
KIND (how the byte is mapped), FORK (MADV_DONTFORK) and WIPE (MADV_WIPEONFORK), which are observed
at arbitrary-but-fixed addresses: byte xb of stripe xc, and byte yb of the header."""
import z3
from .engine import *
from . import engine as E
from .houdini import Watch
from . import models as MD
from .models import ret, i32
from .pool import World

EINVAL, ENOMEM = 22, 12
ANON, PRIV, SHARED, UNKNOWN = 1, 2, 3, 9
PAGE = 4096

class Ghost(Arena):
    """byte-valued ghost function of an address; never a target of program loads and stores"""
    structural = True; kind = 'ghost'
    class w:
        @staticmethod
        def dec(x): return None
    def copy(s):
        o = object.__new__(Ghost); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def locate(s, *a): return False
    def havoc(s): s.M = next(E._ctr); s.log = []
    def basebyte(s, X):
        if s.M is None: return BV(0, 8)
        w = {'s': 'S', 'h': 'H', 'c': 'C'}[X.kind]
        return z3.Function('%s%s!%d' % (s.name, w, s.M), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))(
            X.c if X.c is not None and X.c.size() == 64 else z3.ZeroExt(32, X.c) if X.c is not None else bv64(0), X.b if X.b is not None else bv64(0))

class SAddr:
    """ghost address: byte xb of stripe xc (kind 's') or byte yb of the header (kind 'h'); raw: machine address"""
    def __init__(s, kind, c, b, raw): s.kind, s.c, s.b, s.raw = kind, c, b, raw

def lin(st, spec, e):
    """e = base*[hb] + (c << k) + b with b constant, syntactically; None when not of this form"""
    base = st.g.get('mapped'); k = spec.get('k')
    if base is None or k is None or is_const(k): 
        if base is None or k is None: return None
    hb = 0; c = bv64(0); b = 0
    terms = []; work = [(z3.simplify(e), 1)]
    while work:
        t, sg = work.pop()
        if z3.is_app_of(t, z3.Z3_OP_BADD): work += [(x, sg) for x in t.children()]
        elif is_const(t): b += sg * cval(t)
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_const(t.arg(0)) and cval(t.arg(0)) == (1 << 64) - 1: work.append((t.arg(1), -sg))
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_const(t.arg(0)) and is_const(k) and cval(t.arg(0)) == 1 << cval(k): c = c + sg * t.arg(1)
        elif z3.is_app_of(t, z3.Z3_OP_BSHL) and t.arg(1).eq(k): c = c + (t.arg(0) if sg == 1 else -t.arg(0))
        elif t.eq(base): hb += sg
        elif is_const(k):
            q = unshift(t, cval(k))
            if q is None: return None
            c = c + (q if sg == 1 else -q)
        else: return None
    b &= (1 << 64) - 1
    if b >= 1 << 63: b -= 1 << 64
    if is_const(k) and b >= 0: c = c + bv64(b >> cval(k)); b &= (1 << cval(k)) - 1
    return hb, z3.simplify(c), b
def unshift(t, k):
    """t = q << k for a concat with k low zero bits"""
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        low = t.arg(t.num_args() - 1)
        if is_const(low) and cval(low) == 0 and low.size() >= k: return z3.LShR(t, k)
    return None

def setup_ghost(st):
    for n in ('KIND', 'FORK', 'WIPE', 'CALLS'):
        g = Ghost(n, bv64(0), bv64(1 << 63)); g.M = None; st.add(g)
    st.g.update(owned=[], fds=[], nmap=0, heap=[], syscfail=False, munmap_failed=False, cbfail=False)

def gfill(ex, st, spec, n, p, ln, v):
    a, l = lin(st, spec, p), lin(st, spec, ln)
    def cond(X):
        if a and l and a[0] == 1 and l[0] == 0:
            if a[2] == 0 and l[2] == 0: return z3.ULT(X.c - a[1], l[1]) if X.kind == 's' else FALSE
            if a[2] < 0 and is_const(a[1]) and cval(a[1]) == 0 and is_const(l[1]) and cval(l[1]) == 0:
                return FALSE if X.kind == 's' else z3.ULT(X.b - bv64(a[2] + 2 * PAGE), bv64(l[2]))
        return z3.ULT(X.raw - p, ln)
    st.objs[n].log.append(('c', cond, lambda X, old, v=v: BV(v, 8))); ex.note_write(n, None, None)

def o_(C, s, f): return C['%s__%s' % (s, f)]

def mk_models(C, spec):
    m = dict(MD.BASE)
    def fail(ex, st):
        s2 = st.copy(); MD.set_errno(ex, s2, fresh('errno', 32)); s2.g['syscfail'] = True; return s2
    # ---------------------------------------------------------------- mappings
    def mmap(ex, st, a, rt):
        addr, ln, prot, flags, fd, off = a
        flags = z3.simplify(flags)
        if not is_const(flags): raise Unsupported('mmap flags')
        fl = cval(flags)
        ex.oblige(st, 'mmap: readable and writable', prot == BV(3, 32), ('MAP',))
        if fl & 0x10:       # MAP_FIXED
            ex.oblige(st, 'MAP_FIXED mapping stays inside memory the pool owns', within_owned(st, addr, ln), ('RES', 'LAYOUT'))
            ex.oblige(st, 'MAP_FIXED mapping is page aligned and not empty', z3.And(ln != 0, (addr & bv64(PAGE - 1)) == 0), ('LAYOUT',))
            s2 = fail(ex, st); fillg(ex, s2, 'KIND', addr, ln, UNKNOWN)
            if fl & 0x20: k = ANON
            else:
                ex.oblige(st, 'mapping of the init file at offset 0', z3.And(off == 0, z3.Or([z3.And(f['open'], fd == f['fd']) for f in st.g['fds']] + [FALSE])), ('LAYOUT', 'COWSHARE'))
                for f in st.g['fds']: ex.oblige(st, 'init file is as long as the mapping', z3.Or(fd != f['fd'], f['len'] == ln), ('LAYOUT', 'COWSHARE'))
                k = SHARED if fl & 1 else PRIV
            fillg(ex, st, 'KIND', addr, ln, k); fillg(ex, st, 'FORK', addr, ln, 0); fillg(ex, st, 'WIPE', addr, ln, 0)
            return [ret(st, addr), ret(s2, bv64(-1))]
        if not fl & 0x20: raise Unsupported('mmap kind')
        ex.oblige(st, 'anonymous mapping is private', z3.BoolVal(bool(fl & 2)), ('MAP', 'FORKISO'))
        s2 = fail(ex, st)
        n = st.g['nmap']; st.g['nmap'] = n + 1
        p = z3.BitVec('map%d' % n, 64)
        end = z3.simplify(p + ln)
        st.assume(ln != 0, (p & bv64(PAGE - 1)) == 0, z3.UGE(p, bv64(1 << 16)), z3.ULT(p, bv64(1 << 46)), z3.ULT(ln, bv64(1 << 46)), (ln & bv64(PAGE - 1)) == 0)
        ar = Arena('map%d' % n, p, ln, zero=True); st.add(ar)
        st.g['owned'] = st.g['owned'] + [(p, end, 'map%d' % n)]
        fillg(ex, st, 'KIND', p, ln, ANON)
        return [ret(st, p), ret(s2, bv64(-1))]
    def munmap(ex, st, a, rt):
        p, ln = z3.simplify(a[0]), z3.simplify(a[1])
        ex.oblige(st, 'munmap: only memory the pool owns is unmapped', z3.And(ln != 0, within_owned(st, p, ln)), ('RES',))
        ex.oblige(st, 'munmap: page aligned', (p & bv64(PAGE - 1)) == 0, ('RES',))
        s2 = fail(ex, st); s2.g['munmap_failed'] = True
        end = z3.simplify(p + ln); new = []
        for lo, hi, nm in st.g['owned']:
            if not ex.valid(st, z3.And(z3.ULE(lo, p), z3.ULE(end, hi))): new.append((lo, hi, nm)); continue
            parts = [q for q in ((lo, p), (end, hi)) if not ex.valid(st, q[0] == q[1])]
            new += [(x, y, nm) for x, y in parts]
            ar = st.objs.get(nm)
            if ar is not None:
                if not parts: ar.alive = False
                elif len(parts) == 1: ar.base = parts[0][0]; ar.size = z3.simplify(parts[0][1] - parts[0][0])
                else: raise Unsupported('hole in mapping')
        st.g['owned'] = new
        fillg(ex, st, 'KIND', p, ln, 0)
        return [ret(st, i32(0)), ret(s2, i32(-1))]
    def madvise(ex, st, a, rt):
        p, ln, adv = a; adv = z3.simplify(adv)
        if not is_const(adv): raise Unsupported('madvise')
        ex.oblige(st, 'madvise inside memory the pool owns', within_owned(st, p, ln), ('RES', 'LAYOUT'))
        s2 = fail(ex, st)
        k = cval(adv)
        if k == 10: fillg(ex, st, 'FORK', p, ln, 1)          # DONTFORK
        elif k == 11: fillg(ex, st, 'FORK', p, ln, 0)
        elif k == 18:                                        # WIPEONFORK (private anonymous only)
            fillg(ex, st, 'WIPE', p, ln, 1)
            ex.oblige(st, 'fork wipe advice on the private anonymous header', z3.UGE(st.g['owned'][-1][1] - (p + ln), spec['range_len']) if st.g['owned'] else FALSE, ('LAYOUT', 'FORKISO'))
        elif k == 19: fillg(ex, st, 'WIPE', p, ln, 0)
        return [ret(st, i32(0)), ret(s2, i32(-1))]
    def within_owned(st, p, ln):
        for lo, hi, _ in st.g['owned']:
            if z3.simplify(p - lo).eq(bv64(0)) and z3.simplify(p + ln - hi).eq(bv64(0)): return TRUE
        a, n = lin(st, spec, p), lin(st, spec, ln)
        if a and n and a[0] == 1 and n[0] == 0 and st.g['owned']:
            S = spec['nstripes']
            if a[2] == 0 and n[2] == 0: return z3.And(z3.ULE(a[1], S), z3.ULE(n[1], S - a[1]))
            if a[2] < 0 and is_const(a[1]) and cval(a[1]) == 0 and is_const(n[1]) and cval(n[1]) == 0: return z3.BoolVal(-a[2] <= 2 * PAGE and 0 <= n[2] <= -a[2])
        return z3.Or([z3.And(z3.ULE(lo, p), z3.ULE(p, hi), z3.ULE(ln, hi - p)) for lo, hi, _ in st.g['owned']] + [FALSE])
    def fillg(ex, st, n, p, ln, v):
        gfill(ex, st, spec, n, p, ln, v)
    # ---------------------------------------------------------------- descriptors
    def memfd(ex, st, a, rt):
        s2 = fail(ex, st); fd = fresh('memfd', 32); st.assume(fd >= 0)
        for f in st.g['fds']: st.assume(fd != f['fd'])
        st.g['fds'] = st.g['fds'] + [dict(fd=fd, open=TRUE, len=bv64(0))]
        return [ret(st, fd), ret(s2, i32(-1))]
    def ftruncate(ex, st, a, rt):
        ex.oblige(st, 'ftruncate on an open descriptor of the pool', z3.Or([z3.And(f['open'], f['fd'] == a[0]) for f in st.g['fds']] + [FALSE]), ('RES',))
        s2 = fail(ex, st)
        st.g['fds'] = [dict(f, len=z3.simplify(z3.If(f['fd'] == a[0], a[1], f['len']))) for f in st.g['fds']]
        return [ret(st, i32(0)), ret(s2, i32(-1))]
    def close(ex, st, a, rt):
        ex.oblige(st, 'close: only an open descriptor of the pool is closed', z3.Or([z3.And(f['open'], f['fd'] == a[0]) for f in st.g['fds']] + [FALSE]), ('RES',))
        st.g['fds'] = [dict(f, open=z3.simplify(z3.And(f['open'], f['fd'] != a[0]))) for f in st.g['fds']]
        if not spec.get('closefail'): return ret(st, i32(0))
        s2 = fail(ex, st)          # the descriptor is gone even when close reports an error
        return [ret(st, i32(0)), ret(s2, i32(-1))]
    # ---------------------------------------------------------------- heap
    def calloc(ex, st, a, rt):
        n, sz = z3.simplify(a[0]), z3.simplify(a[1])
        s2 = fail(ex, st); i = len(st.g['heap'])
        nm = 'heap%d' % i; p = z3.BitVec('&' + nm, 64)
        tot = z3.simplify(n * sz) if not (is_const(sz) and cval(sz) == 8) else z3.simplify(n << 3)
        st.assume(z3.UGE(p, bv64(1 << 47)), z3.ULT(p, bv64((1 << 47) + (1 << 46))), (p & bv64(15)) == 0)
        if is_const(tot): o = Obj(nm, p, cval(tot), zero=True, heap=True)
        else:
            o = Arena(nm, p, tot, zero=True); o.heap = True
            st.assume(z3.ULT(n, bv64(1 << 44)))      # calloc succeeds only for sizes it can represent
        st.add(o); st.g['heap'] = st.g['heap'] + [(nm, p)]
        return [ret(st, p), ret(s2, bv64(0))]
    def malloc(ex, st, a, rt):
        r = calloc(ex, st, [bv64(1), a[0]], rt)
        o = r[0][1].objs[r[0][1].g['heap'][-1][0]]
        if o.kind == 'struct': o.zero = False
        else: o.havoc()
        return r
    def free(ex, st, a, rt):
        p = z3.simplify(a[0])
        if is_const(p) and cval(p) == 0: return ret(st)
        outs = []
        if ex.feasible(st, p == 0):
            s2 = st.copy(); s2.assume(p == 0); outs.append(ret(s2))
            if not ex.feasible(st, p != 0): return outs
            st.assume(p != 0)
        for nm, q in st.g['heap']:
            if z3.simplify(p - q).eq(bv64(0)) or ex.valid(st, p == q):
                ex.oblige(st, 'free: released exactly once (%s)' % nm, st.objs[nm].alive, ('RES',))
                st.objs[nm].alive = False
                return outs + [ret(st)]
        ex.oblige(st, 'free: only heap memory of the pool is freed', FALSE, ('RES',))
    def strdup(ex, st, a, rt):
        s2 = fail(ex, st); i = len(st.g['heap']); nm = 'heap%d' % i; p = z3.BitVec('&' + nm, 64)
        st.assume(z3.UGE(p, bv64(1 << 47)), z3.ULT(p, bv64((1 << 47) + (1 << 46))))
        ex.oblige(st, 'strdup of the given name', a[0] == spec['name'], ('LAYOUT',))
        st.add(Obj(nm, p, 1, heap=True)); st.g['heap'] = st.g['heap'] + [(nm, p)]
        return [ret(st, p), ret(s2, bv64(0))]
    def snprintf(ex, st, a, rt):
        ex.oblige(st, 'snprintf bounded by its buffer', z3.Or([z3.And(o.base == a[0], z3.ULE(a[1], bv64(o.size))) for o in st.objs.values() if o.kind == 'struct' and o.stack] + [FALSE]), ('MEM',))
        for o in st.objs.values():
            if o.kind == 'struct' and o.stack and z3.simplify(o.base - a[0]).eq(bv64(0)): o.b = {}; ex.note_write(o.name, 0, 1)
        return ret(st, fresh('snprintf', 32))
    # ---------------------------------------------------------------- callbacks and environment
    def indirect(ex, st, a, rt, fp):
        ex.oblige(st, 'the configured init callback is called', fp == spec['init_func'], ('INIT',))
        priv, p, ln, cpu = a
        base = spec['base'](st)
        ex.oblige(st, 'init callback requested by the attributes', spec['init_set'], ('INIT',))
        ex.oblige(st, 'init callback: private pointer', priv == spec['init_priv'], ('INIT',))
        ex.oblige(st, 'init callback: length is one stride', ln == spec['stride'], ('INIT',))
        ex.oblige(st, 'init callback: CPU number in range (-1 for a global pool)', z3.If(spec['global'], cpu == BV(-1, 32), z3.And(cpu >= 0, cpu < spec['ncpu'])), ('INIT',))
        c64 = z3.If(cpu == BV(-1, 32), bv64(0), z3.ZeroExt(32, cpu))
        lp = lin(st, spec, p)
        ex.oblige(st, 'init callback: memory of that CPU', lp[1] == c64 if lp and lp[0] == 1 and lp[2] == 0 else p == base + (c64 << spec['k']), ('INIT',))
        g = st.objs['CALLS']; cc = cpu
        g.log.append(('c', lambda X: X.c == cc, lambda X, old: z3.If(old == 0, BV(1, 8), BV(2, 8)))); ex.note_write('CALLS', None, None)
        s2 = st.copy(); r = fresh('cb', 32); s2.assume(r != 0); s2.g['cbfail'] = True
        return [ret(st, i32(0)), ret(s2, r)]
    def maxcpus(ex, st, a, rt): return ret(st, spec['auto'])
    m.update({'mmap': mmap, 'mmap64': mmap, 'munmap': munmap, 'madvise': madvise, 'memfd_create': memfd, 'ftruncate': ftruncate, 'ftruncate64': ftruncate, 'close': close,
              'calloc': calloc, 'malloc': malloc, 'free': free, 'strdup': strdup, 'snprintf': snprintf, 'indirect': indirect, 'rseq_get_max_nr_cpus': maxcpus,
              'pthread_mutex_init': MD.m_nop32, 'pthread_mutex_destroy': MD.m_nop32})
    return m

def nstripes(spec): return z3.simplify(z3.SignExt(32, spec['ncpu']) + z3.If(spec['cow'], bv64(1), bv64(0)) + z3.If(spec['robust'], bv64(1), bv64(0)))
def range_len(spec): return z3.simplify((z3.SignExt(32, spec['ncpu']) + z3.If(spec['cow'], bv64(1), bv64(0)) + z3.If(spec['robust'], bv64(1), bv64(0))) << spec['k'])

def mk_watches(ex, spec):
    xc = z3.BitVec('xc*', 32); xb = z3.BitVec('xb*', 64); yb = z3.BitVec('yb*', 64); cpu = z3.BitVec('cpu*', 32)
    spec.update(xc=xc, xb=xb, yb=yb, cpu=cpu)
    base = lambda st: z3.simplify(st.g['owned'][-1][1] - spec['range_len']) if st.g['owned'] else None
    spec['base'] = base
    X = lambda st: None if base(st) is None else SAddr('s', z3.ZeroExt(32, xc), xb, z3.simplify(base(st) + (z3.ZeroExt(32, xc) << spec['k']) + xb))
    Y = lambda st: None if base(st) is None else SAddr('h', None, yb, z3.simplify(st.g['owned'][-1][0] + yb))
    spec['X'], spec['Y'] = X, Y
    v = lambda *q: [BV(t, 8) for t in q]
    ws = []
    for g, t in (('KIND', v(ANON, PRIV, SHARED)), ('FORK', v(0, 1)), ('WIPE', v(0, 1))):
        ws += [Watch(g, X, targets=t, idx=[xc]), Watch(g, Y, targets=t)]
    ws.append(Watch('CALLS', SAddr('c', cpu, None, None), targets=v(0, 1), idx=[cpu]))
    ex.watches = ws
    return z3.And(z3.ULT(xb, spec['stride']), xc >= 0, z3.ULT(yb, bv64(2 * PAGE)), cpu >= 0, cpu < spec['ncpu'])

# ------------------------------------------------------------------------------------------------
def post(ex, st, spec, ok, fld, robj, what):
    """state after (range) creation"""
    g = st.g
    if not ok:
        exc = z3.BoolVal(bool(g['munmap_failed']))
        for lo, hi, nm in g['owned']:
            if nm not in spec.get('pre_maps', ()): ex.oblige(st, what + ' failed: its mapping is released', z3.Or(exc, lo == hi), ('RES',), cont=False)
        for f in g['fds']: ex.oblige(st, what + ' failed: its descriptor is closed', z3.Not(f['open']), ('RES',), cont=False)
        for nm, p in g['heap']:
            if nm not in spec.get('pre_heap', ()): ex.oblige(st, what + ' failed: its heap memory is released', z3.Or(exc, z3.BoolVal(not st.objs[nm].alive)), ('RES',), cont=False)
        ex.oblige(st, what + ' fails only when a call it makes fails or the parameters are refused', z3.Or(z3.BoolVal(bool(g['syscfail'] or g['cbfail'])), spec['refuse']), ('ACCEPT',), cont=False)
        return
    T = ('LAYOUT',)
    ex.oblige(st, what + ' succeeded: exactly one mapping is kept', z3.BoolVal(len(g['owned']) == 1), T + ('RES',), cont=False)
    if len(g['owned']) != 1: return
    ex.oblige(st, what + ' succeeded although a call failed', z3.BoolVal(not (g['cbfail'])), ('INIT',), cont=False)
    lo, hi, nm = g['owned'][0]; base = spec['base'](st); k = spec['k']; nc = spec['ncpu']
    ar = st.objs[nm]
    for f in g['fds']: ex.oblige(st, what + ' succeeded: the init file descriptor is closed', z3.Not(f['open']), ('RES',), cont=False)
    ex.oblige(st, 'base is aligned on the stride', (base & (spec['stride'] - 1)) == 0, T, cont=False)
    ex.oblige(st, 'header pages lie below the base', hi - lo == spec['range_len'] + bv64(2 * PAGE), T + ('RES',), cont=False)
    R = fld('rseq_mempool_range')
    rd = lambda f, n=8: ar.read(z3.simplify(robj + bv64(R(f))), n)
    d = z3.simplify(base - robj)
    ex.oblige(st, 'range structure lies in the second header page', z3.BoolVal(R('SIZE') <= cval(d) <= PAGE) if is_const(d) else z3.And(z3.UGE(robj, lo + bv64(PAGE)), z3.ULE(robj + bv64(R('SIZE')), base)), T, cont=False)
    ex.oblige(st, 'range structure is found by masking an item address', robj == base - bv64(spec['rho']), T, cont=False)
    ex.oblige(st, 'range.base is the base', rd('base') == base, T, cont=False)
    ex.oblige(st, 'range.pool is the pool', rd('pool') == spec['pool'](st), T, cont=False)
    ex.oblige(st, 'range remembers the mapping it owns', z3.And(rd('mmap_addr') == lo, rd('mmap_len') == hi - lo), ('RES', 'LAYOUT'), cont=False)
    ex.oblige(st, 'range.header is the header', rd('header') == lo, T + ('FORKISO',), cont=False)
    ex.oblige(st, 'range starts unused', rd('next_unused') == 0, T, cont=False)
    ex.oblige(st, 'range.init is the init stripe (COW_INIT) or NULL', rd('init') == z3.If(spec['cow'], base + (z3.SignExt(32, nc) << k), bv64(0)), T, cont=False)
    bm = rd('alloc_bitmap')
    live = [(n, p) for n, p in g['heap'] if st.objs[n].alive and n not in spec.get('pre_heap', ()) and n not in spec.get('keep_heap', lambda s: ())(st)]
    nit = z3.LShR(spec['stride'], spec['order'])
    if ex.valid(st, spec['robust']):
        ok_ = [z3.And(bm == p, st.objs[n].size * bv64(8) == st.objs[n].size * 8) for n, p in live] if False else []
        for n, p in live:
            o = st.objs[n]; size = bv64(o.size) if o.kind == 'struct' else o.size
            ok_.append(z3.And(bm == p, z3.UGE(size << 3, nit)))
        ex.oblige(st, 'robust range: bitmap with a bit per item', z3.Or(ok_ + [FALSE]), T + ('RES',), cont=False)
        ex.oblige(st, 'robust range: no other heap memory', z3.BoolVal(len(live) == 1), ('RES',), cont=False)
    else:
        ex.oblige(st, 'non-robust range: no bitmap and no heap memory', z3.And(bm == 0, z3.BoolVal(not live)), T + ('RES',), cont=False)
    # mapping kinds and fork behaviour at arbitrary bytes
    X, Y = spec['X'](st), spec['Y'](st)
    xc = spec['xc']; ns = nc + z3.If(spec['cow'], BV(1, 32), BV(0, 32)) + z3.If(spec['robust'], BV(1, 32), BV(0, 32))
    st.assume(xc < ns)
    K, F, W = (lambda q: [st.objs[n].readbyte(q) for n in ('KIND', 'FORK', 'WIPE')])(X)
    ex.oblige(st, 'COW_INIT: every CPU stripe is a private copy-on-write mapping of the init file', z3.Implies(z3.And(spec['cow'], xc < nc), K == PRIV), ('COWSHARE', 'LAYOUT'), cont=False)
    ex.oblige(st, 'COW_INIT: the init stripe is the shared mapping of the init file', z3.Implies(z3.And(spec['cow'], xc == nc), K == SHARED), ('COWSHARE', 'LAYOUT'), cont=False)
    ex.oblige(st, 'COW_ZERO: every stripe is private anonymous memory', z3.Implies(z3.Not(spec['cow']), K == ANON), ('FORKISO', 'LAYOUT'), cont=False)
    ex.oblige(st, 'memory which is not private anonymous is not inherited by children', z3.Implies(K != ANON, F == 1), ('FORKISO',), cont=False)
    ex.oblige(st, 'COW_ZERO: memory is inherited by children', z3.Implies(z3.Not(spec['cow']), z3.And(F == 0, W == 0)), ('FORKISO',), cont=False)
    K, F, W = (lambda q: [st.objs[n].readbyte(q) for n in ('KIND', 'FORK', 'WIPE')])(Y)
    ex.oblige(st, 'header is private anonymous memory inherited by children', z3.And(K == ANON, F == 0), ('FORKISO', 'LAYOUT'), cont=False)
    ex.oblige(st, 'header page with the range structure is not wiped in children', z3.Implies(z3.UGE(spec['yb'], bv64(PAGE)), W == 0), ('FORKISO',), cont=False)
    ex.oblige(st, 'COW_INIT: marker page is wiped in children', z3.Implies(z3.And(spec['cow'], z3.ULT(spec['yb'], bv64(PAGE))), W == 1), ('FORKISO',), cont=False)
    ex.oblige(st, 'COW_INIT: marker is set', z3.Implies(spec['cow'], ar.readbyte(z3.simplify(lo)) == 1), ('FORKISO',), cont=False)
    n = st.objs['CALLS'].readbyte(SAddr('c', spec['cpu'], None, None))
    ex.oblige(st, 'init callback called exactly once per CPU when set', z3.Implies(z3.And(spec['init_set'], z3.Not(spec['global'])), n == 1), ('INIT',), cont=False)
    n1 = st.objs['CALLS'].readbyte(SAddr('c', BV(-1, 32), None, None))
    ex.oblige(st, 'init callback called exactly once for a global pool', z3.Implies(z3.And(spec['init_set'], spec['global']), n1 == 1), ('INIT',), cont=False)
    ex.oblige(st, 'init callback not called when not set', z3.Implies(z3.Not(spec['init_set']), z3.And(n == 0, n1 == 0)), ('INIT',), cont=False)

def c_range(spec, fld):
    """contract of rseq_mempool_range_create as verified by run_range"""
    def f(ex, st, a, rt):
        A = fld('rseq_mempool_attr'); P = fld('rseq_mempool'); R = fld('rseq_mempool_range'); C = spec['C']
        pool = a[0]; T = ('LAYOUT',)
        po = next((o for o in st.objs.values() if o.kind == 'struct' and z3.simplify(o.base - pool).eq(bv64(0))), None)
        if po is None: raise Unsupported('range creation on an unknown pool')
        ra = lambda fn, n=8: po.read(P('attr') + A(fn), n)
        k = spec['k']
        pre = [('stride', ra('stride') == spec['stride']), ('stride order', z3.And(z3.UGE(k, bv64(12)), z3.ULE(k, bv64(61)))), ('CPU count', z3.And(ra('max_nr_cpus', 4) == spec['ncpu'], spec['ncpu'] > 0)),
               ('length fits', z3.ULE(z3.SignExt(32, spec['ncpu']) + bv64(5), z3.LShR(bv64(-1), k))),
               ('item order', z3.And(z3.SignExt(32, po.read(P('item_order'), 4)) == spec['order'], z3.UGE(spec['order'], bv64(3)), z3.ULE(spec['order'], k))),
               ('policy', ra('populate_policy', 4) == z3.If(spec['cow'], BV(C['COW_INIT'], 32), BV(C['COW_ZERO'], 32))),
               ('type', ra('type', 4) == z3.If(spec['global'], BV(C['T_GLOBAL'], 32), BV(C['T_PERCPU'], 32))), ('one CPU when global', z3.Implies(spec['global'], z3.And(spec['ncpu'] == 1, z3.Not(spec['cow'])))),
               ('robust', (ra('robust_set', 1) != 0) == spec['robust']), ('init', z3.And((ra('init_set', 1) != 0) == spec['init_set'], z3.Implies(spec['init_set'], z3.And(ra('init_func') == spec['init_func'], ra('init_priv') == spec['init_priv'])))),
               ('first range of the pool', po.read(P('nr_ranges'), 8) == 0)]
        for n, c in pre: ex.oblige(st, 'range creation precondition: ' + n, c, T)
        s2 = st.copy(); MD.set_errno(ex, s2, fresh('errno', 32)); s2.g['syscfail'] = True
        n = st.g['nmap']; st.g['nmap'] = n + 1
        p = z3.BitVec('base%d' % n, 64); ln = spec['range_len']; lo, hi = z3.simplify(p - bv64(2 * PAGE)), z3.simplify(p + ln)
        st.assume((p & (spec['stride'] - 1)) == 0, (p & bv64(PAGE - 1)) == 0, z3.UGE(p, bv64(1 << 21)), z3.ULT(p, bv64(1 << 46)), z3.ULT(ln, bv64(1 << 46)))
        ar = st.add(Arena('map%d' % n, lo, z3.simplify(hi - lo), zero=True)); st.g['mapped'] = p
        st.g['owned'] = st.g['owned'] + [(lo, hi, 'map%d' % n)]
        robj = z3.simplify(p - bv64(spec['rho'])); w = lambda fn, v: ar.write(z3.simplify(robj + bv64(R(fn))), 8, v)
        w('pool', pool); w('header', lo); w('base', p); w('mmap_addr', lo); w('mmap_len', z3.simplify(hi - lo))
        cow = z3.is_true(spec['cow']); rob = z3.is_true(spec['robust'])
        if cow: w('init', z3.simplify(p + (z3.SignExt(32, spec['ncpu']) << k))); ar.write(lo, 1, BV(1, 8))
        if rob:
            i = len(st.g['heap']); nm = 'heap%d' % i; q = z3.BitVec('&' + nm, 64)
            st.assume(z3.UGE(q, bv64(1 << 47)), z3.ULT(q, bv64((1 << 47) + (1 << 46))), (q & bv64(15)) == 0)
            cnt = z3.UDiv(z3.LShR(spec['stride'], spec['order']) + bv64(63), bv64(64))
            o = Arena(nm, q, z3.simplify(cnt << 3), zero=True); o.heap = True; st.add(o); st.g['heap'] = st.g['heap'] + [(nm, q)]; w('alloc_bitmap', q)
        nc = z3.SignExt(32, spec['ncpu'])
        def kind(X, old):
            if X.kind == 'h' or not cow: return BV(ANON, 8)
            return z3.If(z3.ULT(X.c, nc), BV(PRIV, 8), z3.If(X.c == nc, BV(SHARED, 8), BV(ANON, 8)))
        st.objs['KIND'].log.append(('c', lambda X: TRUE, kind))
        if cow:
            st.objs['FORK'].log.append(('c', lambda X: z3.BoolVal(X.kind == 's'), lambda X, old: BV(1, 8)))
            st.objs['WIPE'].log.append(('c', lambda X: z3.And(z3.BoolVal(X.kind == 'h'), z3.ULT(X.b, bv64(PAGE))) if X.kind == 'h' else FALSE, lambda X, old: BV(1, 8)))
        if z3.is_true(spec['init_set']):
            st.objs['CALLS'].log.append(('c', lambda X: (X.c == BV(-1, 32)) == spec['global'], lambda X, old: BV(1, 8)))
        po.write(P('nr_ranges'), 8, bv64(1)); ex.note_write(po.name, P('nr_ranges'), 8)
        return [ret(st, robj), ret(s2, bv64(0))]
    return f

def run_create(mod, C, cfg, decide=None, deadline=None, ranges=True, entry='rseq_mempool_create'):
    """cfg: cow, robust, init (bool), type ('percpu'/'global'), attr (False: NULL)"""
    ex = Engine(mod, {}); ex.decide = set(decide) if decide else None; ex.deadline = deadline
    ex.func = '%s[%s]' % (entry, ','.join('%s=%s' % (k, cfg[k]) for k in sorted(cfg))); ex.list_unroll = 6
    st = State(); setup_ghost(st)
    ex.page_len = lambda st: bv64(PAGE)
    fld = lambda s: (lambda f: o_(C, s, f))
    A = fld('rseq_mempool_attr')
    spec = {}
    k = z3.BitVec('stride_order', 64); order = z3.BitVec('item_order', 64)
    name = z3.BitVec('pool_name', 64); ilen = z3.BitVec('item_len', 64)
    if cfg['attr']:
        at = Obj('attr', z3.BitVec('&attr', 64), A('SIZE'), const=True); st.add(at)
        st.assume(z3.UGT(at.base, bv64(1 << 48)), z3.ULT(at.base, bv64(1 << 49)))
        glob = cfg['type'] == 'global'
        at.write(A('init_set'), 1, BV(int(cfg['init']), 8)); at.write(A('robust_set'), 1, BV(int(cfg['robust']), 8))
        at.write(A('type'), 4, BV(C['T_GLOBAL'] if glob else C['T_PERCPU'], 32))
        pol = z3.BitVec('policy', 32); at.write(A('populate_policy'), 4, pol)
        if cfg['cow'] is None: st.assume(pol != C['COW_INIT'], pol != C['COW_ZERO'])
        else:
            pol = BV(C['COW_INIT'] if cfg['cow'] else C['COW_ZERO'], 32); at.write(A('populate_policy'), 4, pol)
        pset = freshb('poison_set'); poison = z3.BitVec('poison', 64)
        at.write(A('poison_set'), 1, z3.If(pset, BV(1, 8), BV(0, 8))); at.write(A('poison'), 8, poison)
        ncpu_a = z3.BitVec('attr_cpus', 32); at.write(A('max_nr_cpus'), 4, ncpu_a)
        stride_a = z3.BitVec('attr_stride', 64); maxr = z3.BitVec('attr_max_ranges', 64); at.write(A('max_nr_ranges'), 8, maxr)
        initf = z3.BitVec('attr_init_func', 64); initp = z3.BitVec('attr_init_priv', 64); at.write(A('init_func'), 8, initf); at.write(A('init_priv'), 8, initp)
        aptr = at.base; cow = bool(cfg['cow']) and not glob; robust = cfg['robust']; init = cfg['init']
    else:
        aptr = bv64(0); cow = C['COW_INIT'] == 0; robust = init = glob = False; ncpu_a = BV(0, 32); stride_a = bv64(0); poison = bv64(0); pset = FALSE; maxr = bv64(0); initf = initp = bv64(0)
    auto = z3.BitVec('possible_cpus', 32); st.assume(auto >= 0)
    if 'name' in cfg: st.assume(name != 0 if cfg['name'] else name == 0)
    if 'auto' in cfg: st.assume(ncpu_a == 0 if cfg['auto'] else ncpu_a != 0)
    # the stride is 0 (default), a power of two 2^k, or something else
    sk = cfg.get('stride', 'pow2') if cfg['attr'] else 'default'
    if sk == 'default': kk = bv64(C['STRIDE'].bit_length() - 1); k = kk; st_in = bv64(0)
    elif sk == 'pow2':
        st.assume(z3.ULT(k, bv64(64))); st_in = bv64(1) << k
        ex.pow2.append((z3.simplify(st_in), k))
    else: st_in = stride_a; st.assume(st_in != 0, (st_in & (st_in - 1)) != 0)
    if cfg['attr']: at.write(A('stride'), 8, z3.simplify(st_in))
    stride = z3.simplify(bv64(1) << k)
    # item order: smallest power of two >= max(item_len, 8)
    order_bad = z3.UGT(ilen, bv64(1 << 63))
    st.assume(z3.If(order_bad, order == 0, z3.And(z3.UGE(order, bv64(3)), z3.ULE(order, bv64(63)), z3.ULE(ilen, bv64(1) << order), z3.Or(order == 3, z3.UGT(ilen, bv64(1) << (order - 1))))))
    ncpu = z3.If(ncpu_a == 0, auto, ncpu_a) if not glob else BV(1, 32)
    bad = [order_bad, z3.BoolVal(cfg['attr'] and cfg['cow'] is None)]
    if not glob: bad += [ncpu_a < 0, ncpu <= 0]
    bad += [TRUE] if sk == 'other' else [z3.UGT(order, k), z3.ULT(k, bv64(12))]
    einval = z3.simplify(z3.Or(bad))
    n64 = z3.SignExt(32, ncpu) + bv64(5)
    toobig = z3.UGT(n64, z3.LShR(bv64(-1), k))          # stride * (ncpu + 5) > SIZE_MAX
    spec.update(k=k, stride=stride, ncpu=z3.simplify(ncpu), cow=z3.BoolVal(cow), robust=z3.BoolVal(robust), init_set=z3.BoolVal(init), init_func=initf, init_priv=initp, order=order,
                name=name, auto=auto, refuse=z3.Or(einval, toobig), rho=C['RHO'])
    spec['global'] = z3.BoolVal(glob)
    spec['pool'] = lambda s: s.g['heap'][0][1]
    spec['keep_heap'] = lambda s: [s.g['heap'][0][0]] + s.g.get('namebuf', [])
    spec['range_len'] = range_len(spec); spec['nstripes'] = nstripes(spec)
    wfacts = mk_watches(ex, spec); ex_w = wfacts
    st.assume(z3.Implies(z3.Not(einval), wfacts))
    spec['C'] = C
    ex.models = mk_models(C, spec)
    if ranges: ex.contracts['rseq_mempool_range_create'] = c_range(spec, fld)
    f = mod.funcs[entry]
    outs = ex.call_func(st, f, [name, ilen, aptr])
    P = fld('rseq_mempool')
    ex.nret = 0; ex.naborts = 0; rets = []
    for kind, s, v in outs:
        ex.func_st = s
        if kind == 'abort':
            ex.naborts += 1
            ex.oblige(s, 'creation never stops the program (%s)' % v, z3.BoolVal(bool(s.g['munmap_failed'])), ('ACCEPT', 'NOABORT'), cont=False); continue
        if kind != 'ret': continue
        ex.nret += 1; rets.append(s)
        v = z3.simplify(v)
        for ok in (True, False):
            s2 = s.copy(); c = (v != 0) if ok else (v == 0)
            if not ex.feasible(s2, c): continue
            s2.assume(c)
            if not ok:
                ex.oblige(s2, 'refused creation sets errno', z3.Or(MD.get_errno(s2) == EINVAL, MD.get_errno(s2) == ENOMEM, z3.BoolVal(bool(s2.g['syscfail']))), ('ACCEPT',), cont=False)
                ex.oblige(s2, 'invalid parameters give EINVAL', z3.Implies(einval, MD.get_errno(s2) == EINVAL), ('ACCEPT',), cont=False)
                ex.oblige(s2, 'parameters are refused before anything is mapped', z3.Implies(einval, z3.BoolVal(not s2.g['owned'] and not s2.g['fds'])), ('ACCEPT',), cont=False)
                post(ex, s2, spec, False, fld, None, 'creation'); continue
            ex.oblige(s2, 'invalid parameters are refused', z3.Not(einval), ('ACCEPT',))
            ex.oblige(s2, 'the returned pool is the allocated structure', v == s2.g['heap'][0][1] if s2.g['heap'] else FALSE, ('LAYOUT',))
            po = s2.objs[s2.g['heap'][0][0]]
            ex.oblige(s2, 'the returned pool is alive', z3.BoolVal(po.alive), ('RES',))
            rd = lambda fn, n=8: po.read(P(fn), n)
            ra = lambda fn, n=8: po.read(P('attr') + A(fn), n)
            T = ('LAYOUT',)
            ob = lambda nm, c, t=T: ex.oblige(s2, nm, c, t, cont=False)
            ob('item size is the request rounded up to a power of two (at least a pointer)', rd('item_len') == bv64(1) << order)
            ob('item order matches', z3.SignExt(32, rd('item_order', 4)) == order)
            ob('free list starts empty', rd('free_list_head') == 0)
            ob('one range', rd('nr_ranges') == 1)
            ob('pool stride', ra('stride') == stride)
            ob('pool CPU count', ra('max_nr_cpus', 4) == spec['ncpu'])
            ob('pool range limit', ra('max_nr_ranges') == maxr)
            ob('pool type', ra('type', 4) == BV(C['T_GLOBAL'] if glob else C['T_PERCPU'], 32))
            ob('pool robustness', ra('robust_set', 1) == BV(int(robust), 8))
            ob('pool populate policy (always COW_ZERO for global pools)', ra('populate_policy', 4) == BV(C['COW_INIT'] if cow else C['COW_ZERO'], 32))
            ob('poisoning set as asked, or because of robust', (ra('poison_set', 1) != 0) == z3.Or(pset, z3.BoolVal(robust)))
            dflt = bv64(0x5555555555555555 if cow else 0)
            ob('poison value', z3.Implies(z3.Or(pset, z3.BoolVal(robust)), ra('poison') == z3.If(pset, poison, dflt)))
            ob('init callback recorded', z3.And(ra('init_set', 1) == BV(int(init), 8), z3.Implies(z3.BoolVal(init), z3.And(ra('init_func') == initf, ra('init_priv') == initp))), ('INIT',))
            nmv = rd('name')
            nb = [n for n, p in s2.g['heap'][1:] if s2.objs[n].kind == 'struct' and s2.objs[n].size == 1 and ex.valid(s2, nmv == p)]
            s2.g['namebuf'] = nb
            ob('pool name is a copy of the given name or NULL', z3.If(name == 0, nmv == 0, z3.BoolVal(bool(nb))), T + ('RES',))
            # range list: pool -> range -> pool
            node = fld('rseq_mempool_range')('node'); head = po.base + bv64(P('range_list'))
            robj = z3.simplify(rd('range_list') - bv64(node))
            if len(s2.g['owned']) == 1:
                ar = s2.objs[s2.g['owned'][0][2]]
                nd = z3.simplify(robj + bv64(node))
                ob('the range is the only element of the range list', z3.And(ar.read(nd, 8) == head, ar.read(z3.simplify(nd + bv64(8)), 8) == head, po.read(P('range_list') + 8, 8) == nd))
            post(ex, s2, spec, True, fld, robj, 'creation')
    ex.vacuity(rets)
    return ex

# ------------------------------------------------------------------------------------------------
# aligned_mmap_anonymous(page_size, len, alignment, pre_header, pre_header_len)
SIG_ALIGNED = ['i64', 'i64', 'i64', 'ptr', 'i64']
def run_aligned(mod, C, decide=None, deadline=None, k=None):
    ex = Engine(mod, {}); ex.decide = set(decide) if decide else None; ex.deadline = deadline; ex.func = 'aligned_mmap_anonymous'
    st = State(); setup_ghost(st); ex.page_len = lambda st: bv64(PAGE)
    k = z3.BitVec('align_order', 64) if k is None else bv64(k); al = z3.simplify(bv64(1) << k)
    ln = z3.BitVec('len', 64); ph = z3.BitVec('pre_len', 64)
    st.assume(z3.ULT(k, bv64(64)), z3.ULE(ph, bv64(1 << 20)), z3.ULE(ln, bv64(-1) - bv64(1 << 20) - al))
    if not is_const(al): ex.pow2.append((al, k))
    out = st.add(Obj('pre_header', z3.BitVec('&pre_header', 64), 8)); st.assume(z3.UGT(out.base, bv64(1 << 48)), z3.ULT(out.base, bv64(1 << 49)))
    spec = dict(range_len=ln, name=bv64(0), auto=BV(0, 32)); spec['base'] = lambda s: None
    ex.models = mk_models(C, spec)
    outs = ex.call_func(st, mod.funcs['aligned_mmap_anonymous'], [bv64(PAGE), ln, al, out.base, ph])
    bad = z3.Or(z3.ULT(ln, bv64(PAGE)), z3.ULT(al, bv64(PAGE)), (ln & (al - 1)) != 0, (ph & bv64(PAGE - 1)) != 0)
    rets = []
    for kind, s, v in outs:
        if kind == 'abort':
            ex.oblige(s, 'aligned mapping never stops the program (%s)' % v, z3.BoolVal(bool(s.g['munmap_failed'])), (), cont=False); continue
        rets.append(s); v = z3.simplify(v)
        for ok in (True, False):
            c = (v != 0) if ok else (v == 0)
            if not ex.feasible(s, c): continue
            s2 = s.copy(); s2.assume(c)
            if not ok:
                for lo, hi, _ in s2.g['owned']: ex.oblige(s2, 'failed aligned mapping keeps nothing', lo == hi, (), cont=False)
                ex.oblige(s2, 'aligned mapping fails only for invalid arguments or when mmap fails', z3.Or(bad, z3.BoolVal(bool(s2.g['syscfail']))), (), cont=False)
                ex.oblige(s2, 'errno set', z3.Or(z3.BoolVal(bool(s2.g['syscfail'])), MD.get_errno(s2) == EINVAL), (), cont=False)
                continue
            ex.oblige(s2, 'one mapping', z3.BoolVal(len(s2.g['owned']) == 1), (), cont=False)
            if len(s2.g['owned']) != 1: continue
            lo, hi, _ = s2.g['owned'][0]
            ex.oblige(s2, 'aligned', (v & (al - 1)) == 0, (), cont=False)
            ex.oblige(s2, 'mapping is exactly header and length', z3.And(lo == v - ph, hi == v + ln), (), cont=False)
            ex.oblige(s2, 'valid arguments', z3.Not(bad), (), cont=False)
            ex.oblige(s2, 'header pointer returned', s2.objs['pre_header'].read(0, 8) == v - ph, (), cont=False)
            ex.oblige(s2, 'memory untouched', z3.BoolVal(not s2.objs[s2.g['owned'][0][2]].log), (), cont=False)
    ex.vacuity(rets); return ex

def c_aligned(spec):
    def f(ex, st, a, rt):
        page, ln, al, php, ph = [z3.simplify(x) for x in a]
        bad = z3.Or(z3.ULT(ln, bv64(PAGE)), z3.ULT(al, bv64(PAGE)), (al & (al - 1)) != 0, (ln & (al - 1)) != 0, (ph & bv64(PAGE - 1)) != 0)
        ex.oblige(st, 'aligned mapping: page size', page == PAGE, ('LAYOUT',))
        ex.oblige(st, 'aligned mapping: length within the verified contract', z3.And(z3.ULE(ph, bv64(1 << 20)), z3.ULE(al, bv64(1 << 63)), z3.ULE(ln, bv64(-1) - bv64(1 << 20) - al)), ('LAYOUT',))
        outs = []
        if ex.feasible(st, bad):
            s3 = st.copy(); s3.assume(bad); MD.set_errno(ex, s3, EINVAL); outs.append(ret(s3, bv64(0)))
            if not ex.feasible(st, z3.Not(bad)): return outs
            st.assume(z3.Not(bad))
        s2 = st.copy(); MD.set_errno(ex, s2, fresh('errno', 32)); s2.g['syscfail'] = True
        n = st.g['nmap']; st.g['nmap'] = n + 1
        p = z3.BitVec('base%d' % n, 64); lo, hi = z3.simplify(p - ph), z3.simplify(p + ln)
        st.assume((p & (al - 1)) == 0, (p & bv64(PAGE - 1)) == 0, z3.UGE(p, bv64(1 << 21)), z3.ULT(p, bv64(1 << 46)), z3.ULT(ln, bv64(1 << 46)))
        ar = Arena('map%d' % n, lo, z3.simplify(hi - lo), zero=True); st.add(ar)
        st.g['owned'] = st.g['owned'] + [(lo, hi, 'map%d' % n)]; st.g['mapped'] = p
        st.objs['KIND'].log.append(('c', lambda X: TRUE, lambda X, old: BV(ANON, 8))); ex.note_write('KIND', None, None)
        outs += [ret(s2, bv64(0))]
        if not (is_const(php) and cval(php) == 0):
            for s in ex.store(st, php, 8, lo): outs.append(ret(s, p))
        else: outs.append(ret(st, p))
        return outs
    return f

def run_range(mod, C, cfg, decide=None, deadline=None, aligned=True, entry='rseq_mempool_range_create'):
    """another range for an existing pool (the pool is described by the representation invariant creation establishes)"""
    ex = Engine(mod, {}); ex.decide = set(decide) if decide else None; ex.deadline = deadline
    ex.func = '%s[%s]' % (entry, ','.join('%s=%s' % (k, cfg[k]) for k in sorted(cfg))); ex.list_unroll = 6
    st = State(); setup_ghost(st); ex.page_len = lambda st: bv64(PAGE)
    fld = lambda s: (lambda f: o_(C, s, f)); A = fld('rseq_mempool_attr'); P = fld('rseq_mempool')
    k = z3.BitVec('stride_order', 64) if 'k' not in cfg else bv64(cfg['k']); order = z3.BitVec('item_order', 64); ncpu = z3.BitVec('ncpu', 32); glob = cfg['type'] == 'global'
    if glob: ncpu = BV(1, 32)
    po = st.add(Obj('pool', z3.BitVec('&pool', 64), P('SIZE'))); st.assume(z3.UGT(po.base, bv64(1 << 48)), z3.ULT(po.base, bv64(1 << 49)))
    stride = z3.simplify(bv64(1) << k)
    if not is_const(stride): ex.pow2.append((stride, k))
    st.assume(z3.UGE(k, bv64(12)), z3.ULE(k, bv64(61)), z3.UGE(order, bv64(3)), z3.ULE(order, k), ncpu > 0, z3.ULE(z3.SignExt(32, ncpu) + bv64(5), z3.LShR(bv64(-1), k)))
    at = P('attr'); initf, initp, maxr, nr, name = (z3.BitVec(n, 64) for n in ('init_func', 'init_priv', 'max_nr_ranges', 'nr_ranges', 'name'))
    for f, n, v in (('init_set', 1, BV(int(cfg['init']), 8)), ('robust_set', 1, BV(int(cfg['robust']), 8)), ('type', 4, BV(C['T_GLOBAL'] if glob else C['T_PERCPU'], 32)),
                    ('populate_policy', 4, BV(C['COW_INIT'] if cfg['cow'] else C['COW_ZERO'], 32)), ('stride', 8, stride), ('max_nr_cpus', 4, ncpu), ('max_nr_ranges', 8, maxr), ('init_func', 8, initf), ('init_priv', 8, initp)):
        po.write(at + A(f), n, v)
    po.write(P('nr_ranges'), 8, nr); po.write(P('item_len'), 8, bv64(1) << order); po.write(P('item_order'), 4, z3.Extract(31, 0, order)); po.write(P('name'), 8, name)
    st.assume(nr != bv64(-1)); st.assume(name != 0 if cfg.get('name', 1) else name == 0)
    spec = dict(k=k, stride=stride, ncpu=ncpu, cow=z3.BoolVal(bool(cfg['cow'])), robust=z3.BoolVal(cfg['robust']), init_set=z3.BoolVal(cfg['init']), init_func=initf, init_priv=initp, order=order,
                name=name, auto=BV(1, 32), refuse=z3.And(maxr != 0, z3.UGE(nr, maxr)), rho=C['RHO'], pool=lambda s: s.objs['pool'].base)
    spec['global'] = z3.BoolVal(glob)
    spec['range_len'] = range_len(spec); spec['nstripes'] = nstripes(spec)
    st.assume(mk_watches(ex, spec))
    spec['closefail'] = cfg.get('closefail', 0)
    ex.models = mk_models(C, spec)
    if aligned: ex.contracts['aligned_mmap_anonymous'] = c_aligned(spec)
    before = po.copy()
    outs = ex.call_func(st, mod.funcs[entry], [po.base]); rets = []
    ex.nret = ex.naborts = 0
    for kind, s, v in outs:
        if kind == 'abort':
            ex.naborts += 1
            ex.oblige(s, 'range creation never stops the program (%s)' % v, z3.BoolVal(bool(s.g['munmap_failed'])), ('ACCEPT', 'NOABORT'), cont=False); continue
        ex.nret += 1; rets.append(s); v = z3.simplify(v)
        for ok in (True, False):
            c = (v != 0) if ok else (v == 0)
            if not ex.feasible(s, c): continue
            s2 = s.copy(); s2.assume(c); po2 = s2.objs['pool']
            nr2 = po2.read(P('nr_ranges'), 8)
            ex.oblige(s2, 'the range limit is respected', z3.Implies(z3.BoolVal(ok), z3.Not(spec['refuse'])), ('CAP', 'ACCEPT'), cont=False)
            ex.oblige(s2, 'number of ranges counts successful creations only', nr2 == (nr + 1 if ok else nr), ('CAP', 'LAYOUT'), cont=False)
            ex.oblige(s2, 'range creation changes nothing else in the pool', z3.And([po2.read(i, 1) == before.read(i, 1) for i in range(P('SIZE')) if not P('nr_ranges') <= i < P('nr_ranges') + 8]), ('LAYOUT',), cont=False)
            if not ok:
                ex.oblige(s2, 'exhausted range limit gives ENOMEM', z3.Implies(spec['refuse'], MD.get_errno(s2) == ENOMEM), ('CAP', 'ACCEPT'), cont=False)
                ex.oblige(s2, 'exhausted range limit is refused before anything is mapped', z3.Implies(spec['refuse'], z3.BoolVal(s2.g['nmap'] == 0)), ('CAP',), cont=False)
                post(ex, s2, spec, False, fld, None, 'range creation')
            else: post(ex, s2, spec, True, fld, v, 'range creation')
    ex.vacuity(rets)
    return ex
