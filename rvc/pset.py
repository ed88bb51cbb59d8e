"""Contracts of pool sets (C14): create, add_pool, the three allocation entry points, destroy.

A set is an array of pools indexed by item order.  Set invariant: entries[i] is NULL or a pool whose item
order is i (item length 1 << i), and entries below the smallest order are NULL.  Other threads may add pools
whenever the set lock is not held.  The allocation of a pool and its destruction are used by contract
(rseq_mempool_percpu_* is verified under C05-C08; destroy returns 0 when the pool is gone, nonzero when it
still exists).  Statements over all entries are proved for an arbitrary slot S*."""
import time, z3
from .engine import *
from . import models as MD
from .houdini import Watch
from .models import ret, i32
NR = 64; MINO = 3
T = ('C14',)
B64 = z3.BitVecSort(64)
ORD = z3.Function('order_of_pool', B64, B64); ISP = z3.Function('is_pool', B64, z3.BoolSort())

class Entries(WordArena):
    def copy(s):
        o = object.__new__(Entries); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def locate(s, ex, st, addr, n):
        from .houdini import syms
        return '&set' in syms(addr) and ex.valid(st, inside(addr, n, s))
class Pools(Arena):
    """all pools of the process: a field of pool p is a function of p"""
    def __init__(s, C):
        Arena.__init__(s, 'pools', bv64(0), bv64(0)); s.C = C; s.align8 = False; s.pred = lambda a, n: FALSE
    def copy(s):
        o = object.__new__(Pools); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def split(s, addr):
        addr = z3.simplify(addr); k = 0; t = addr
        if addr.decl().kind() == z3.Z3_OP_BADD and is_const(addr.arg(0)):
            k = cval(addr.arg(0)); t = z3.simplify(addr - bv64(k))
        return t, k
    def locate(s, ex, st, addr, n):
        t, k = s.split(addr)
        return k + n <= s.C['rseq_mempool__SIZE'] and not is_const(t) and ex.valid(st, ISP(t))
    def read(s, addr, n):
        t, k = s.split(addr)
        if k == s.C['rseq_mempool__item_len'] and n == 8: return z3.simplify(bv64(1) << ORD(t))
        if k == s.C['rseq_mempool__item_order'] and n == 4: return z3.simplify(z3.Extract(31, 0, ORD(t)))
        return z3.Function('pool_field_%d_%d' % (k, n), B64, z3.BitVecSort(8 * n))(t)
    def write(s, *a): raise Unsupported('write to a pool')
    fill = write

class W: pass
def world(m, C, f, decide, tlimit):
    ex = Engine(m, dict(MD.BASE)); ex.func = f; ex.deadline = time.time() + tlimit; ex.hto = 8000
    if decide: ex.decide = set(decide)
    w = W(); st = State(); w.set = z3.BitVec('&set', 64); w.S = z3.BitVec('S*', 64); w.C = C
    lo, eo = C['rseq_mempool_set__lock'], C['rseq_mempool_set__entries']; sz = C['rseq_mempool_set__SIZE']
    st.assume(z3.UGE(w.set, bv64(1 << 44)), z3.ULT(w.set, bv64(1 << 45)), z3.Extract(3, 0, w.set) == 0, z3.ULT(w.S, bv64(NR)))
    w.n = (sz - eo) // 8
    E = Entries('entries', z3.simplify(w.set + bv64(eo)), bv64(8 * w.n), 8)
    L = Obj('setlock', z3.simplify(w.set + bv64(lo)), 40); st.add(L); st.add(E); st.add(Pools(C))
    w.saddr = z3.simplify(E.base + (w.S << 3)); ex.watches.append(Watch('entries', w.saddr))
    w.cur = lambda st: st.objs['entries'].readbyte(w.saddr)
    def inv(v, i): return [z3.Implies(v != 0, z3.And(ISP(v), ORD(v) == i, z3.UGE(i, bv64(MINO)), z3.ULT(i, bv64(NR)), z3.ULT(v, bv64(1 << 47)), z3.UGE(v, bv64(1 << 46))))]
    w.inv = inv
    st.assume(*inv(w.cur(st), w.S)); w.E0S = w.cur(st)
    def guard(ex, st, o, off, n, what, addr, val):
        if st.g.get('needlock'): ex.oblige(st, 'entries of the set accessed with the set lock held', bool(st.locks.get('set')), T)
    E.guard = guard
    def hload(ex, st, o, off, addr, n, v):
        if o.name == 'entries': st.assume(*inv(v, o.idx(addr)))
    ex.hooks['load'] = hload
    def isl(ex, st, p):
        if not ex.valid(st, p == L.base): raise Unsupported('unknown lock')
    def m_lock(ex, st, a, rt):
        isl(ex, st, a[0]); ex.oblige(st, 'set lock not already held', not st.locks.get('set'), T); st.locks['set'] = True
        if st.g.get('needlock'):
            old = w.cur(st); st.objs['entries'].havoc(); ex.note_write('entries', None, None); v = w.cur(st)
            st.assume(z3.Implies(old != 0, v == old), *inv(v, w.S))     # other threads may only have added pools
            if 'rel' in st.g: st.assume(*st.g['rel'](st))
            st.g['atlock'] = st.objs['entries'].copy()
        return ret(st, i32(0))
    def m_unlock(ex, st, a, rt):
        isl(ex, st, a[0]); ex.oblige(st, 'set lock held at unlock', bool(st.locks.get('set')), T); st.locks['set'] = False
        if 'on_unlock' in st.g: st.g['on_unlock'](st)
        return ret(st, i32(0))
    ex.models.update({'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock})
    return ex, st, w

def cands_for(w, lenv):
    def fits(i): return z3.UGE(bv64(1) << i, lenv)
    def cands(ex, st, h, ws, f, H):
        c = []; tr = st.g.get('tried')
        cur = next((x for x, wt, ev in ws if wt.arena == 'entries' and wt.addr.eq(w.saddr)), w.cur(st))
        c.append(z3.Implies(w.E0S != 0, cur == w.E0S))
        hs = [(x, z3.ZeroExt(64 - x.size(), x)) for x, ev in h if not z3.is_bool(x) and x.size() in (32, 64)]
        for x, y in hs:
            if tr is not None: c += [z3.Implies(z3.And(w.S_ok, z3.ULT(w.S, y)), tr), z3.Implies(tr, z3.ULT(w.S, y)), z3.ULE(y, bv64(NR))]
            if tr is not None:
                for b, ev in h:      # a loop that goes on until a 'found' value is set
                    if b is x: continue
                    q = b if z3.is_bool(b) else b != 0
                    c += [z3.Implies(z3.And(z3.Not(q), w.S_ok, z3.ULT(w.S, y)), tr), z3.Implies(z3.And(q, w.S_ok, z3.ULT(w.S, y - 1)), tr), z3.Implies(z3.And(tr, q), z3.ULT(w.S, y - 1))]
                    if not z3.is_bool(b) and b.size() == 64: c += [z3.Implies(q, ORD(b) == y - 1), z3.Implies(q, fits(ORD(b)))]
            if x.size() == 64: c += [z3.Implies(x != 0, ISP(x))] + [z3.Implies(x != 0, ORD(x) == y2) for x2, y2 in hs if x2 is not x]
        if 'ds' in st.g:
            d = st.g['ds']; f_ = st.g['failed']; c += [z3.Not(f_), d == z3.If(cur == w.E0S, BV(0, 8), BV(1, 8))]
            for x, y in hs: c += [z3.Implies(z3.ULT(w.S, y), d == z3.If(w.E0S == 0, BV(0, 8), BV(1, 8))), z3.Implies(z3.UGE(w.S, y), d == 0), z3.Implies(z3.UGE(w.S, y), cur == w.E0S), z3.Implies(z3.ULT(w.S, y), cur == 0),
                                  z3.Implies(z3.UGT(w.S, y), d == z3.If(w.E0S == 0, BV(0, 8), BV(1, 8))), z3.Implies(z3.ULE(w.S, y), d == 0), z3.Implies(z3.ULE(w.S, y), cur == w.E0S), z3.Implies(z3.UGT(w.S, y), cur == 0)]
        return c
    return cands

def alloc_fn(m):
    """the function behind the three pool allocation entry points"""
    found = None
    for n in ('rseq_mempool_percpu_malloc', 'rseq_mempool_percpu_zmalloc', 'rseq_mempool_percpu_malloc_init'):
        f = m.funcs.get(n)
        cs = {I.a[1][1][1:] for b in f.blocks.values() for I in b if I.op == 'call' and I.a[1][0] == 'glob'} if f else set()
        cs = {c for c in cs if c in m.funcs and [repr(t) for t, _ in m.funcs[c].params] == ['ptr', 'i1', 'ptr', 'i64']}
        found = cs if found is None else found & cs
    return sorted(found)[0] if found else None

ENTRY = {'plain': 'rseq_mempool_set_percpu_malloc', 'zero': 'rseq_mempool_set_percpu_zmalloc', 'init': 'rseq_mempool_set_percpu_malloc_init'}
def run_malloc(m, C, kind, decide=None, tlimit=200):
    fn = ENTRY[kind]; ex, st, w = world(m, C, fn, decide, tlimit)
    ln = z3.BitVec('len', 64); ip = z3.BitVec('init_ptr', 64); st.g['needlock'] = True
    fits = lambda i: z3.UGE(bv64(1) << i, ln)
    w.S_ok = z3.And(w.E0S != 0, fits(w.S))          # a pool present when the call starts, whose items are large enough
    st.g['tried'] = FALSE; st.g['got'] = bv64(0)
    ex.hooks['loop_cands'] = cands_for(w, ln)
    if kind == 'init': st.assume(ip != 0)
    def alloc(ex, st, pool, zeroed, iptr, ilen):
        ex.oblige(st, 'the request goes to a pool of the set', ISP(pool), T)
        ex.oblige(st, 'items of the chosen pool are large enough', fits(ORD(pool)), T)
        ex.oblige(st, 'every smaller pool with large enough items was found exhausted before a larger one is used', z3.Implies(z3.And(w.S_ok, z3.ULT(w.S, ORD(pool))), st.g['tried']), T)
        ex.oblige(st, 'an exhausted pool is not asked again', z3.Implies(ORD(pool) == w.S, z3.Not(st.g['tried'])), T)
        ex.oblige(st, 'no second item is allocated', st.g['got'] == 0, T)
        ex.oblige(st, 'zeroing is requested exactly for zeroed allocations', zeroed == z3.BoolVal(kind == 'zero'), T)
        if kind == 'init': ex.oblige(st, 'initial content and its length are passed on', z3.And(iptr == ip, ilen == ln), T)
        else: ex.oblige(st, 'no initial content is passed', iptr == 0, T)
        s1, s2 = st.copy(), st
        r = fresh('item'); s1.assume(r != 0); s1.g['got'] = r
        MD.set_errno(ex, s2, 12); s2.g['tried'] = z3.simplify(z3.Or(s2.g['tried'], ORD(pool) == w.S))
        return [ret(s1, r), ret(s2, bv64(0))]
    an = alloc_fn(m)
    if an: ex.contracts[an] = lambda ex, st, a, rt: alloc(ex, st, a[0], a[1], a[2], a[3])
    ex.contracts['rseq_mempool_percpu_malloc'] = lambda ex, st, a, rt: alloc(ex, st, a[0], FALSE, bv64(0), bv64(0))
    ex.contracts['rseq_mempool_percpu_zmalloc'] = lambda ex, st, a, rt: alloc(ex, st, a[0], TRUE, bv64(0), bv64(0))
    ex.contracts['rseq_mempool_percpu_malloc_init'] = lambda ex, st, a, rt: alloc(ex, st, a[0], FALSE, a[1], a[2])
    outs = ex.call_func(st, m.funcs[fn], [w.set] + ([ip, ln] if kind == 'init' else [ln])); rs = []
    for k, s, v in outs:
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'an allocation from a set does not stop the program', FALSE, T, cont=False); continue
        rs.append(s)
        ex.oblige(s, 'set lock released', not s.locks.get('set'), T, cont=False)
        ex.oblige(s, 'the item obtained from the pool is returned (none is lost)', v == s.g['got'], T, cont=False)
        ex.oblige(s, 'failure is reported only when every pool with large enough items is exhausted', z3.Implies(z3.And(v == 0, w.S_ok), s.g['tried']), T, cont=False)
        ex.oblige(s, 'failure is reported as ENOMEM', z3.Implies(v == 0, MD.get_errno(s) == 12), T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex

def run_add(m, C, decide=None, tlimit=100):
    fn = 'rseq_mempool_set_add_pool'; ex, st, w = world(m, C, fn, decide, tlimit)
    p = z3.BitVec('&pool', 64); o = ORD(p); st.g['needlock'] = True; w.S_ok = FALSE
    st.assume(ISP(p), p != 0, z3.UGE(p, bv64(1 << 46)), z3.ULT(p, bv64(1 << 47)), z3.UGE(o, bv64(MINO)), z3.ULT(o, bv64(NR)))
    slot = lambda E, i: E.readbyte(z3.simplify(E.base + (i << 3)))
    st.g['nun'] = 0
    def on_unlock(s):
        s.g['nun'] += 1; s.g['before'] = s.g.get('atlock'); s.g['after'] = s.objs['entries'].copy()
    st.g['on_unlock'] = on_unlock
    outs = ex.call_func(st, m.funcs[fn], [w.set, p]); rs = []
    for k, s, v in outs:
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'adding a pool does not stop the program', FALSE, T, cont=False); continue
        rs.append(s); v = z3.Extract(31, 0, v) if v.size() > 32 else v
        if s.g['nun'] != 1: raise Unsupported('add_pool with several critical sections')
        b, a = s.g['before'], s.g['after']; busy = slot(b, o) != 0
        ex.oblige(s, 'set lock released', not s.locks.get('set'), T, cont=False)
        ex.oblige(s, 'a second pool of the same size is refused with EBUSY', z3.Implies(busy, z3.And(v == -1, MD.get_errno(s) == 16)), T, cont=False)
        ex.oblige(s, 'a pool of a new size is accepted', z3.Implies(z3.Not(busy), v == 0), T, cont=False)
        ex.oblige(s, 'an accepted pool is found at its size', z3.Implies(v == 0, slot(a, o) == p), T, cont=False)
        ex.oblige(s, 'a refused pool changes nothing', z3.Implies(v != 0, slot(a, w.S) == slot(b, w.S)), T, cont=False)
        ex.oblige(s, 'the other pools of the set are kept', z3.Implies(w.S != o, slot(a, w.S) == slot(b, w.S)), T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex

def run_destroy(m, C, decide=None, tlimit=150):
    fn = 'rseq_mempool_set_destroy'; ex, st, w = world(m, C, fn, decide, tlimit); w.S_ok = FALSE
    ex.max_unroll = 0
    st.g['ds'] = BV(0, 8); st.g['failed'] = FALSE; st.g['freed'] = 0
    ex.hooks['loop_cands'] = cands_for(w, bv64(0))
    def destroy(ex, st, a, rt):
        p = a[0]
        s0 = None
        if ex.feasible(st, p == 0): s0 = st.copy(); s0.assume(p == 0); st.assume(p != 0)
        ex.oblige(st, 'only pools of the set are destroyed', ISP(p), T)
        hit = z3.And(p == w.E0S, w.E0S != 0)
        ex.oblige(st, 'no pool is destroyed twice', z3.Implies(hit, st.g['ds'] == 0), T)
        ex.oblige(st, 'the set still exists', not st.g['freed'], T)
        s1, s2 = st.copy(), st
        s1.g['ds'] = z3.simplify(z3.If(hit, s1.g['ds'] + 1, s1.g['ds']))
        r = fresh('ret', 32); s2.assume(r != 0); s2.g['failed'] = TRUE; s2.g['fret'] = r
        return [ret(s1, i32(0)), ret(s2, r)] + ([ret(s0, i32(0))] if s0 else [])
    ex.contracts['rseq_mempool_destroy'] = destroy
    def m_free(ex, st, a, rt):
        ex.oblige(st, 'only the set itself is freed, once', z3.And(a[0] == w.set, z3.BoolVal(not st.g['freed'])), T)
        st.g['freed'] = 1
        for n in ('entries', 'setlock'): st.objs[n].alive = False
        return ret(st)
    ex.models.update({'free': m_free, 'pthread_mutex_destroy': MD.m_nop32})
    outs = ex.call_func(st, m.funcs[fn], [w.set]); rs = []
    for k, s, v in outs:
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'destroying a set does not stop the program', FALSE, T, cont=False); continue
        rs.append(s); v = z3.Extract(31, 0, v) if v.size() > 32 else v; fr = z3.BoolVal(bool(s.g['freed'])); d = s.g['ds']
        ex.oblige(s, 'success only when every pool of the set was destroyed once', z3.Implies(v == 0, d == z3.If(w.E0S != 0, BV(1, 8), BV(0, 8))), T, cont=False)
        ex.oblige(s, 'success only when no pool failed', z3.Implies(v == 0, z3.Not(s.g['failed'])), T, cont=False)
        ex.oblige(s, 'the set is released exactly on success', (v == 0) == fr, T, cont=False)
        ex.oblige(s, 'failure is reported only when a pool failed', z3.Implies(v != 0, s.g['failed']), T, cont=False)
        if not s.g['freed']:
            ex.oblige(s, 'after a failure the remaining pools are exactly those of the set', w.cur(s) == z3.If(d == 1, bv64(0), w.E0S), T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex

def run_create(m, C, decide=None, tlimit=60):
    fn = 'rseq_mempool_set_create'; ex = Engine(m, dict(MD.BASE)); ex.func = fn; ex.deadline = time.time() + tlimit
    if decide: ex.decide = set(decide)
    st = State(); p = z3.BitVec('&set', 64); SZ = C['rseq_mempool_set__SIZE']
    st.g['fail'] = False; st.g['init'] = False; st.g['freed'] = False
    def alloc(n, zero):
        def f(ex, st, a, rt):
            sz = a[0] * a[1] if zero else a[0]
            ex.oblige(st, 'the set object has room for all entries', z3.UGE(sz, bv64(SZ)), T)
            s1, s2 = st.copy(), st
            s1.add(Obj('set', p, SZ, zero=zero)); s1.assume(p != 0, z3.UGE(p, bv64(1 << 44)), z3.ULT(p, bv64(1 << 45)), z3.Extract(3, 0, p) == 0)
            s2.g['fail'] = True; MD.set_errno(ex, s2, 12)
            return [ret(s1, p), ret(s2, bv64(0))]
        return f
    def m_init(ex, st, a, rt):
        ex.oblige(st, 'the lock of the set is initialized', a[0] == p + bv64(C['rseq_mempool_set__lock']), T); st.g['init'] = True; return ret(st, i32(0))
    def m_free(ex, st, a, rt):
        s0 = st; ex.oblige(st, 'only the set is freed', z3.Or(a[0] == 0, a[0] == p), T); st.g['freed'] = True; return ret(st)
    ex.models.update({'calloc': alloc('calloc', True), 'malloc': alloc('malloc', False), 'pthread_mutex_init': m_init, 'free': m_free})
    outs = ex.call_func(st, m.funcs[fn], []); rs = []
    for k, s, v in outs:
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'creating a set does not stop the program', FALSE, T, cont=False); continue
        rs.append(s)
        if s.g['fail']: ex.oblige(s, 'failure is reported as NULL', v == 0, T, cont=False); continue
        ex.oblige(s, 'a new set is returned with its lock initialized', z3.And(v == p, z3.BoolVal(s.g['init'])), T, cont=False)
        if 'set' in s.objs:
            for i in range((SZ - C['rseq_mempool_set__entries']) // 8):
                ex.oblige(s, 'a new set is empty', s.objs['set'].read(C['rseq_mempool_set__entries'] + 8 * i, 8) == 0, T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex
