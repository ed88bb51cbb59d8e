"""Contracts of malloc / zmalloc / malloc_init / free, checked against the real bodies."""
import z3, time
from .engine import *
from . import engine as E
from .houdini import Watch
from . import models as MD
from .pool import *

def popped(w, st): return not z3.simplify(w.head(st)).eq(z3.simplify(w.head0))

def new_range(w, ex, st, name):
    """a freshly created range (contract of range creation, success case)"""
    P = st.objs['pool']
    r = w.mkrange(st, name, P, 2)
    o = st.objs[name]
    st.assume(r.m == 0); r.m = bv64(0); r.nu = bv64(0)
    o.write(w.o('rseq_mempool_range', 'next_unused'), 8, bv64(0))
    for i in range(16): o.b.pop(w.o('rseq_mempool_range', 'node') + i, None)
    for q in st.g['ranges']: st.assume(r.base != q.base)
    st.assume(*w.nonnull((r.base, bv64(0))))
    if w.cfg['robust']:
        b = st.objs['B' + name]; b.M = None; b.log = []
    st.g['ranges'] = tuple(st.g['ranges']) + (r,)
    nr = w.o('rseq_mempool', 'nr_ranges')
    P.write(nr, 8, z3.simplify(P.read(nr, 8) + 1)); ex.note_write('pool', nr, 8)
    return r

def c_range_create(w):
    def f(ex, st, a, rt):
        ex.oblige(st, 'range creation called with the pool lock held', bool(st.locks.get('pool')), ('LOCK',))
        ex.oblige(st, 'range creation on this pool', a[0] == st.objs['pool'].base, ('MEM',))
        if 'R2' in st.objs: raise Unsupported('second range creation in one call')
        s2 = st.copy(); MD.set_errno(ex, s2, fresh('errno', 32)); s2.g['rc_failed'] = True
        r = new_range(w, ex, st, 'R2')
        # the new mapping is disjoint from every mapped range, so its items were never handed out
        for a_ in w.items: st.assume(z3.Or(w.ST(*a_) == NEVER, a_[0] != r.base))
        for i in [w.items[-1][1], bv64(0)]: st.assume(w.ST(r.base, i) == NEVER)
        return [('ret', st, st.objs['R2'].base), ('ret', s2, bv64(0))]
    return f

def base_models(w, ex):
    m = dict(MD.BASE)
    w.lockaddrs = lambda st: [('pool', st.objs['pool'].base + bv64(w.o('rseq_mempool', 'lock')))]
    return m

def alias_hook(w):
    """COW_INIT: a store to the shared init copy may show through not-yet-copied private CPU pages
    (modelled byte-wise: any subset of the bytes may show through)"""
    def on(ex, st, o, p, n, fn):
        if o.name != 'D' or not w.cfg['cow']: return
        p = w.dec(p)
        ininit = z3.simplify(p.c == w.ncpu64)
        if z3.is_false(ininit) or not ex.feasible(st, ininit): return
        ch = z3.Function('cowpage!%d' % next(E._ctr), B64, B64, B64, B64, z3.BoolSort())
        def cond(X): return z3.And(ininit, z3.ULT(X.c, w.ncpu64), X.base == p.base, X.i == p.i, z3.ULT(X.b - p.b, bv64(n) if isinstance(n, int) else n), ch(X.base, X.c, X.i, X.b))
        def val(X, old): return fn(X.b - p.b)
        o.log.append(('c', cond, val))
    def store(ex, st, o, p, n, v):
        on(ex, st, o, p, n, lambda d: z3.Extract(7, 0, z3.LShR(v, d << 3)) if v.size() == 64 else v)
    return store, on

def run_malloc(mod, C, cfg, kind, entry, scenario='ok', deadline=None, leaf={}, decide=None, as_set=False):
    """kind: plain/zero/init; as_set: the internal entry point with the arguments a pool set passes"""
    w = World(C, cfg); ex = Engine(mod, {}); ex.decide = set(decide) if decide else None; ex.func = '%s[%s,%s,head=%d]' % (entry, cfgname(cfg), scenario, cfg.get('head', 0)); ex.deadline = deadline
    st = w.build(ex)
    ex.models = base_models(w, ex); ex.page_len = lambda st: bv64(4096)
    a_s, b_s = w.item(st, 'a*'), w.item(st, 'b*')
    cpu = z3.BitVec('cpu*', 32); cpu64 = z3.SignExt(32, cpu); boff = z3.BitVec('byte*', 64)
    st.g['ranges'] = tuple(w.R)
    h = w.h
    front = (w.R[0].base, w.R[0].m)
    w.items = ([h] if h else []) + [a_s, b_s]
    ip = z3.BitVec('init_ptr', 64); ilen = z3.BitVec('init_len', 64)
    if kind == 'init':
        I = Arena('I', ip, ilen); I.align8 = False; I.const = True; st.add(I)
        st.assume(z3.UGE(ip, bv64(1 << 42)), z3.ULT(ip, bv64((1 << 42) + (1 << 41))), z3.ULT(ilen, bv64(1 << 41)))
        if scenario == 'ok': st.assume(z3.Or(ilen == 0, z3.ULT(boff, ilen)))
    tg = [BV(0, 8)] if kind == 'zero' else [st.objs['I'].M(ip + boff)] if kind == 'init' else []
    def targets(s): return tg if s.g.get('item') is not None else [w.poisonbyte(s.g['xcell'])]
    ex.watches = [Watch('D', lambda s: s.g.get('xcell'), targets=targets, idx=[cpu], when=ilen != 0 if kind == 'init' and scenario == 'ok' else None)]
    sh, fh = alias_hook(w); ex.hooks['arena_store'] = sh; ex.hooks['arena_fill'] = fh
    ex.hooks['cmp_points'] = lambda e, s: [boff]
    st.assume(cpu >= 0, cpu < w.ncpu, z3.ULT(boff, w.item_len))
    def on_lock(ex, st, nm):
        ex.oblige(st, 'pool lock taken once per allocation', 'dlock' not in st.g, ('LOCK',))
        items = w.items + [front]
        w.assume_inv(ex, st, items, [])
        st.g['dlock'] = ('snap', st.objs['D'].copy())
    def on_load(ex, st, o, off, addr, n, v):
        if o.name == 'D' and n == 8 and cfg['robust'] and scenario != 'corrupt' and st.locks.get('pool') and h:
            sa = w.dec(addr)       # instance of the poison invariant at the address read
            st.assume(z3.Implies(z3.And(sa.base == h[0], sa.i == h[1], z3.ULT(sa.c, w.nstripes - 1)), w.word(st.g['dlock'][1], sa) == w.poison))
    ex.hooks['load'] = on_load
    def on_unlock(ex, st, nm):
        chg = [r for r in st.g['ranges'] if not w.nu_of(st, r).eq(r.nu)]
        pop = popped(w, st)
        x = None
        if pop and h: x = h
        elif chg: x = (chg[0].base, chg[0].m)
        st.g['pop'] = pop
        if x is None:
            G = w.G0(); hd2 = h
        else:
            ex.oblige(st, 'item handed out is not live', w.ST(*x) != LIVE, ('EXCL',))
            ST = lambda b, i: z3.If(z3.And(b == x[0], i == x[1]), LIVE, w.ST(b, i)); N = z3.simplify(w.N - 1) if pop else w.N
            G = (ST, w.RK, w.NB, w.NI, N)
            st.g['item'] = x
            st.g['xcell'] = w.cell(x, cpu64, boff)
            hd2 = (w.NB(*h), w.NI(*h)) if pop and h else h
        rs = w.rngs(ex, st); hd = w.head(st)
        tag = ('INV', 'EXCL')
        for r, m, bm in rs:
            nu = w.nu_of(st, r)
            ex.oblige(st, 'frontier of %s is a whole number of items within the stride' % r.name, z3.And(nu == (m << w.ord), z3.ULE(m, w.nitems)), tag)
        ST, RK, NB, NI, N = G
        ex.oblige(st, 'free list head: empty iff no free item', (hd == 0) == (N == 0), tag + ('CAP',), cont=False)
        if hd2: ex.oblige(st, 'free list head is a free item of top rank', z3.Implies(hd != 0, z3.And(hd == w.fladdr(hd2), ST(*hd2) == FREE, RK(*hd2) == N)), tag + ('CAP',), cont=False)
        else: ex.oblige(st, 'free list head is a free item of top rank', hd == 0, tag + ('CAP',), cont=False)
        for nm2, c in w.inv_item(st.objs['D'], a_s, G, rs):
            ex.oblige(st, 'representation invariant of an arbitrary item (%s)' % nm2, c, tag + (('ROBUST',) if cfg['robust'] else ()), cont=False)
        ex.oblige(st, 'free list visits each item once', w.inv_pair(a_s, b_s, G), tag, cont=False)
        P = st.objs['pool']; L = w.o('rseq_mempool', 'range_list'); nd = w.o('rseq_mempool_range', 'node')
        if 'R2' in st.objs:
            ex.oblige(st, 'new range only when nothing free and newest range full', z3.And(w.head0 == 0, w.R[0].m == w.nitems), ('CAP', 'INV'), cont=False)
            R2 = st.objs['R2']; R0 = st.objs['R0']
            ex.oblige(st, 'new range linked first', z3.And(P.read(L, 8) == R2.base + nd, R2.read(nd, 8) == R0.base + nd,
                      R2.read(nd + 8, 8) == P.base + L, R0.read(nd + 8, 8) == R2.base + nd), ('LIST', 'LIFE', 'INV'), cont=False)
            ex.oblige(st, 'range count', P.read(w.o('rseq_mempool', 'nr_ranges'), 8) == w.nr0 + 1, ('CAP', 'INV'), cont=False)
        else:
            ex.oblige(st, 'range list unchanged', z3.And(P.read(L, 8) == st.objs['R0'].base + nd, st.objs['R0'].read(nd + 8, 8) == P.base + L), ('LIST', 'LIFE', 'INV'), cont=False)
            ex.oblige(st, 'range count unchanged', P.read(w.o('rseq_mempool', 'nr_ranges'), 8) == w.nr0, ('CAP', 'INV'), cont=False)
    ex.models.update(lock_models(w, on_lock, on_unlock))
    ex.contracts.update(leaf); ex.contracts['rseq_mempool_range_create'] = c_range_create(w)
    if scenario == 'corrupt':
        # robust pool, head item has a corrupted byte: allocation must not succeed with it
        xcell = w.cell(h, w.ncpu64 if cfg.get('initcopy') else cpu64, boff)
        st.g['xcell'] = xcell
        st.assume(st.objs['D'].readbyte(xcell) != w.poisonbyte(xcell))
    args = {'plain': [st.objs['pool'].base], 'zero': [st.objs['pool'].base], 'init': [st.objs['pool'].base, ip, ilen]}[kind]
    if as_set:
        if kind != 'init': ip, rl = bv64(0), z3.BitVec('request_len', 64); st.assume(z3.ULE(rl, w.item_len))
        else: rl = ilen; st.assume(z3.ULE(rl, w.item_len))
        args = [st.objs['pool'].base, z3.BoolVal(kind == 'zero'), ip, rl]
    outs = ex.call_func(st, mod.funcs[entry], args)
    ex.nret = 0; nab = 0
    for kind_, s, v in outs:
        s.trace = ['return of ' + entry]
        if kind_ == 'abort':
            nab += 1
            if scenario == 'ok':
                ex.oblige(s, 'no abort on a correct history', FALSE, ('ROBUST', 'NOABORT'), cont=False)
            continue
        ex.nret += 1
        if scenario == 'corrupt':
            ex.oblige(s, 'allocation of a corrupted item is reported', z3.Or(ilen_bad(kind, ilen, w)), ('ROBUST',), cont=False); continue
        post_malloc(w, ex, s, v, kind, ilen, ip, boff, cpu, s.g.get('xcell'))
    ex.naborts = nab; ex.vacuity([s for k, s, v in outs])
    return ex, w
def ilen_bad(kind, ilen, w): return [z3.UGT(ilen, w.item_len)] if kind == 'init' else [FALSE]

def post_malloc(w, ex, s, v, kind, ilen, ip, boff, cpu, xcell):
    v = z3.simplify(v)
    ex.oblige(s, 'lock released on return', not s.locks.get('pool'), ('LOCK',))
    x = s.g.get('item'); bad = z3.UGT(ilen, w.item_len) if kind == 'init' else FALSE
    if 'dlock' not in s.g:
        ex.oblige(s, 'NULL with EINVAL only when the initial content does not fit', z3.And(v == 0, bad, MD.get_errno(s) == 22), ('CAP', 'EXCL'))
        return
    ex.oblige(s, 'request too long is refused', z3.Not(bad), ('CAP', 'FRAME'))
    if x is None:
        ex.oblige(s, 'no item taken: returns NULL', v == 0, ('EXCL', 'CAP'))
        ex.oblige(s, 'failure reported as ENOMEM', MD.get_errno(s) == 12, ('CAP',))
        ex.oblige(s, 'fails only when no free item, newest range full and a new range cannot be created',
                  z3.And(w.head0 == 0, w.R[0].m == w.nitems) if s.g.get('rc_failed') else FALSE, ('CAP',))
        return
    ex.oblige(s, 'returns the item it took (inside the per-CPU area of one range, aligned on the item size)', v == w.iaddr(x), ('EXCL', 'CAP'))
    D = s.objs['D']
    if kind == 'zero':
        ex.oblige(s, 'zeroed on every CPU', D.readbyte(xcell) == 0, ('CONTENT',))
    if kind == 'init':
        ex.oblige(s, 'initial content on every CPU', z3.Implies(z3.ULT(boff, ilen), D.readbyte(xcell) == s.objs['I'].M(ip + boff)), ('CONTENT',))

def run_free(mod, C, cfg, scenario='ok', deadline=None, leaf={}, decide=None):
    entry = 'librseq_mempool_percpu_free'
    w = World(C, cfg); ex = Engine(mod, {}); ex.decide = set(decide) if decide else None; ex.func = '%s[%s,%s,head=%d,item in R%d]' % (entry, cfgname(cfg), scenario, cfg.get('head', 0), cfg.get('prange', 0)); ex.deadline = deadline
    st = w.build(ex); ex.models = base_models(w, ex); ex.page_len = lambda st: bv64(4096)
    pi = z3.BitVec('p_index', 64); st.assume(z3.ULT(pi, w.nitems)); w.mark(st, ('i', pi))
    p = (w.R[cfg.get('prange', 0)].base, pi); a_s, b_s = w.item(st, 'a*'), w.item(st, 'b*')
    cpu = z3.BitVec('cpu*', 32); cpu64 = z3.SignExt(32, cpu)
    st.g['ranges'] = tuple(w.R); st.g['item'] = p
    h = w.h; w.items = ([h] if h else []) + [p, a_s, b_s]
    st.assume(w.ST(*p) == (LIVE if scenario != 'double' else FREE))
    other = z3.Not(z3.And(a_s[0] == p[0], a_s[1] == p[1]))
    nextw = [Watch('D', w.fl(a_s).plus(bv64(j)), keep=[other]) for j in range(8)]
    # a byte of copy number cpu* (CPU copies, then the init copy) of the freed item / of item a*
    boff = z3.BitVec('byte*', 64)
    st.assume(cpu >= 0, cpu <= w.ncpu if cfg['cow'] else cpu < w.ncpu, z3.ULT(boff, w.item_len))
    cellp = w.cell(p, cpu64, boff); cella = w.cell(a_s, cpu64, boff)
    ex.watches = list(nextw)
    if cfg['poison'] or cfg['robust']: ex.watches.append(Watch('D', cellp, targets=[w.poisonbyte(cellp)], idx=[cpu]))
    if cfg['robust']: ex.watches.append(Watch('D', cella, targets=[w.poisonbyte(cella)], idx=[cpu], keep=[other]))
    sh, fh = alias_hook(w); ex.hooks['arena_store'] = sh; ex.hooks['arena_fill'] = fh
    def on_lock(ex, st, nm):
        ex.oblige(st, 'pool lock taken once', 'dlock' not in st.g, ('LOCK',))
        w.assume_inv(ex, st, w.items, [cella])
        st.g['dlock'] = ('snap', st.objs['D'].copy())
    def on_unlock(ex, st, nm):
        if scenario == 'double': return
        N = z3.simplify(w.N + 1); isp = lambda b, i: z3.And(b == p[0], i == p[1])
        ST = lambda b, i: z3.If(isp(b, i), FREE, w.ST(b, i)); RK = lambda b, i: z3.If(isp(b, i), N, w.RK(b, i))
        NB = lambda b, i: z3.If(isp(b, i), h[0], w.NB(b, i)) if h else w.NB(b, i)
        NI = lambda b, i: z3.If(isp(b, i), h[1], w.NI(b, i)) if h else w.NI(b, i)
        G = (ST, RK, NB, NI, N)
        rs = w.rngs(ex, st); hd = w.head(st); tag = ('INV', 'EXCL', 'CAP')
        for r in st.g['ranges']:
            ex.oblige(st, 'frontier unchanged by free', w.nu_of(st, r) == r.nu, tag)
        ex.oblige(st, 'free list head is the item freed', z3.And(hd == w.fladdr(p), hd != 0, N != 0), tag, cont=False)
        if ex.decide is None or ex.decide & set(tag + (('ROBUST',) if cfg['robust'] else ())):
            D0 = st.g['dlock'][1]
            for j in range(8): ex.oblige(st, 'link word of other items untouched (byte %d)' % j, z3.Implies(z3.Not(isp(*a_s)), st.objs['D'].readbyte(w.fl(a_s).plus(bv64(j))) == D0.readbyte(w.fl(a_s).plus(bv64(j)))), tag)
            for case, Dx, it, cc in (('other item', D0, a_s, z3.Not(isp(*a_s))), ('freed item', st.objs['D'], p, TRUE)):
                for nm2, c in w.inv_item(Dx, it, G, rs):
                    ex.oblige(st, 'representation invariant of an arbitrary item (%s, %s)' % (case, nm2), z3.Implies(cc, c), tag + (('ROBUST',) if cfg['robust'] else ()), cont=False)
        ex.oblige(st, 'free list visits each item once', w.inv_pair(a_s, b_s, G), tag, cont=False)
        for c in w.inv_poison(st.objs['D'], cella, ST): ex.oblige(st, 'free items of a robust pool hold the poison in every copy', c, ('INV', 'ROBUST', 'POISON'), cont=False)
        P = st.objs['pool']; L = w.o('rseq_mempool', 'range_list'); nd = w.o('rseq_mempool_range', 'node')
        ex.oblige(st, 'range list unchanged', z3.And(P.read(L, 8) == st.objs['R0'].base + nd, st.objs['R0'].read(nd + 8, 8) == P.base + L, P.read(w.o('rseq_mempool', 'nr_ranges'), 8) == w.nr0), ('LIST', 'LIFE', 'INV'), cont=False)
        if cfg['poison'] or cfg['robust']:
            inp = cpu < w.ncpu
            if not cfg['robust']: inp = z3.And(inp, z3.UGE(boff, bv64(8)))
            ex.oblige(st, 'freed item poisoned on every CPU', z3.Implies(inp, st.objs['D'].readbyte(cellp) == w.poisonbyte(cellp)), ('POISON',), cont=False)
        st.g['released'] = True
    ex.models.update(lock_models(w, on_lock, on_unlock))
    ex.contracts.update(leaf)
    old = w.guardD
    def guardD(ex, st, o, off, n, what, addr, val):
        if st.g.get('released'): ex.oblige(st, 'no access to the item after it was released', FALSE, ('EXCL', 'FRAME'))
        if what == 'load': return   # reads of the freed item's own memory (or under lock) are harmless
        old(ex, st, o, off, n, what, addr, val)
    st.objs['D'].guard = guardD
    outs = ex.call_func(st, mod.funcs[entry], [w.iaddr(p), w.stride])
    ex.nret = 0; ex.naborts = 0
    for k, s, v in outs:
        s.trace = ['return of ' + entry]
        if k == 'abort':
            ex.naborts += 1
            if scenario != 'double': ex.oblige(s, 'no abort on a correct history', FALSE, ('ROBUST', 'NOABORT'), cont=False)
            continue
        ex.nret += 1
        if scenario == 'double':
            ex.oblige(s, 'double free is reported, not performed', FALSE, ('ROBUST',), cont=False); continue
        ex.oblige(s, 'lock released on return', not s.locks.get('pool'), ('LOCK',))
        ex.oblige(s, 'free performed under the lock', 'released' in s.g, ('LOCK', 'CAP'))
    ex.vacuity([s for k, s, v in outs])
    return ex, w
