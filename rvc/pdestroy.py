"""Contract of rseq_mempool_destroy (C09, C11, C12): any number of ranges, items, CPUs.

The range list is a doubly linked list of arbitrary length n: a range is identified by its list node t,
ISN(t) says that t is a node of the list, IX(t) its position.  Fields of ranges live in the arena 'ranges'
(a function of the node, plus a write log).  Statements over all ranges are proved for an arbitrary range r*;
a loop invariant proved for r* is instantiated at the nodes the code touches.  The free list is a list of
ranked nodes (ISFN, FRK); per-CPU memory is addressed as base + (stripe << stride order) + offset."""
import time, z3
from .engine import *
from . import engine as E
from .houdini import Watch
from . import models as MD
from .models import ret, i32
from .pool import World, SArena, SA, sh, RANGEF, POOLF, cfgname
B64 = z3.BitVecSort(64); BB = z3.BoolSort()
def UF(n, *s): return z3.Function(n, *s)
ISN, IX = UF('is_range', B64, BB), UF('position', B64, B64)
NX, PV = UF('next0', B64, B64), UF('prev0', B64, B64)
BASE, MM, NU, BM = UF('base_of', B64, B64), UF('nr_used', B64, B64), UF('next_unused', B64, B64), UF('bitmap_of', B64, B64)
TI, TN, TU = UF('sum_items', B64, B64), UF('sum_never', B64, B64), UF('sum_used', B64, B64)
ISFN, FRK, RNG, OFF = UF('is_free_node', B64, BB), UF('free_rank', B64, B64), UF('range_of_node', B64, B64), UF('offset_of_node', B64, B64)
BW = UF('bitmap_word', B64, B64, B64)

class NoDec:
    def dec(s, x): return None
class Fields(Arena):
    """mutable fields of all ranges: (node, field offset) -> word"""
    structural = True; unit = 8
    def __init__(s, D):
        Arena.__init__(s, 'ranges', bv64(0), bv64(0)); s.D = D; s.w = NoDec(); s.align8 = False; s.F = dict(D.F0)
    def copy(s):
        o = object.__new__(Fields); o.__dict__.update(s.__dict__); o.log = list(s.log); o.F = dict(s.F); return o
    def havoc(s):
        n = next(E._ctr); s.log = []; s.F = {k: UF('F%d!%d' % (k, n), B64, B64) for k in s.D.F0}
    def at(s, p, off): return p
    def locate(s, ex, st, addr, n): return s.D.node(ex, st, addr) is not None
    def readbyte(s, key):
        t, k = key if isinstance(key, tuple) else s.D.nodes[z3.simplify(key).get_id()][1]
        v = s.F[k](t)
        for e in s.log:
            t2, k2 = e[1]
            if k2 != k: continue
            c = z3.simplify(t2 == t); v = e[3] if z3.is_true(c) else v if z3.is_false(c) else z3.If(c, e[3], v)
        return z3.simplify(v)
    def read(s, addr, n):
        t, k = s.D.nodes[z3.simplify(addr).get_id()][1]
        if k in s.F and n == 8: return s.readbyte((t, k))
        return s.D.const_field(t, k, n)
    def write(s, addr, n, v):
        t, k = s.D.nodes[z3.simplify(addr).get_id()][1]
        if k not in s.F or n != 8: raise Unsupported('write to field %d of a range' % k)
        s.log.append(('w', (t, k), 8, v))
    def fill(s, *a): raise Unsupported('block write to ranges')
class RO(Arena):
    structural = True
    def __init__(s, name, D): Arena.__init__(s, name, bv64(0), bv64(0)); s.D = D; s.w = NoDec(); s.align8 = False
    def copy(s):
        o = object.__new__(s.__class__); o.__dict__.update(s.__dict__); return o
    def write(s, *a): raise Unsupported('write to ' + s.name)
    fill = write
    def readbyte(s, X): raise Unsupported('byte of ' + s.name)
class FreeWords(RO):
    """free-list links"""
    def locate(s, ex, st, addr, n): return n == 8 and s.D.walkish(addr) and ex.valid(st, ISFN(addr))
    def read(s, addr, n): return UF('free_link', B64, B64)(addr)
class Bitmaps(RO):
    def dec(s, addr):
        addr = z3.simplify(addr); ts = addr.children() if addr.decl().kind() == z3.Z3_OP_BADD else [addr]
        for x in ts:
            if x.get_id() in s.D.bmval: return s.D.bmval[x.get_id()][1], z3.simplify(z3.LShR(z3.simplify(addr - x), 3)), z3.simplify(addr - x), x
    def locate(s, ex, st, addr, n):
        d = s.dec(addr)
        if d is None: return False
        ex.oblige(st, 'allocation bitmap accessed inside its bounds', z3.And(d[3] == BM(d[0]), d[3] != 0, z3.ULT(d[1], s.D.nwords), z3.Extract(2, 0, d[2]) == 0, z3.BoolVal(n == 8)), ('MEM',))
        ex.oblige(st, 'allocation bitmap accessed before it is freed', z3.Implies(d[0] == s.D.r, z3.Not(st.g['bf'])), ('MEM', 'DRES'))
        if s.D.scen in ('ok', 'corrupt', 'retry'): st.assume(BW(d[0], d[1]) == 0)
        return True
    def read(s, addr, n): t, k, _, _ = s.dec(addr); return BW(t, k)
class Marker(RO):
    def locate(s, ex, st, addr, n):
        t, k = s.D.split(addr)
        return n == 1 and t.get_id() in s.D.bases and k == (1 << 64) - s.D.hdr
    def read(s, addr, n): return z3.If(s.D.acc, BV(1, 8), BV(0, 8))
class Data(SArena):
    def copy(s):
        o = object.__new__(Data); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def write(s, *a): raise Unsupported('write to the items during destruction')
    fill = write

class DWorld(World):
    def __init__(w, C, cfg, scen):
        World.__init__(w, C, cfg); w.scen = scen; w.modular = False; w.nodes = {}; w.bmval = {}; w.nuval = {}; w.keep = []
        w.noff = w.o('rseq_mempool_range', 'node'); w.rho = C['RHO']; w.n = z3.BitVec('nr_ranges', 64)
        w.r = z3.BitVec('r*', 64); w.acc = z3.Bool('accessible'); w.os = z3.BitVec('offset*', 64); w.cs = z3.BitVec('stripe*', 64); w.ks = z3.BitVec('word*', 64)
        w.L = z3.BitVec('N_live', 64); w.nwords = z3.LShR(w.nitems + bv64(63), 6); w.inst = {}; w.hs = {}
        f = lambda x: w.o('rseq_mempool_range', x)
        w.F0 = {f('node'): NX, f('node') + 8: PV, f('alloc_bitmap'): BM}
        w.kinst = {f('node'), f('node') + 8, f('alloc_bitmap')}
    def split(w, a):
        a = z3.simplify(a)
        if a.decl().kind() == z3.Z3_OP_BADD and is_const(a.arg(0)): k = cval(a.arg(0)); return z3.simplify(a - bv64(k)), k
        return a, 0
    def walkish(w, a):
        """terms which may be free-list nodes: not built from other addresses"""
        a = z3.simplify(a); return not is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
    def node(w, ex, st, addr):
        """field address -> (node, field offset) when the node is provably one of the list"""
        addr = z3.simplify(addr); t, k = w.split(addr)
        if addr.get_id() in w.nodes:
            z, ko = w.nodes[addr.get_id()][1]
            if ex.valid(st, ISN(z)): w.touch(ex, st, z); return z, ko
        if is_const(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
        for z, ko in ((t, k + w.noff), (z3.simplify(t + bv64(w.noff)), k)) if w.noff else ((t, k),):
            ko &= (1 << 64) - 1
            if ko < w.o('rseq_mempool_range', 'SIZE') and ex.valid(st, ISN(z)):
                w.nodes[addr.get_id()] = (addr, (z, ko)); w.touch(ex, st, z); return z, ko
        return None
    def inj(w, a, b): return z3.Implies(IX(a) == IX(b), a == b)
    def nfacts(w, t):
        v, p = NX(t), PV(t); LH = w.LH
        return [t != LH, z3.ULT(IX(t), w.n), t == BASE(t) - bv64(w.rho) + bv64(w.noff), z3.Extract(11, 0, BASE(t)) == 0,
                z3.UGE(BASE(t), bv64(1 << 45)), z3.ULT(BASE(t), bv64(1 << 46)),
                z3.If(IX(t) == w.n - 1, v == LH, z3.And(ISN(v), v != LH, IX(v) == IX(t) + 1, PV(v) == t)),
                z3.If(IX(t) == 0, p == LH, z3.And(ISN(p), p != LH, IX(p) == IX(t) - 1, NX(p) == t)),
                TI(IX(t) + 1) == TI(IX(t)) + w.nitems, TN(IX(t) + 1) == TN(IX(t)) + w.nitems - MM(t), TU(IX(t) + 1) == TU(IX(t)) + MM(t)] + \
               ([BM(t) != 0] if w.cfg['robust'] else [BM(t) == 0] if w.scen != 'retry' else [])
    def nufacts(w, t): return [z3.ULE(MM(t), w.nitems), z3.ULE(NU(t), w.stride), (NU(t) & (w.item_len - 1)) == 0, NU(t) == MM(t) << w.ord]
    def touch(w, ex, st, t):
        ids = st.g.get('touched', ())
        if t.get_id() in ids: return
        w.keep.append(t); st.g['touched'] = ids + (t.get_id(),)
        st.assume(*(w.nfacts(t) + [w.inj(t, w.r)]))
        b = z3.simplify(BASE(t)); w.bases[b.get_id()] = b; w.bnode = getattr(w, 'bnode', {}); w.bnode[b.get_id()] = (b, t)
        for y in ([] if w.modular else w.walkers()): st.assume(z3.Implies(ISFN(y), w.inj(t, RNG(y))))
    def walkers(w): return [y for hs in w.hs.values() for y in hs if not z3.is_bool(y) and y.size() == 64]
    def const_field(w, t, k, n):
        nm = None
        for f in RANGEF:
            if w.o('rseq_mempool_range', f) == k: nm = f
        if n != 8 or nm is None: raise Unsupported('field %d of a range' % k)
        b = z3.simplify(BASE(t))
        v = {'pool': w.P, 'base': b, 'header': z3.simplify(b - bv64(w.hdr)), 'mmap_addr': z3.simplify(b - bv64(w.hdr)), 'mmap_len': z3.simplify(w.total + bv64(w.hdr)),
             'init': z3.simplify(b + w.cpubytes) if w.cfg['cow'] else bv64(0), 'next_unused': NU(t)}.get(nm)
        if v is None: raise Unsupported('field ' + nm)
        if nm == 'next_unused': w.nuval[v.get_id()] = (v, t)
        return v
    # ---- structural addresses: the item index is part of the offset
    def _dec(w, t, nobase=False):
        s = World._dec(w, t, nobase)
        if s is None: return None
        return SA(s.base, s.c, bv64(0), z3.simplify(s.b + sh(s.i, w.ord)))
    def bound(w, sa, n):
        n = bv64(n) if isinstance(n, int) else n
        return {'c': z3.ULT(sa.c, w.nstripes), 'i': TRUE, 'b': z3.And(z3.ULE(n, w.stride), z3.ULE(sa.b, w.stride - n))}
    def locate(w, ex, st, addr, n):
        t, k = w.split(addr)
        if w.dec(addr) is None or (t.get_id() in w.bases and k >> 63): return False
        return World.locate(w, ex, st, addr, n)
    def shr_hook(w):
        def f(ex, st, a, b):
            if not b.eq(w.ord): return None
            a = z3.simplify(a)
            if a.eq(w.stride): return w.nitems
            for v, t in w.nuval.values():
                if a.eq(v): return MM(t)
                if a.eq(z3.simplify(w.stride - v)): return z3.simplify(w.nitems - MM(t))
            return None
        return f
    def and_hook(w):
        page = z3.simplify(bv64((1 << 64) - 4096))
        def f(ex, st, a, b):
            for x, y in ((a, b), (b, a)):
                if is_const(y) and y.eq(page):
                    t, k = w.split(x)
                    for z, ko in ((t, k + w.noff), (z3.simplify(t + bv64(w.noff)), k)):
                        ko &= (1 << 64) - 1
                        if ko == 0 and z.get_id() not in st.g.get('touched', ()) and not is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ex.valid(st, ISN(z)): w.touch(ex, st, z)
                        if ko == 0 and z.get_id() in st.g.get('touched', ()): return z3.simplify(BASE(z) - bv64(4096))    # the range header ends at the base, inside one page
            return None
        return f
    def split_hook(w, ex, st, addr):
        """an address which is the list head or a range, not known which"""
        t, k = w.split(addr)
        if is_const(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.eq(w.P): return None
        for z in ((t, z3.simplify(t + bv64(w.noff))) if w.noff else (t,)):
            if z.get_id() in st.g.get('touched', ()): return None
            c = z == w.LH
            if not ex.feasible(st, c) or not ex.valid(st, z3.Or(c, ISN(z))): continue
            outs = []
            s1 = st.copy(); s1.assume(c); outs.append((s1, z3.simplify(w.LH - (z - t) + bv64(k))))
            s2 = st.copy()
            try: s2.assume(z3.Not(c)); ok = ex.feasible(s2)
            except Infeasible: ok = False
            if ok: outs.append((s2, addr))
            return outs
        return None
    def instantiate(w, ex, st, t, k):
        """loop invariants over all ranges, at range t"""
        F = st.objs['ranges'].F
        for p in list(st.pc):
            q = w.inst.get(p.get_id())
            if q is not None and q[2].eq(F[q[1]]) and q[1] == k:
                st.assume(z3.substitute(p, (w.r, t), (q[3], q[2](t))))
    # ---- construction
    def make(w, ex):
        st = State(); C = w.C; cfg = w.cfg; st.assume(*w.params())
        P = Obj('pool', z3.BitVec('&pool', 64), w.o('rseq_mempool', 'SIZE')); w.P = P.base; st.add(P)
        st.assume(z3.UGE(P.base, bv64(1 << 44)), z3.ULT(P.base, bv64((1 << 44) + (1 << 40))), z3.Extract(3, 0, P.base) == 0)
        def pf(name, n, v): P.write(w.o('rseq_mempool', name), n, v)
        A = w.o('rseq_mempool', 'attr')
        def af(name, n, v): P.write(A + w.o('rseq_mempool_attr', name), n, v)
        pf('item_len', 8, w.item_len); pf('item_order', 4, w.ord32); pf('nr_ranges', 8, w.n)
        af('robust_set', 1, BV(int(cfg['robust']), 8)); af('stride', 8, w.stride); af('max_nr_cpus', 4, w.ncpu)
        af('poison_set', 1, BV(int(cfg['poison'] or cfg['robust']), 8)); af('poison', 8, w.poison)
        af('populate_policy', 4, BV(C['COW_INIT'] if cfg['cow'] else C['COW_ZERO'], 32))
        af('type', 4, BV(C['T_PERCPU'], 32) if cfg['cow'] else z3.BitVec('pool_type', 32))
        w.name = z3.BitVec('name', 64); pf('name', 8, w.name); st.assume(z3.Or(w.name == 0, z3.And(z3.UGE(w.name, bv64(1 << 43)), z3.ULT(w.name, bv64(1 << 44)))))
        w.lo = w.o('rseq_mempool', 'range_list'); w.LH = z3.simplify(P.base + bv64(w.lo))
        hn, hp = z3.BitVec('first', 64), z3.BitVec('last', 64); P.write(w.lo, 8, hn); P.write(w.lo + 8, 8, hp)
        LH, n = w.LH, w.n
        st.assume(z3.ULT(n, bv64(1 << 32)), z3.If(n == 0, z3.And(hn == LH, hp == LH), z3.And(ISN(hn), ISN(hp), IX(hn) == 0, IX(hp) == n - 1, hn != LH, hp != LH)))
        st.assume(TI(bv64(0)) == 0, TN(bv64(0)) == 0, z3.ULE(TN(n), TI(n)), z3.ULT(TI(n), bv64(1 << 60)), TI(n) - TN(n) == w.N + w.L, TU(bv64(0)) == 0, TU(n) == w.N + w.L, z3.ULT(w.N, bv64(1 << 59)), z3.ULT(w.L, bv64(1 << 59)))
        fh = z3.BitVec('free_head', 64); pf('free_list_head', 8, fh)
        st.assume(z3.If(w.N == 0, fh == 0, z3.And(ISFN(fh), FRK(fh) == w.N, fh != 0)))
        w.fh = fh; w.hs['head'] = [fh]
        # an arbitrary range
        st.assume(z3.Implies(n == 0, z3.Not(w.has_r())), w.has_r() == ISN(w.r), *[z3.Implies(w.has_r(), c) for c in w.nfacts(w.r)])
        if not cfg['cow']: st.assume(w.acc)
        ex.pow2 += [(w.stride, w.k), (w.item_len, w.ord)]
        b = z3.simplify(BASE(w.r)); w.bases[b.get_id()] = b
        R = Fields(w); R.guard = w.gR; st.add(R)
        D = Data('D', w); D.guard = w.gD; st.add(D)
        st.add(FreeWords('freelist', w)); st.add(Bitmaps('bitmaps', w)); st.add(Marker('marker', w))
        st.objs['freelist'].guard = w.gF
        P.guard = w.gP
        ex.and_hook = w.and_hook(); ex.shr_hook = w.shr_hook(); ex.canon_hook = w.canon; ex.hooks['split'] = w.split_hook
        ex.ext_hook = lambda x, m: (w.ncpu64 if x.eq(w.ncpu) else w.ord if x.eq(w.ord32) else None) if m == 64 else None
        for g in ('d', 'bf', 'fail', 'fpool', 'fname'): st.g[g] = FALSE
        return st
    def has_r(w): return z3.Bool('some_range')
    def canon(w, t):
        if t.decl().kind() != z3.Z3_OP_BADD: return t
        key = ('n', t.get_id())
        if key in w.cache: return w.cache[key][1]
        sa = World._dec(w, t, True); r = [x for x in (sa.base,) if x is not None] + [sh(sa.c, w.k), sh(sa.i, w.ord), sa.b]
        r = z3.simplify(z3.Sum(r)); w.cache[key] = (t, r); return r
    # ---- access discipline
    def gP(w, ex, st, o, off, n, what, addr, val):
        ex.oblige(st, 'the pool is not used after it is released', z3.Not(st.g['fpool']), ('MEM', 'DRES'))
    def gR(w, ex, st, o, off, n, what, addr, val):
        t, k = w.nodes[z3.simplify(addr).get_id()][1]
        ex.oblige(st, 'a range is not used after it is unmapped', z3.Implies(z3.And(w.has_r(), t == w.r), z3.Not(st.g['d'])), ('MEM', 'DRES'))
        if what == 'load' and k == w.o('rseq_mempool_range', 'next_unused'): st.assume(*[z3.Implies(ISN(t), c) for c in w.nufacts(t)])
        if what == 'load' and k in w.F0:
            w.instantiate(ex, st, t, k)
            if k == w.o('rseq_mempool_range', 'alloc_bitmap'):
                v = st.objs['ranges'].readbyte((t, k)); w.bmval[v.get_id()] = (v, t)
    def gD(w, ex, st, o, off, n, what, addr, val):
        ex.oblige(st, 'per-CPU memory is only used where it is mapped (not in a child process)', w.acc, ('MEM', 'DFORK'))
        if w.scen == 'ok' or w.scen == 'leak': w.poison_inst(st, addr)
    def poison_inst(w, st, addr):
        """every byte below the frontier of a range is poison on every CPU and in the init copy (everything is free)"""
        sa = w.dec(addr)
        for b, t in list(getattr(w, 'bnode', {}).values()):
            if b.eq(sa.base): st.g['pinst'] = st.g.get('pinst', ()) + ((sa.base, t),)
    def gF(w, ex, st, o, off, n, what, addr, val):
        ex.oblige(st, 'per-CPU memory is only used where it is mapped (not in a child process)', w.acc, ('MEM', 'DFORK'))
        v = UF('free_link', B64, B64)(z3.simplify(addr)); t = addr
        st.assume(z3.If(FRK(t) == 1, v == 0, z3.And(v != 0, ISFN(v), FRK(v) == FRK(t) - 1)))
    def fnfacts(w, y):
        r = RNG(y)
        if w.modular: return z3.Implies(ISFN(y), z3.And(y != 0, z3.UGE(FRK(y), bv64(1)), z3.ULE(FRK(y), w.N)))
        return z3.Implies(ISFN(y), z3.And(y != 0, z3.UGE(FRK(y), bv64(1)), z3.ULE(FRK(y), w.N), ISN(r), z3.And(w.nfacts(r) + w.nufacts(r)), y == BASE(r) + sh(z3.simplify(w.fl_c()), w.k) + OFF(y), z3.ULT(OFF(y), NU(r))))
    # ---- loop invariant candidates
    def cands(w, ex, st, h, ws, f, H):
        c = []; LH = w.LH; g = st.g; w.pre = pre = []
        h = [(x, ev) for x, ev in h if not x.decl().name().startswith('h_stack:')]
        key = (f.name, H); w.hs[key] = [x for x, ev in h]
        h64 = [x for x, ev in h if not z3.is_bool(x) and x.size() == 64]; h32 = [x for x, ev in h if not z3.is_bool(x) and x.size() == 32]
        outer = [x for k2, hs in w.hs.items() if k2 in ex.active and k2 != key for x in hs if not z3.is_bool(x) and x.size() == 64]
        zs = []
        for y, ev in h:
            if z3.is_bool(y) or y.size() != 64: continue
            for k in {0, w.noff}:
                if w.rangeish(ex, st, z3.simplify(ev + bv64(k))): zs.append(z3.simplify(y + bv64(k)))
        ixe = lambda z: z3.If(z == LH, w.n, IX(z))
        ozs = outer + ([z3.simplify(y + bv64(w.noff)) for y in outer] if w.noff else [])
        hr = w.has_r()
        for z in zs:
            e = ixe(z); c += [z3.Or(z == LH, ISN(z)), z3.ULE(e, w.n)]; pre.append(c[-2])
            if w.scen in ('corrupt', 'leak', 'inpool'): c.append(z3.Implies(hr, z3.UGE(IX(w.r), e)))
            if not w.modular:
                for y in outer: c.append(z3.Implies(ISFN(y), z3.UGE(IX(RNG(y)), e)))
            for y in h64:
                if y is z: continue
                c += [y == TI(e), y == TN(e), y == TU(e), y == TI(e) - TN(e), z == y, z3.Implies(z != LH, y == NX(z))]
                if w.noff: c += [z3.Implies(z != LH, y + bv64(w.noff) == NX(z)), z == y + bv64(w.noff)]
            gone = z3.ULT(IX(w.r), e)
            c += [z3.Implies(hr, g['d'] == gone), z3.Implies(hr, g['bf'] == z3.And(gone, BM(w.r) != 0))]
            for x, wt, ev in ws:
                if wt.arena != 'ranges': continue
                k = wt.addr[1]
                if not wt.addr[0].eq(w.r): continue
                tgt = [NX(w.r)] if k == w.noff else [PV(w.r), z3.If(IX(w.r) == e, LH, PV(w.r)), z3.If(e == 0, PV(w.r), z3.If(IX(w.r) == e, LH, PV(w.r)))] if k == w.noff + 8 else [BM(w.r)]
                F = st.objs['ranges'].F
                for v in tgt:
                    for gd in (z3.UGE(IX(w.r), e), z3.UGT(IX(w.r), e)):
                        q = z3.simplify(z3.Implies(z3.And(ISN(w.r), gd), x == v)); c.append(q); pre.append(q); w.inst[q.get_id()] = (q, k, F[k], x)
        for x in ('fail', 'fpool', 'fname'): c.append(z3.Not(g[x]))
        # walk of the free list
        for y in h64:
            c.append(z3.Or(y == 0, ISFN(y))); pre.append(c[-1])
            for q in h64:
                if q is not y: c.append(z3.If(y == 0, q == w.N, q + FRK(y) == w.N))
        # items of a range, CPUs of an item
        for y in h64:
            for zz in ozs:
                c += [z3.Implies(ISN(zz), z3.ULE(y, NU(zz))), z3.Implies(ISN(zz), z3.ULE(y, MM(zz)))]
                if w.scen == 'corrupt': c += [z3.Implies(z3.And(hr, zz == w.r), z3.UGE(w.os, q)) for q in (y, y << w.ord)]
                if w.scen == 'leak':
                    for y2 in h64:
                        if y2 is not y: c += [z3.Implies(z3.And(hr, zz == w.r, z3.UGT(y, w.ks)), y2 != 0)]
            c.append((y & (w.item_len - 1)) == 0)
            for y2 in h64:
                if y2 is not y: c += [z3.ULE(y2, y << 6)]
            c.append(z3.ULE(y, w.nwords))
        if w.scen == 'corrupt':
            for y in h32 + h64:
                y64 = y if y.size() == 64 else z3.SignExt(32, y)
                for zz in ozs:
                    for yo in outer:
                        for yy in (yo, yo << w.ord): c.append(z3.Implies(z3.And(hr, zz == w.r, z3.ULE(yy, w.os), z3.ULT(w.os, yy + w.item_len), z3.ULT(w.cs, w.ncpu64)), z3.UGE(w.cs, y64)))
        return c
    def rangeish(w, ex, st, z):
        return not is_const(z) and ex.valid(st, z3.Or(z == w.LH, ISN(z)))
    def inpc(w, st, x):
        from .houdini import syms
        n = x.decl().name(); acc = set(); seen = set()
        for p in st.pc[-400:]:
            syms(p, acc, seen)
            if n in acc: return True
        return False

INPOOL = 'percpu_addr_in_pool'
def run(m, C, cfg, scen, decide=None, tlimit=400, leaf={}, inpool=True):
    """scen: ok (everything freed), leak (an item is live), corrupt (a byte of a free item changed), retry (partly destroyed before)"""
    fn = 'rseq_mempool_destroy'; w = DWorld(C, cfg, scen); ex = Engine(m, dict(MD.BASE)); ex.decide = set(decide) if decide else None
    ex.func = '%s[%s,%s]' % (fn, cfgname(cfg), scen); ex.deadline = time.time() + tlimit; ex.page_len = lambda st: bv64(4096); ex.hto = 8000; ex.max_unroll = 0
    E.SIMPLE_FIRST[0] = 2000
    st = w.make(ex); hr = w.has_r()
    R, N = ('DRES',), ('ROBUST', 'NOABORT')
    if scen in ('ok', 'retry', 'corrupt'): st.assume(w.L == 0)
    if scen == 'leak':
        # item with bit ks*64+bit of range r* is live
        bit = z3.BitVec('bit*', 64); st.assume(hr, w.acc, w.L != 0, z3.ULT(w.ks, w.nwords), z3.ULT(bit, bv64(64)), (z3.LShR(BW(w.r, w.ks), bit) & 1) == 1)
    cell = SA(z3.simplify(BASE(w.r)), w.cs, bv64(0), w.os)
    if scen == 'corrupt':
        st.assume(hr, w.acc, z3.ULT(w.os, NU(w.r)), z3.ULT(w.cs, w.nstripes - 1), st.objs['D'].readbyte(cell) != w.poisonbyte(cell))
    ex.watches = [Watch('ranges', (w.r, k)) for k in sorted(w.F0)]
    if scen == 'corrupt': ex.watches.append(Watch('D', cell))
    st.assume(w.fnfacts(w.fh))
    def cands(ex, st, h, ws, f, H):
        c = w.cands(ex, st, h, ws, f, H)
        for x, ev in h:
            if not z3.is_bool(x) and x.size() == 64: st.assume(w.fnfacts(x))      # definition of a free-list node, at this address
        return c
    ex.hooks['loop_cands'] = cands; ex.hooks['pre_cands'] = lambda *a: (cands(*a), w.pre)[1]
    def on_load(ex, st, o, off, addr, n, v):
        if o.name == 'freelist': st.assume(w.fnfacts(z3.simplify(v)))
        if o.name == 'D' and n == 8 and w.cfg['robust'] and scen in ('ok', 'leak'):
            sa = w.dec(addr)
            for b, t in list(w.bnode.values()):
                if b.eq(sa.base): st.assume(z3.Implies(z3.And(ISN(t), z3.ULT(sa.b, NU(t)), z3.ULT(sa.c, w.nstripes - 1)), w.word(o, sa) == w.poison))
    ex.hooks['load'] = on_load
    def m_munmap(ex, st, a, rt):
        p, ln = z3.simplify(a[0]), z3.simplify(a[1]); t0, k = w.split(p); q = w.bnode.get(t0.get_id())
        if q is None: ex.oblige(st, 'only memory of the pool is unmapped', FALSE, R); raise Infeasible()
        t = q[1]
        ex.oblige(st, 'exactly the mapping of a range is unmapped (in a child process: its header pages)',
                  z3.And(ISN(t), z3.BoolVal(k == (1 << 64) - w.hdr), ln == z3.If(w.acc, w.total + bv64(w.hdr), bv64(w.hdr))), R + ('DFORK',))
        hit = z3.And(hr, t == w.r)
        ex.oblige(st, 'no range is unmapped twice', z3.Implies(hit, z3.Not(st.g['d'])), R)
        ex.oblige(st, 'the bitmap of a range is freed before its header is unmapped', z3.Implies(z3.And(hit, BM(w.r) != 0), st.g['bf']), R)
        s1, s2 = st.copy(), st
        s1.g['d'] = z3.simplify(z3.Or(s1.g['d'], hit)); s2.g['fail'] = TRUE; MD.set_errno(ex, s2, fresh('errno', 32))
        return [ret(s1, i32(0)), ret(s2, i32(-1))]
    def m_free(ex, st, a, rt):
        p = z3.simplify(a[0])
        if is_const(p) and cval(p) == 0: return ret(st)
        if p.eq(w.P):
            ex.oblige(st, 'the pool is freed once', z3.Not(st.g['fpool']), R)
            ex.oblige(st, 'the pool is freed only when all its ranges are gone', z3.Implies(hr, st.g['d']), R); st.g['fpool'] = TRUE; return ret(st)
        if ex.valid(st, p == w.name):
            ex.oblige(st, 'the name is freed once', z3.Or(w.name == 0, z3.Not(st.g['fname'])), R); st.g['fname'] = TRUE; return ret(st)
        q = w.bmval.get(p.get_id())
        if q is None: ex.oblige(st, 'only memory of the pool is freed', p == 0, R); return ret(st)
        t = q[1]; nz = p != 0
        ex.oblige(st, 'only a bitmap of the pool is freed', z3.Implies(nz, z3.And(ISN(t), p == BM(t))), R)
        ex.oblige(st, 'no bitmap is freed twice', z3.Implies(z3.And(nz, hr, t == w.r), z3.Not(st.g['bf'])), R)
        st.g['bf'] = z3.simplify(z3.Or(st.g['bf'], z3.And(nz, hr, t == w.r))); return ret(st)
    ex.models.update({'munmap': m_munmap, 'free': m_free, 'pthread_mutex_destroy': MD.m_nop32})
    ex.contracts.update(leaf)
    if scen == 'inpool':
        x = z3.BitVec('address', 64); st.assume(hr, z3.UGE(x, BASE(w.r)), z3.ULT(x - BASE(w.r), NU(w.r)), *w.nufacts(w.r))
        outs = ex.call_func(st, m.funcs[INPOOL], [w.P, x])
        for k, s, v in outs:
            s.trace = ['return of ' + INPOOL]
            ex.oblige(s, 'an address below the allocation frontier of a range is found in the pool', z3.And(z3.BoolVal(k == 'ret'), z3.Extract(0, 0, v) == 1 if not z3.is_bool(v) else v) if v is not None else FALSE, ('ROBUST', 'NOABORT'), cont=False)
        ex.nret = len(outs); ex.naborts = 0; ex.vacuity([s for k, s, v in outs]); return ex
    if inpool and INPOOL in m.funcs:
        w.modular = True
        def c_inpool(ex, st, a, rt):
            b = freshb('in_pool')
            for y in w.walkers():
                if w.inpc(st, y) and ex.valid(st, z3.simplify(a[1]) == y - sh(z3.simplify(w.fl_c()), w.k)):
                    st.assume(z3.Implies(ISFN(y), b))      # a free-list node lies below the frontier of its range (precondition), contract of percpu_addr_in_pool
            return [ret(st, b if rt.w == 1 else z3.If(b, BV(1, rt.w), BV(0, rt.w)))]
        ex.contracts[INPOOL] = c_inpool
    outs = ex.call_func(st, m.funcs[fn], [w.P]); rs = []; nab = 0
    for k, s, v in outs:
        s.trace = ['return of ' + fn]
        if k != 'ret':
            nab += 1
            if scen in ('ok', 'retry'): ex.oblige(s, 'destroying a correctly used pool does not stop the program', FALSE, N, cont=False)
            continue
        rs.append(s)
        if cfg['robust'] and scen == 'leak':
            v = z3.Extract(31, 0, v) if v.size() > 32 else v       # (an attempt which failed to unmap an earlier range may leave the report to the next attempt)
            ex.oblige(s, 'destroying a robust pool with items still allocated is reported', z3.And(v != 0, z3.Not(s.g['bf']), s.objs['ranges'].readbyte((w.r, w.o('rseq_mempool_range', 'alloc_bitmap'))) == BM(w.r)), ('ROBUST',), cont=False); continue
        if cfg['robust'] and scen == 'corrupt': ex.oblige(s, 'destroying a robust pool with an item modified while free is reported', FALSE, ('ROBUST',), cont=False); continue
        v = z3.Extract(31, 0, v) if v.size() > 32 else v; d, bf, g = s.g['d'], s.g['bf'], s.g
        ok = v == 0
        ex.oblige(s, 'success only when nothing failed', z3.Implies(ok, z3.Not(g['fail'])), R, cont=False)
        ex.oblige(s, 'failure is reported as -1 and only when unmapping failed', z3.Implies(z3.Not(ok), z3.And(v == -1, g['fail'])), R, cont=False)
        ex.oblige(s, 'after success every range is unmapped', z3.Implies(z3.And(ok, hr), d), R + ('DFORK',), cont=False)
        ex.oblige(s, 'after success every bitmap is freed', z3.Implies(z3.And(ok, hr, BM(w.r) != 0), bf), R, cont=False)
        ex.oblige(s, 'the pool and its name are freed exactly on success', z3.And(ok == g['fpool'], z3.Implies(w.name != 0, ok == g['fname'])), R, cont=False)
        if ex.feasible(s, z3.Not(ok)):
            s.assume(z3.Not(ok)); Po = s.objs['pool']; fnx = Po.read(w.lo, 8); F = s.objs['ranges']; LH = w.LH
            e = z3.If(fnx == LH, w.n, IX(fnx)); rd = lambda k: F.readbyte((w.r, k))
            ex.oblige(s, 'after a failure the list starts at a range which is still mapped', z3.And(fnx != LH, ISN(fnx), z3.Implies(z3.And(hr, fnx == w.r), z3.Not(d))), R, cont=False)
            ex.oblige(s, 'after a failure exactly the ranges still mapped are in the list', z3.Implies(hr, d == z3.ULT(IX(w.r), e)), R, cont=False)
            ex.oblige(s, 'after a failure the list is coherent', z3.Implies(z3.And(hr, z3.Not(d)), z3.And(rd(w.noff) == NX(w.r), rd(w.noff + 8) == z3.If(IX(w.r) == e, LH, PV(w.r)))), R, cont=False)
            ex.oblige(s, 'after a failure a freed bitmap is forgotten', z3.Implies(z3.And(hr, z3.Not(d)), rd(w.o('rseq_mempool_range', 'alloc_bitmap')) == z3.If(bf, bv64(0), BM(w.r))), R, cont=False)
            ra = w.o('rseq_mempool', 'attr') + w.o('rseq_mempool_attr', 'robust_set')
            ex.oblige(s, 'a partly destroyed pool is not validated again', Po.read(ra, 1) == 0, R + N, cont=False)
    ex.nret = len(rs); ex.naborts = nab; ex.vacuity([s for k, s, v in outs] if scen in ('leak', 'corrupt') else rs); return ex
