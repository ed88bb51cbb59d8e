"""Contracts for the memory pool allocator (src/rseq-mempool.c): representation invariant of a
pool, ghost allocation state, lock protocol, structural view of per-CPU memory.

Per-CPU memory of every range is one arena 'D' addressed structurally: a machine address is
    base + (c << stride_order) + (i << item_order) + b
with base the (stride-aligned) base of a range, c the stripe (CPU copies, then init copy, then
dedicated free list), i the item index and b the byte inside the item.  The decomposition of an
address computed by the code is syntactic (an equality by construction); c < nr stripes,
i < nr items and b + size <= item_len are *proved* before a decomposed access is used, so two
addresses alias iff their four components are equal."""
import z3
from .engine import *
from . import engine as E
from .houdini import Watch
from . import models as MD

POOLF = ['range_list', 'nr_ranges', 'item_len', 'item_order', 'free_list_head', 'lock', 'attr', 'name']
RANGEF = ['node', 'pool', 'header', 'base', 'init', 'next_unused', 'mmap_addr', 'mmap_len', 'alloc_bitmap']
ATTRF = ['init_set', 'init_func', 'init_priv', 'robust_set', 'type', 'stride', 'max_nr_cpus', 'max_nr_ranges',
         'poison_set', 'poison', 'populate_policy']
SETF = ['lock', 'entries']
def extra_c():
    o = []
    for st, fs in (('rseq_mempool', POOLF), ('rseq_mempool_range', RANGEF), ('rseq_mempool_attr', ATTRF), ('rseq_mempool_set', SETF)):
        for f in fs:
            o.append('const unsigned long __rvc_%s__%s = offsetof(struct %s, %s);' % (st, f, st, f))
        o.append('const unsigned long __rvc_%s__SIZE = sizeof(struct %s);' % (st, st))
    o.append('const unsigned long __rvc_COW_INIT = RSEQ_MEMPOOL_POPULATE_COW_INIT, __rvc_COW_ZERO = RSEQ_MEMPOOL_POPULATE_COW_ZERO;')
    o.append('const unsigned long __rvc_T_PERCPU = MEMPOOL_TYPE_PERCPU, __rvc_T_GLOBAL = MEMPOOL_TYPE_GLOBAL;')
    o.append('const unsigned long __rvc_STRIDE = RSEQ_MEMPOOL_STRIDE;')
    o.append('#ifndef RANGE_HEADER_OFFSET\n#define RANGE_HEADER_OFFSET sizeof(struct rseq_mempool_range)\n#endif\nconst unsigned long __rvc_RHO = RANGE_HEADER_OFFSET;')
    return '\n'.join(o)

NEVER, LIVE, FREE = BV(0, 2), BV(1, 2), BV(2, 2)
B64 = z3.BitVecSort(64); B8 = z3.BitVecSort(8)

def sh(x, k): return bv64(0) if is_const(x) and cval(x) == 0 else x << k

class Rng: pass

class SA:
    """structural address"""
    __slots__ = ('base', 'c', 'i', 'b')
    def __init__(s, base, c, i, b): s.base, s.c, s.i, s.b = base, c, i, b
    def plus(s, d): return SA(s.base, s.c, s.i, z3.simplify(s.b + d))
    def key(s): return (s.base.get_id(), s.c.get_id(), s.i.get_id(), s.b.get_id())

class SArena(Arena):
    structural = True
    def __init__(s, name, w):
        Arena.__init__(s, name, bv64(0), bv64(0)); s.w = w; s.havoc()
    def copy(s):
        o = object.__new__(SArena); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def havoc(s):
        s.M = z3.Function('MD!%d' % next(E._ctr), B64, B64, B64, B64, B8); s.log = []
    def sa(s, X):
        if isinstance(X, SA): return X
        r = s.w.dec(X)
        if r is None: raise Unsupported('address not of the form base + stripe + item + byte')
        return r
    def same(s, X, p):
        X, p = s.sa(X), s.sa(p)
        return [z3.simplify(q) for q in (X.base == p.base, X.c == p.c, X.i == p.i)]
    def hit(s, X, p, n):
        X, p = s.sa(X), s.sa(p)
        return z3.simplify(z3.And(s.same(X, p) + [z3.ULT(X.b - p.b, bv64(n) if isinstance(n, int) else n)]))
    def adiff(s, X, p): return z3.simplify(s.sa(X).b - s.sa(p).b)
    def at(s, p, off): return s.sa(p).plus(off)
    def low3(s, addr): return z3.Extract(2, 0, s.sa(addr).b)
    def basebyte(s, X): return s.M(X.base, X.c, X.i, X.b)
    def readbyte(s, X, upto=None):
        X = s.sa(X); v = s.basebyte(X)
        for e in s.log:
            if e[0] == 'c':
                v = z3.If(e[1](X), e[2](X, v), v); continue
            h = s.hit(X, e[1], e[2])
            if z3.is_false(h): continue
            d = s.adiff(X, e[1])
            if e[0] == 'w':
                if is_const(d) and cval(d) >= e[2]: continue
                b = z3.Extract(8 * cval(d) + 7, 8 * cval(d), e[3]) if is_const(d) else \
                    e[3] if e[2] == 1 else z3.Extract(7, 0, z3.LShR(e[3], (d if e[3].size() == 64 else z3.Extract(e[3].size() - 1, 0, d)) << 3))
            else: b = e[3](d)
            v = b if z3.is_true(h) else z3.If(h, b, v)
        return v
    def read(s, addr, n):
        X = s.sa(addr); z = z3.simplify
        # whole-word stores keep their word
        if n == 8 and all(e[0] == 'w' and e[2] == 8 for e in s.log):
            v = z3.Concat(*[s.basebyte(X.plus(bv64(j))) for j in reversed(range(8))])
            for e in s.log:
                c = z3.simplify(z3.And(s.same(X, e[1]) + [X.b == e[1].b]))    # both 8-aligned, checked at access
                v = e[3] if z3.is_true(c) else v if z3.is_false(c) else z3.If(c, e[3], v)
            return z(v)
        bs = [s.readbyte(X.plus(bv64(j))) for j in range(n)]
        return z(z3.Concat(*reversed(bs))) if n > 1 else z(bs[0])
    def write(s, addr, n, v): s.log.append(('w', s.sa(addr), n, v))
    def fill(s, addr, ln, fn): s.log.append(('r', s.sa(addr), ln, fn))
    def locate(s, ex, st, addr, n):
        return s.w.locate(ex, st, addr, n)

class World:
    """symbolic pool in an arbitrary reachable state"""
    def __init__(w, C, cfg):
        w.C = C; w.cfg = cfg                # cfg: cow, robust, poison (bools)
        w.k = z3.BitVec('stride_order', 64); w.ord = z3.BitVec('item_order', 64)
        w.stride = z3.simplify(bv64(1) << w.k); w.item_len = z3.simplify(bv64(1) << w.ord)
        w.nitems = z3.BitVec('nr_items', 64)
        w.ncpu64 = z3.BitVec('nr_cpus', 64); w.ncpu = z3.simplify(z3.Extract(31, 0, w.ncpu64)); w.ord32 = z3.simplify(z3.Extract(31, 0, w.ord))
        w.nstripes = w.ncpu64 + bv64((1 if cfg['cow'] else 0) + (1 if cfg['robust'] else 0))
        w.total = w.nstripes << w.k
        w.cpubytes = w.ncpu64 << w.k
        w.mask = w.stride - 1
        w.poison = z3.BitVec('poison', 64)
        w.ST = z3.Function('ST', B64, B64, z3.BitVecSort(2))
        w.RK = z3.Function('RK', B64, B64, B64)
        w.NB = z3.Function('NB', B64, B64, B64); w.NI = z3.Function('NI', B64, B64, B64)
        w.N = z3.BitVec('N_free', 64)
        w.hdr = 8192
        w.bases = {}; w.cache = {}
    def o(w, st, f): return w.C['%s__%s' % (st, f)]
    def params(w):
        return [z3.UGE(w.k, bv64(12)), z3.ULE(w.k, bv64(44)), z3.UGE(w.ord, bv64(3)), z3.ULE(w.ord, w.k),
                z3.UGE(w.ncpu64, bv64(1)), z3.ULT(w.ncpu64, bv64(1 << 31)),
                w.nitems == (bv64(1) << (w.k - w.ord))]
    # ---- free-list address <-> item address (spec: documented location of the free list)
    def fl_c(w):
        if w.cfg['robust']: return w.ncpu64 + bv64(1 if w.cfg['cow'] else 0)
        return w.ncpu64 if w.cfg['cow'] else bv64(0)
    def fl(w, a): return SA(a[0], z3.simplify(w.fl_c()), a[1], bv64(0))
    def fladdr(w, a): return z3.simplify(a[0] + sh(w.fl_c(), w.k) + sh(a[1], w.ord))
    def iaddr(w, a): return z3.simplify(a[0] + sh(a[1], w.ord))
    # ---- structural decomposition
    def dec(w, t):
        t = z3.simplify(t); key = t.get_id()
        if key in w.cache: return w.cache[key][1]
        r = w._dec(t); w.cache[key] = (t, r); return r
    def _dec(w, t, nobase=False):
        base = None; c = []; i = []; b = []
        ts = t.children() if t.decl().kind() == z3.Z3_OP_BADD else [t]
        for x in ts:
            m = 1
            if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and is_const(x.arg(0)): m = cval(x.arg(0)); x = x.arg(1)
            if x.get_id() in w.bases and m == 1 and base is None: base = x
            elif x.decl().kind() == z3.Z3_OP_BSHL and x.arg(1).eq(w.k): c.append(x.arg(0) * bv64(m) if m != 1 else x.arg(0))
            elif x.decl().kind() == z3.Z3_OP_BSHL and x.arg(1).eq(w.ord): i.append(x.arg(0) * bv64(m) if m != 1 else x.arg(0))
            else: b.append(x * bv64(m) if m != 1 else x)
        if base is None and not nobase: return None
        sm = lambda l: z3.simplify(z3.Sum(l)) if len(l) > 1 else (z3.simplify(l[0]) if l else bv64(0))
        return SA(base, sm(c), sm(i), sm(b))
    def canon(w, t):
        if t.decl().kind() != z3.Z3_OP_BADD: return t
        key = ('n', t.get_id())
        if key in w.cache: return w.cache[key][1]
        sa = w._dec(t, True); r = [x for x in (sa.base,) if x is not None] + [sh(sa.c, w.k), sh(sa.i, w.ord), sa.b]
        r = z3.simplify(z3.Sum(r)); w.cache[key] = (t, r); return r
    def bound(w, sa, n):
        n = bv64(n) if isinstance(n, int) else n
        return {'c': z3.ULT(sa.c, w.nstripes), 'i': z3.ULT(sa.i, w.nitems), 'b': z3.And(z3.ULE(n, w.item_len), z3.ULE(sa.b, w.item_len - n))}
    def bkey(w, sa, n): return {'c': ('c', sa.c), 'i': ('i', sa.i), 'b': ('b', sa.b, bv64(n) if isinstance(n, int) else n)}
    def known(w, st, key):
        return any(len(k) == len(key) and k[0] == key[0] and all(x.eq(y) for x, y in zip(k[1:], key[1:])) for k in st.g.get('sa_ok', ()))
    def mark(w, st, key): st.g['sa_ok'] = st.g.get('sa_ok', ()) + (key,)
    def proven(w, ex, st, sa, n):
        """c, i, b within bounds?"""
        f = w.bound(sa, n); kk = w.bkey(sa, n); miss = []
        for q in ('c', 'i', 'b'):
            c = z3.simplify(f[q])
            if z3.is_true(c) or w.known(st, kk[q]): continue
            if q == 'c' and is_const(sa.c) and cval(sa.c) == 0: continue
            if q == 'i' and is_const(sa.i) and cval(sa.i) == 0: continue
            if q == 'b' and is_const(sa.b) and is_const(kk['b'][2]) and cval(sa.b) + cval(kk['b'][2]) <= 8: continue
            if ex.valid(st, c): w.mark(st, kk[q])
            else: miss.append(c)
        return miss
    def locate(w, ex, st, addr, n):
        sa = w.dec(addr)
        if sa is None: return False
        miss = w.proven(ex, st, sa, n)
        if miss:
            ex.oblige(st, 'access stays inside one item copy of a mapped range', z3.And(miss), ('MEM', 'FRAME'))
            for v in w.bkey(sa, n).values(): w.mark(st, v)
        return True
    def and_hook(w):
        m1 = z3.simplify(w.mask); m2 = z3.simplify(~w.mask); m3 = z3.simplify(-w.stride)
        def f(ex, st, a, b):
            for x, y in ((a, b), (b, a)):
                if y.eq(m1) or y.eq(m2) or y.eq(m3):
                    sa = w.dec(x)
                    if sa is not None and not w.proven(ex, st, sa, 0):
                        return z3.simplify(sh(sa.i, w.ord) + sa.b) if y.eq(m1) else z3.simplify(sa.base + sh(sa.c, w.k))
            return None
        return f
    def shr_hook(w):
        def f(ex, st, a, b):
            if not b.eq(w.ord): return None
            a = z3.simplify(a)
            if a.eq(w.stride): return z3.simplify(w.nitems)
            sa = w._dec(a, True)
            if sa.base is None and is_const(sa.c) and cval(sa.c) == 0 and is_const(sa.b) and cval(sa.b) == 0 and not w.proven(ex, st, sa, 0):
                return sa.i
            return None
        return f
    def build(w, ex):
        st = State(); C = w.C; cfg = w.cfg
        st.assume(*w.params())
        P = Obj('pool', z3.BitVec('&pool', 64), w.o('rseq_mempool', 'SIZE')); w.P = P.base
        st.add(P)
        st.assume(z3.UGE(P.base, bv64(1 << 44)), z3.ULT(P.base, bv64((1 << 44) + (1 << 40))), z3.Extract(3, 0, P.base) == 0)
        def pf(name, n, v): P.write(w.o('rseq_mempool', name), n, v)
        A = w.o('rseq_mempool', 'attr')
        def af(name, n, v): P.write(A + w.o('rseq_mempool_attr', name), n, v)
        pf('item_len', 8, w.item_len); pf('item_order', 4, w.ord32)
        w.nr0 = z3.BitVec('nr_ranges0', 64); pf('nr_ranges', 8, w.nr0)
        af('robust_set', 1, BV(int(cfg['robust']), 8)); af('stride', 8, w.stride); af('max_nr_cpus', 4, w.ncpu)
        af('poison_set', 1, BV(int(cfg['poison'] or cfg['robust']), 8)); af('poison', 8, w.poison)
        af('populate_policy', 4, BV(C['COW_INIT'] if cfg['cow'] else C['COW_ZERO'], 32))
        af('type', 4, BV(C['T_PERCPU'], 32) if cfg['cow'] else z3.BitVec('pool_type', 32))
        for i in range(w.o('rseq_mempool', 'lock'), w.o('rseq_mempool', 'lock') + 40): P.b.pop(i, None)
        ex.pow2 += [(w.stride, w.k), (w.item_len, w.ord)]
        w.R = [w.mkrange(st, 'R0', P, 0), w.mkrange(st, 'R1', P, 1)]
        st.assume(w.R[0].base != w.R[1].base)
        D = SArena('D', w); D.guard = w.guardD; st.add(D)
        # list links: pool -> R0 -> (anything in the list)
        node0 = w.R[0].obj.base + bv64(w.o('rseq_mempool_range', 'node'))
        pf_node = w.o('rseq_mempool', 'range_list')
        P.write(pf_node, 8, z3.simplify(node0))
        w.R[0].obj.write(w.o('rseq_mempool_range', 'node') + 8, 8, z3.simplify(P.base + bv64(pf_node)))
        # free list head: empty, or an item of the newest range, or an item of an older range
        hb = cfg.get('head', 0)
        if hb:
            w.hi = z3.BitVec('head_index', 64); st.assume(z3.ULT(w.hi, w.nitems)); w.mark(st, ('i', w.hi))
            w.h = (w.R[hb - 1].base, w.hi); w.head0 = w.fladdr(w.h)
        else: w.h = None; w.head0 = bv64(0)
        pf('free_list_head', 8, w.head0)
        ex.and_hook = w.and_hook(); ex.shr_hook = w.shr_hook(); ex.canon_hook = w.canon
        ex.ext_hook = lambda x, n: (w.ncpu64 if x.eq(w.ncpu) else w.ord if x.eq(w.ord32) else None) if n == 64 else None
        P.guard = w.guardP
        return st
    def mkbase(w, st, name):
        b = z3.BitVec(name, 64); w.bases[b.get_id()] = b
        return b
    def mkrange(w, st, name, P, i):
        r = Rng(); r.name = name
        r.base = w.mkbase(st, 'base' + name)
        r.m = z3.BitVec('nr_used' + name, 64); r.nu = z3.simplify(r.m << w.ord)
        st.assume(z3.ULE(r.m, w.nitems))
        size = w.o('rseq_mempool_range', 'SIZE')
        o = Obj(name, z3.simplify(r.base - bv64(size)), size); r.obj = o; st.add(o)
        def rf(f, n, v): o.write(w.o('rseq_mempool_range', f), n, v)
        rf('pool', 8, P.base); rf('base', 8, r.base); rf('header', 8, z3.simplify(r.base - bv64(w.hdr)))
        rf('init', 8, z3.simplify(r.base + w.cpubytes) if w.cfg['cow'] else bv64(0))
        rf('next_unused', 8, r.nu); rf('mmap_addr', 8, z3.simplify(r.base - bv64(w.hdr))); rf('mmap_len', 8, z3.simplify(w.total + bv64(w.hdr)))
        if w.cfg['robust']:
            r.bm = z3.BitVec('bitmap' + name, 64)
            rf('alloc_bitmap', 8, r.bm)
            cnt = z3.LShR(w.nitems + bv64(63), 6) << 3
            r.bmlen = cnt
            b = Arena('B' + name, r.bm, cnt); b.guard = w.guardB; st.add(b)
            st.assume(z3.Extract(3, 0, r.bm) == 0, z3.UGE(r.bm, bv64((1 << 44) + (1 << 41) + (i << 42))), z3.ULT(r.bm, bv64((1 << 44) + (1 << 41) + (i << 42) + (1 << 40))))
        else: rf('alloc_bitmap', 8, bv64(0))
        o.guard = w.guardR
        return r
    def nonnull(w, a):
        """addresses inside a mapping are not NULL (a mapping does not wrap around)"""
        return [w.iaddr(a) != 0, w.fladdr(a) != 0]
    # ---- access discipline
    PROT_P = ('range_list', 'nr_ranges', 'free_list_head')
    def field_of(w, st, off, fs):
        best = None
        for f in fs:
            o = w.o(st, f)
            if o <= off and (best is None or o > w.o(st, best)): best = f
        return best
    def guardP(w, ex, st, o, off, n, what, addr, val):
        f = w.field_of('rseq_mempool', off, POOLF)
        if f in w.PROT_P:
            ex.oblige(st, 'pool.%s accessed with the pool lock held' % f, bool(st.locks.get('pool')), ('LOCK',))
        elif what == 'store' and f != 'lock':
            ex.oblige(st, 'pool parameters (%s) immutable after creation' % f, FALSE, ('LOCK', 'INV'))
    def guardR(w, ex, st, o, off, n, what, addr, val):
        f = w.field_of('rseq_mempool_range', off, RANGEF)
        if f in ('next_unused', 'node'):
            ex.oblige(st, 'range.%s accessed with the pool lock held' % f, bool(st.locks.get('pool')), ('LOCK',))
        elif what == 'store':
            ex.oblige(st, 'range parameters (%s) immutable after creation' % f, FALSE, ('LOCK', 'INV'))
    def guardB(w, ex, st, o, off, n, what, addr, val):
        ex.oblige(st, 'allocation bitmap accessed with the pool lock held', bool(st.locks.get('pool')), ('LOCK',))
    def guardD(w, ex, st, o, off, n, what, addr, val):
        x = st.g.get('item'); inx = FALSE
        if x is not None:
            sa = w.dec(addr); inx = z3.And(sa.base == x[0], sa.i == x[1])
        if what == 'store':
            ex.oblige(st, 'write confined to the item being allocated/freed', inx, ('FRAME',))
        elif not st.locks.get('pool'):
            ex.oblige(st, 'unlocked read confined to the item just allocated', inx, ('LOCK', 'FRAME'))
    # ---- invariant instances; an item is a pair (range base, index)
    def word(w, D, sa):
        return z3.Concat(*[D.readbyte(sa.plus(bv64(j))) for j in reversed(range(8))])
    INVN = ['free-list rank', 'free list ends at rank 1', 'free-list link', 'successor is free', 'successor rank', 'successor placement', 'state', 'placement']
    def inv_item(w, D, a, G, ranges):
        ST, RK, NB, NI, N = G
        nx = w.word(D, w.fl(a)); pn = (NB(*a), NI(*a))
        isf = ST(*a) == FREE; nl = z3.And(isf, RK(*a) != bv64(1))
        c = [z3.Implies(isf, z3.And(z3.UGE(RK(*a), bv64(1)), z3.ULE(RK(*a), N))), z3.Implies(isf, (nx == 0) == (RK(*a) == bv64(1))),
             z3.Implies(nl, nx == w.fladdr(pn)), z3.Implies(nl, ST(*pn) == FREE), z3.Implies(nl, RK(*pn) == RK(*a) - 1), z3.Implies(nl, z3.ULT(pn[1], w.nitems)),
             ST(*a) != BV(3, 2),
             z3.Implies(ST(*a) != NEVER, z3.ULT(a[1], w.nitems))]
        names = list(w.INVN)
        for r, m, bm in ranges:
            inr = z3.And(a[0] == r.base, z3.ULT(a[1], w.nitems))
            c.append(z3.Implies(inr, (ST(*a) != NEVER) == z3.ULT(a[1], m))); names.append('never-allocated frontier of ' + r.name)
            if bm is not None:
                idx = a[1]
                ba = r.bm + (z3.LShR(idx, 6) << 3) + (z3.LShR(idx, 3) & 7)
                bitv = z3.Extract(0, 0, z3.LShR(bm.readbyte(ba), z3.Extract(7, 0, idx) & 7)) == 1
                c.append(z3.Implies(inr, bitv == (ST(*a) == LIVE))); names.append('allocation bitmap of ' + r.name)
        return list(zip(names, c))
    def inv_pair(w, a, b, G):
        ST, RK = G[0], G[1]
        return z3.Implies(z3.And(ST(*a) == FREE, ST(*b) == FREE, RK(*a) == RK(*b)), z3.And(a[0] == b[0], a[1] == b[1]))
    def item(w, st, name):
        b = w.mkbase(st, 'base_' + name); i = z3.BitVec('index_' + name, 64)
        st.assume(z3.ULT(i, w.nitems)); w.mark(st, ('i', i))
        return (b, i)
    def cell(w, a, c, b): return SA(a[0], z3.simplify(c), a[1], b)
    def inv_poison(w, D, cell, ST):
        """every byte of every CPU copy (and of the init copy) of a free item of a robust pool is poison"""
        if not w.cfg['robust']: return []
        return [z3.Implies(ST(cell.base, cell.i) == FREE, D.readbyte(cell) == w.poisonbyte(cell))]
    def rngs(w, ex, st):
        out = []
        for r in st.g['ranges']:
            nu = z3.simplify(st.objs[r.name].read(w.o('rseq_mempool_range', 'next_unused'), 8))
            if nu.eq(r.nu): m = r.m
            else: m = r.m + 1
            out.append((r, m, st.objs.get('B' + r.name) if w.cfg['robust'] else None))
        return out
    def nu_of(w, st, r): return z3.simplify(st.objs[r.name].read(w.o('rseq_mempool_range', 'next_unused'), 8))
    def head(w, st): return st.objs['pool'].read(w.o('rseq_mempool', 'free_list_head'), 8)
    def poisonbyte(w, X): return z3.Extract(7, 0, z3.LShR(w.poison, (X.b & 7) << 3))
    def G0(w): return (w.ST, w.RK, w.NB, w.NI, w.N)
    def assume_inv(w, ex, st, items, cells):
        rs = [(r, r.m, st.objs.get('B' + r.name) if w.cfg['robust'] else None) for r in st.g['ranges']]
        G = w.G0(); D = st.objs['D']
        ex.assume_heavy(st, (w.head0 == 0) == (w.N == 0), z3.ULE(w.N, bv64(1 << 45)))
        if w.h: ex.assume_heavy(st, w.ST(*w.h) == FREE, w.RK(*w.h) == w.N, w.head0 != 0)
        ex.assume_heavy(st, w.R[1].m == w.nitems, z3.ULT(bv64(0), w.nr0), z3.ULT(w.nr0, bv64(1 << 60)))
        for a in items: ex.assume_heavy(st, *([c for _, c in w.inv_item(D, a, G, rs)] + w.nonnull(a)))
        for a in items: ex.assume_heavy(st, w.fladdr((w.NB(*a), w.NI(*a))) != 0)
        for i in range(len(items)):
            for j in range(i): ex.assume_heavy(st, w.inv_pair(items[i], items[j], G))
        for c in cells: ex.assume_heavy(st, *w.inv_poison(D, c, w.ST))

CFGS = [dict(cow=c, robust=r, poison=p) for c in (False, True) for r in (False, True) for p in ((True,) if r else (False, True))]
def cfgname(c): return ('cow_init' if c['cow'] else 'cow_zero') + ('+robust' if c['robust'] else '') + ('+poison' if c['poison'] and not c['robust'] else '')

def lock_models(w, on_lock, on_unlock):
    def which(ex, st, p):
        for nm, b in w.lockaddrs(st):
            if z3.simplify(p - b).eq(bv64(0)): return nm
        for nm, b in w.lockaddrs(st):
            if ex.valid(st, p == b): return nm
        raise Unsupported('unknown lock')
    def m_lock(ex, st, a, rt):
        nm = which(ex, st, a[0])
        ex.oblige(st, 'lock %s not already held' % nm, not st.locks.get(nm), ('LOCK',))
        st.locks[nm] = True; on_lock(ex, st, nm); return MD.ret(st, MD.i32(0))
    def m_unlock(ex, st, a, rt):
        nm = which(ex, st, a[0])
        ex.oblige(st, 'lock %s held at unlock' % nm, bool(st.locks.get(nm)), ('LOCK',))
        on_unlock(ex, st, nm); st.locks[nm] = False; return MD.ret(st, MD.i32(0))
    return {'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock}
