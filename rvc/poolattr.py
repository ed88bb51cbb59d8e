"""Contracts of the attribute functions (C10): what each setter records, what it leaves alone, what it refuses."""
import time, z3
from .engine import *
from . import models as MD
from .models import ret, i32
from .pool import ATTRF
W = {'init_set': 1, 'robust_set': 1, 'poison_set': 1, 'type': 4, 'max_nr_cpus': 4, 'populate_policy': 4}
P = 'rseq_mempool_attr_set_'
def setters(C):
    one = BV(1, 8); a = [z3.BitVec('arg1', 64), z3.BitVec('arg2', 64)]; n32 = z3.BitVec('n', 32)
    yield P + 'init', a, dict(init_set=one, init_func=a[0], init_priv=a[1], populate_policy=BV(C['COW_INIT'], 32))
    yield P + 'robust', [], dict(robust_set=one)
    yield P + 'percpu', [a[0], n32], dict(type=BV(C['T_PERCPU'], 32), stride=a[0], max_nr_cpus=n32)
    yield P + 'global', [a[0]], dict(type=BV(C['T_GLOBAL'], 32), stride=a[0])
    yield P + 'max_nr_ranges', [a[0]], dict(max_nr_ranges=a[0])
    yield P + 'poison', [a[0]], dict(poison_set=one, poison=a[0])
    yield P + 'populate_policy', [n32], dict(populate_policy=n32)
OWN = {P + 'global': {'max_nr_cpus'}}      # fields without meaning for the pool type which the setter selects
def run(m, C, decide=None, tlimit=60):
    T = ('ACCEPT', 'INIT'); ex = Engine(m, dict(MD.BASE)); ex.decide = set(decide) if decide else None; ex.deadline = time.time() + tlimit
    o = lambda f: C['rseq_mempool_attr__' + f]; size = C['rseq_mempool_attr__SIZE']; ends = []
    def fresh_attr(st, name='attr', base=None, off=0, obj=None):
        A = obj or st.add(Obj(name, z3.BitVec('&' + name, 64), size)); v = {}
        for f in ATTRF: v[f] = z3.BitVec('old_' + f, 8 * W.get(f, 8)); A.write(off + o(f), W.get(f, 8), v[f])
        return A, v
    def outcomes(fn, st, args):
        for k, s, v in ex.call_func(st, m.funcs[fn], args):
            s.trace = ['return of ' + fn]
            if k != 'ret': ex.oblige(s, 'does not stop the program', FALSE, T, cont=False); continue
            ends.append(s); yield s, v
    for fn, args, want in setters(C):
        if fn not in m.funcs: ex.func = fn; ex.oblige(State(), 'the function exists', FALSE, T, cont=False); continue
        ex.func = fn
        st = State(); A, old = fresh_attr(st); st.assume(z3.UGE(A.base, bv64(1 << 44)), z3.ULT(A.base, bv64(1 << 45)))
        for s, v in outcomes(fn, st, [A.base] + args):
            A2 = s.objs['attr']; ex.oblige(s, 'reports success', v == 0, T, cont=False)
            for f in ATTRF:
                if f in want: ex.oblige(s, 'records exactly what it is given (%s)' % f, A2.read(o(f), W.get(f, 8)) == want[f], T, cont=False)
                elif f not in OWN.get(fn, ()): ex.oblige(s, 'leaves the other attributes alone (%s)' % f, A2.read(o(f), W.get(f, 8)) == old[f], T, cont=False)
        st = State(); MD.set_errno(ex, st, z3.BitVec('errno0', 32))
        for s, v in outcomes(fn, st, [bv64(0)] + args):
            ex.oblige(s, 'refuses a missing attribute with EINVAL', z3.And(v == -1, MD.get_errno(s) == 22), T, cont=False)
    fn = 'rseq_mempool_attr_create'; ex.func = fn; blk = []
    def calloc(ex, st, a, rt):
        s0 = st.copy(); b = Obj('new', z3.BitVec('&new', 64), size); s1 = st; s1.add(b)
        ex.oblige(s1, 'allocates one attribute structure', z3.simplify(a[0] * a[1]) == bv64(size), T)
        for i in range(size): b.write(i, 1, BV(0, 8))
        s1.assume(z3.UGE(b.base, bv64(1 << 44)), z3.ULT(b.base, bv64(1 << 45))); s1.g['blk'] = b.base
        return [ret(s0, bv64(0)), ret(s1, b.base)]
    def malloc(ex, st, a, rt): return [ret(st.copy(), bv64(0)), mal(ex, st, a)]
    def mal(ex, st, a):
        b = Obj('new', z3.BitVec('&new', 64), size); st.add(b); ex.oblige(st, 'allocates one attribute structure', a[0] == bv64(size), T)
        st.assume(z3.UGE(b.base, bv64(1 << 44)), z3.ULT(b.base, bv64(1 << 45))); st.g['blk'] = b.base; return ret(st, b.base)
    ex.models.update({'calloc': calloc, 'malloc': malloc})
    for s, v in outcomes(fn, State(), []):
        if 'blk' not in s.g: ex.oblige(s, 'no attribute without memory', v == 0, T, cont=False); continue
        ex.oblige(s, 'returns the new attribute', v == s.g['blk'], T, cont=False)
        ex.oblige(s, 'a new attribute has the documented defaults', z3.And([s.objs['new'].read(o(f), W.get(f, 8)) == 0 for f in ATTRF]), T, cont=False)
    fn = 'rseq_mempool_get_max_nr_cpus'; ex.func = fn
    st = State(); Pl = st.add(Obj('pool', z3.BitVec('&pool', 64), C['rseq_mempool__SIZE'])); st.assume(z3.UGE(Pl.base, bv64(1 << 44)), z3.ULT(Pl.base, bv64(1 << 45)))
    _, old = fresh_attr(st, obj=Pl, off=C['rseq_mempool__attr'])
    for s, v in outcomes(fn, st, [Pl.base]):
        pc = old['type'] == C['T_PERCPU']
        ex.oblige(s, 'returns the CPU count of a per-CPU pool', z3.Implies(pc, v == old['max_nr_cpus']), T, cont=False)
        ex.oblige(s, 'refuses a pool which is not per-CPU', z3.Implies(z3.Not(pc), z3.And(v == -1, MD.get_errno(s) == 22)), T, cont=False)
    st = State(); MD.set_errno(ex, st, z3.BitVec('errno0', 32))
    for s, v in outcomes(fn, st, [bv64(0)]): ex.oblige(s, 'refuses a missing pool', z3.And(v == -1, MD.get_errno(s) == 22), T, cont=False)
    ex.func = 'attribute functions'; ex.nret = len(ends); ex.naborts = 0; ex.vacuity(ends[-6:]); return ex
