"""Contracts of the leaf helpers of the pool allocator.  Each is verified against its own body
(verify_*) and then used at call sites instead of the body.  If a helper no longer meets its
contract (or no longer exists) the contract is withdrawn and the body is executed in place: only
API-level obligations can raise an alarm."""
import z3
from .engine import *
from .houdini import Watch
from . import models as MD

def lane(v, X): return z3.Extract(7, 0, z3.LShR(v, (X & 7) << 3))

def walk(ex, p, n, X):
    """invariant guesses for a walk over [p,p+n) by offset, index, pointer or remaining length"""
    def pos(h):
        for x, ev in h:
            if z3.is_bool(x) or x.size() != 64: continue
            for d in (x - p, x << 3, n - x, x, n - (x << 3)): yield d
    def pre(ex, st, h, w, f, H): return [c for d in pos(h) for c in (z3.ULE(d, n), z3.Extract(2, 0, d) == 0)]
    def cands(ex, st, h, w, f, H):
        c = pre(ex, st, h, w, f, H)
        for x, wt, ev in w:
            for t in wt.targets: c += [z3.Implies(z3.ULT(X - p, d), x == t) for d in pos(h)]
        return c
    ex.hto = 15000; ex.hooks['pre_cands'] = pre; ex.hooks['loop_cands'] = cands

# ---- rseq_cmp_item(p, len, cmp, out): 0 iff every word of [p,p+len) equals cmp; otherwise *out
# (when given) is a differing word of the item
def c_cmp_item(ex, st, a, rt):
    p, n, cmp, out = [z3.simplify(x) for x in a]
    MD.addr_note(ex, p)
    rd = None
    for o in list(st.objs.values()):
        if o.kind == 'arena' and o.locate(ex, st, p, n):
            ex.guardcheck(st, o, None, n, 'load', p); rd = o; break
    if rd is None: raise Unsupported('cmp_item source %s' % p)
    ex.oblige(st, 'cmp_item: aligned operands', z3.And(rd.low3(p) == 0, z3.Extract(2, 0, n) == 0), ('MEM',))
    r = fresh('cmp_item'); wo = fresh('cmp_wit')
    wa = z3.simplify(p + wo); word = rd.read(wa, 8)
    facts = [z3.Implies(r != 0, z3.And(z3.ULT(wo, n), z3.Extract(2, 0, wo) == 0, word != cmp))]
    for wt in [b for b in (x.at(st) for x in ex.watches) if b is not None and b.arena == rd.name]:
        facts.append(z3.Implies(z3.And(r == 0, rd.hit(wt.addr, p, n)), rd.readbyte(wt.addr) == lane(cmp, rd.adiff(wt.addr, p))))
    st.assume(*facts)
    res = []
    for nz in (False, True):
        s2 = st.copy()
        c = r != 0 if nz else r == 0
        if not ex.feasible(s2, c): continue
        s2.assume(c)
        if nz:
            h = ex.hooks.get('load')
            if h:
                s2.assume(z3.ULT(wo, n))
                try: h(ex, s2, s2.objs[rd.name], None, wa, 8, word)
                except Infeasible: continue
                if not ex.feasible(s2): continue
            if not (is_const(out) and cval(out) == 0):
                for s3 in ex.store(s2, out, 8, word, 'cmp_item out'): res.append(('ret', s3, r))
                continue
        res.append(('ret', s2, r))
    return res

def v_cmp_item(mod, deadline=None):
    allob = []
    for without in (False, True):
        ex = Engine(mod, dict(MD.BASE)); ex.func = 'rseq_cmp_item'; ex.deadline = deadline
        st = State(); p, n, cmp = z3.BitVec('p', 64), z3.BitVec('len', 64), z3.BitVec('cmp', 64); X = z3.BitVec('X*', 64)
        A = Arena('A', p, n); st.add(A); A.const = True
        st.assume(z3.Extract(2, 0, p) == 0, z3.Extract(2, 0, n) == 0, z3.ULE(n, bv64(1 << 45)), z3.UGE(p, bv64(4096)), z3.ULT(p, bv64(1 << 46)), z3.ULT(X - p, n))
        O = None
        if without: O = st.add(Obj('out', z3.BitVec('&out', 64), 8)); st.assume(z3.UGE(O.base, bv64(1 << 47)), z3.ULT(O.base, bv64(1 << 48)))
        ex.watches = [Watch('A', X, targets=[lane(cmp, X)])]; walk(ex, p, n, X)
        def onload(ex, s, o, off, addr, k, v):
            if o.name == 'A': s.g['last'] = (addr, v)
        ex.hooks['load'] = onload
        for k, s, v in ex.call_func(st, mod.funcs['rseq_cmp_item'], [p, n, cmp, O.base if O else bv64(0)]):
            s.trace = ['return']
            if k != 'ret': ex.oblige(s, 'does not abort', FALSE, cont=False); continue
            ex.oblige(s, 'zero only if equal everywhere', z3.Implies(v == 0, s.objs['A'].readbyte(X) == lane(cmp, X)))
            if 'last' in s.g:
                la, lv = s.g['last']
                ex.oblige(s, 'non-zero only with a differing word', z3.Implies(v != 0, z3.And(z3.ULT(la - p, n), z3.Extract(2, 0, la) == 0, lv != cmp)))
                if without: ex.oblige(s, 'differing word reported', z3.Implies(v != 0, s.objs['out'].read(0, 8) == lv))
            else: ex.oblige(s, 'non-zero only with a differing word', v == 0)
        allob += ex.obligs
    return allob

# ---- rseq_poison_item(p, len, poison): stores poison in every word of [p,p+len), nothing else
def c_poison_item(ex, st, a, rt):
    p, n, v = a
    for o in list(st.objs.values()):
        if o.kind == 'arena' and o.locate(ex, st, p, n):
            ex.oblige(st, 'poison_item: aligned operands', z3.And(o.low3(p) == 0, z3.Extract(2, 0, n) == 0), ('MEM',)); break
    return [MD.ret(s) for s in MD.region_write(ex, st, p, n, lambda X: lane(v, X), 'poison_item')]
def v_poison_item(mod, deadline=None):
    ex = Engine(mod, dict(MD.BASE)); ex.func = 'rseq_poison_item'; ex.deadline = deadline
    st = State(); p, n, v = z3.BitVec('p', 64), z3.BitVec('len', 64), z3.BitVec('poison', 64); X = z3.BitVec('X*', 64)
    A = Arena('A', p, n); st.add(A)
    st.assume(z3.Extract(2, 0, p) == 0, z3.Extract(2, 0, n) == 0, z3.ULE(n, bv64(1 << 45)), z3.UGE(p, bv64(4096)), z3.ULT(p, bv64(1 << 46)), z3.ULT(X - p, n))
    ex.watches = [Watch('A', X, targets=[lane(v, X)])]; walk(ex, p, n, X)
    for k, s, r in ex.call_func(st, mod.funcs['rseq_poison_item'], [p, n, v]):
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'does not abort', FALSE, cont=False); continue
        ex.oblige(s, 'every byte holds the poison', s.objs['A'].readbyte(X) == lane(v, X))
    return ex.obligs

# ---- rseq_get_count_order_ulong(x): smallest order with x <= 2^order, -1 for 0
def order_spec(x):
    v = BV(64, 32)
    for i in reversed(range(64)): v = z3.If(z3.ULE(x, bv64(1 << i)), BV(i, 32), v)
    return z3.If(x == 0, BV(-1, 32), v)
def c_order(ex, st, a, rt):
    x = z3.simplify(a[0]); k = ex.log2(st, x)
    if k is not None: return MD.ret(st, z3.simplify(z3.Extract(31, 0, k)))
    r = fresh('order', 32); r64 = z3.ZeroExt(32, r)
    one = bv64(1) << r64
    st.assume(z3.If(x == 0, r == -1, z3.And(z3.ULE(r, BV(64, 32)), z3.Implies(z3.ULT(r, BV(64, 32)), z3.ULE(x, one)),
                                           z3.Implies(r == 64, z3.UGT(x, bv64(1 << 63))),
                                           z3.Implies(r != 0, z3.UGT(x, bv64(1) << (r64 - 1))))))
    return MD.ret(st, r)
def v_order(mod, deadline=None):
    ex = Engine(mod, dict(MD.BASE)); ex.func = 'rseq_get_count_order_ulong'; ex.deadline = deadline
    st = State(); x = z3.BitVec('x', 64)
    for k, s, r in ex.call_func(st, mod.funcs['rseq_get_count_order_ulong'], [x]):
        s.trace = ['return']
        ex.oblige(s, 'smallest order with x <= 2^order, -1 for 0', r == order_spec(x))
    return ex.obligs

LEAF = {
    'rseq_cmp_item': (c_cmp_item, v_cmp_item, ['ptr', 'i64', 'i64', 'ptr']),
    'rseq_poison_item': (c_poison_item, v_poison_item, ['ptr', 'i64', 'i64']),
    'rseq_get_count_order_ulong': (c_order, v_order, ['i64']),
}

def usable(mod, deadline=None):
    """-> (contracts proved, obligations, withdrawn: {name: reason})"""
    ok = {}; obs = []; wd = {}
    for n, (c, v, sig) in LEAF.items():
        f = mod.funcs.get(n)
        if f is None: wd[n] = 'no such function'; continue
        if [repr(t) for t, _ in f.params] != sig: wd[n] = 'signature changed'; continue
        try:
            o = v(mod, deadline)
            if o and all(x.status == 'proved' for x in o): ok[n] = c; obs += o
            else: wd[n] = '; '.join(sorted({'%s: %s' % (x.status, x.name) for x in o if x.status != 'proved'})) or 'no obligation'
        except (Unsupported, EngineLimit) as e: wd[n] = repr(e)
    return ok, obs, wd
