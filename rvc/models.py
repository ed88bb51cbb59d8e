"""Assumed contracts of the C library / kernel calls librseq makes (listed in the evidence).
Each model: f(engine, state, args, rettype) -> (kind, state, value) or list of them."""
import z3
from .engine import *

def ret(st, v=None): return ('ret', st, v if v is not None else bv64(0))
def i32(x): return BV(x, 32)

ERRNO = 'errno'
def errno_obj(st):
    if ERRNO not in st.objs:
        o = Obj(ERRNO, z3.BitVec('&errno', 64), 4); st.add(o)
        st.pc.append(z3.And(z3.UGT(o.base, bv64(1 << 43)), z3.ULT(o.base, bv64((1 << 43) + (1 << 40)))))
    return st.objs[ERRNO]
def set_errno(ex, st, v):
    errno_obj(st).write(0, 4, v if not isinstance(v, int) else i32(v)); ex.note_write(ERRNO, 0, 4)
def get_errno(st): return errno_obj(st).read(0, 4)

def m_errno(ex, st, a, rt): return ret(st, errno_obj(st).base)
def m_abort(ex, st, a, rt): return ('abort', st, 'abort')
def m_assert(ex, st, a, rt): return ('abort', st, 'assert')
def m_nop32(ex, st, a, rt): return ret(st, i32(0))
def m_print(ex, st, a, rt): return ret(st, fresh('printed', 32))
def m_void(ex, st, a, rt): return ret(st, None)

# ---- block memory -------------------------------------------------------
def addr_note(ex, *ps):
    if ex.addrs is not None: ex.addrs.extend(ps)

def region_write(ex, st, p, n, fn, what):
    """write n bytes at p; fn(d) = byte stored at address p + d"""
    addr_note(ex, p)
    p = z3.simplify(p); n = z3.simplify(n)
    if is_const(n) and cval(n) == 0: return [st]
    outs = []
    for o in list(st.objs.values()):
        if o.kind == 'struct':
            d = z3.simplify(p - o.base)
            if is_const(d) and cval(d) < o.size and is_const(n):
                ex.oblige(st, 'block write inside ' + o.name, z3.BoolVal(cval(d) + cval(n) <= o.size), ('MEM',))
                ex.obj_access(st, o, what)
                for i in range(cval(n)):
                    ex.guardcheck(st, o, cval(d) + i, 1, 'store', p)
                    o.write(cval(d) + i, 1, z3.simplify(fn(bv64(i)))); ex.note_write(o.name, cval(d) + i, 1)
                return [st]
    st2 = None
    if not is_const(n) and ex.feasible(st, n == 0):
        st2 = st.copy(); st2.assume(n == 0)
        if not ex.feasible(st, n != 0): return [st2]
        st.assume(n != 0)
    for o in list(st.objs.values()):
        if o.kind == 'arena' and o.alive and o.locate(ex, st, p, n):
            ex.oblige(st, what + ': block write inside ' + o.name, TRUE, ('MEM',))
            ex.guardcheck(st, o, None, n, 'store', p)
            o.fill(p, n, fn); ex.note_write(o.name, None, None)
            h = ex.hooks.get('arena_fill')
            if h: h(ex, st, o, p, n, fn)
            return [st] + ([st2] if st2 else [])
    # not provably inside one object
    cands = [inside(p, n, o) for o in st.objs.values() if o.kind == 'arena' and not getattr(o, 'structural', False)]
    ex.oblige(st, what + ': block write stays inside one owned object', z3.Or(cands) if cands else FALSE, ('MEM',))
    for o in list(st.objs.values()):
        if o.kind == 'arena' and o.locate(ex, st, p, n):
            o.fill(p, n, fn); ex.note_write(o.name, None, None); return [st]
    raise Unsupported('block write target ' + what)

def reader(ex, st, p, n, what):
    """-> fn(d) reading byte p + d of the object holding [p,p+n) (snapshot)"""
    p = z3.simplify(p)
    for o in st.objs.values():
        if o.kind == 'struct':
            d = z3.simplify(p - o.base)
            if is_const(d) and cval(d) < o.size:
                snap = o.copy(); ex.obj_access(st, o, what)
                if is_const(n):
                    ex.oblige(st, what + ': block read inside ' + o.name, z3.BoolVal(cval(d) + cval(n) <= o.size), ('MEM',))
                def rd(X, snap=snap, d=d):
                    e = z3.simplify(X + d)
                    if is_const(e): return snap.read(cval(e), 1)
                    v = BV(0, 8)
                    for i in range(snap.size): v = z3.If(e == bv64(i), snap.read(i, 1), v)
                    return v
                return rd
    for o in st.objs.values():
        if o.kind == 'arena' and o.alive and o.locate(ex, st, p, n):
            ex.guardcheck(st, o, None, n, 'load', p)
            snap = o.copy()
            return lambda X: snap.readbyte(snap.at(p, X))
    if ex.valid(st, n == 0): return lambda X: BV(0, 8)
    cands = [inside(p, n, o) for o in st.objs.values() if o.kind == 'arena' and not getattr(o, 'structural', False)]
    ex.oblige(st, what + ': block read inside an owned object', z3.Or([n == 0] + cands), ('MEM',))
    raise Unsupported('block read source ' + what)

def m_bzero(ex, st, a, rt):
    return [ret(x) for x in region_write(ex, st, a[0], a[1], lambda X: BV(0, 8), 'bzero')]
def m_memset(ex, st, a, rt):
    b = z3.Extract(7, 0, a[1]) if a[1].size() > 8 else a[1]
    n = a[2]
    return [ret(x, a[0]) for x in region_write(ex, st, a[0], n, lambda X: b, 'memset')]
def m_memcpy(ex, st, a, rt):
    n = a[2]
    if is_const(z3.simplify(n)) and cval(z3.simplify(n)) == 0: return ret(st, a[0])
    # word-wise when both are fixed objects
    p, q = z3.simplify(a[0]), z3.simplify(a[1])
    so = do = None
    if is_const(z3.simplify(n)):
        for o in st.objs.values():
            if o.kind == 'struct':
                d = z3.simplify(q - o.base)
                if is_const(d) and cval(d) < o.size: so = (o, cval(d))
                d = z3.simplify(p - o.base)
                if is_const(d) and cval(d) < o.size: do = (o, cval(d))
        if so and do:
            nn = cval(z3.simplify(n))
            ex.oblige(st, 'memcpy inside source ' + so[0].name, z3.BoolVal(so[1] + nn <= so[0].size), ('MEM',))
            ex.oblige(st, 'memcpy inside destination ' + do[0].name, z3.BoolVal(do[1] + nn <= do[0].size), ('MEM',))
            ex.obj_access(st, so[0], 'memcpy'); ex.obj_access(st, do[0], 'memcpy')
            for i in range(nn):
                so[0].read(so[1] + i, 1) if so[0].b.get(so[1] + i) is None else None
                ex.guardcheck(st, do[0], do[1] + i, 1, 'store', p)
            lanes = [so[0].b[so[1] + i] for i in range(nn)]
            for i in range(nn): do[0].b[do[1] + i] = lanes[i]; ex.note_write(do[0].name, do[1] + i, 1)
            return ret(st, a[0])
    rd = reader(ex, st, a[1], n, 'memcpy')
    return [ret(x, a[0]) for x in region_write(ex, st, a[0], n, rd, 'memcpy')]
def m_memcmp(ex, st, a, rt):
    """0 iff equal; at a skolem level: equality implies equality at every watch address, inequality
    implies a witness difference"""
    addr_note(ex, a[0], a[1])
    p, q, n = z3.simplify(a[0]), z3.simplify(a[1]), a[2]
    rp = reader(ex, st, p, n, 'memcmp'); rq = reader(ex, st, q, n, 'memcmp')
    r = fresh('memcmp', 32); w = fresh('memcmp_wit')
    facts = [z3.Implies(r != 0, z3.And(z3.ULT(w, n), rp(w) != rq(w)))]
    for wt in [b for b in (x.at(st) for x in ex.watches) if b is not None]:
        if wt.arena not in st.objs: continue
        A = st.objs[wt.arena]
        for base in (p, q):
            if getattr(A, 'structural', False) and A.w.dec(base) is None: continue
            facts.append(z3.Implies(z3.And(r == 0, A.hit(wt.addr, base, n)), rp(A.adiff(wt.addr, base)) == rq(A.adiff(wt.addr, base))))
    for x in ex.hooks.get('cmp_points', lambda *k: [])(ex, st):
        facts.append(z3.Implies(z3.And(r == 0, z3.ULT(x, n)), rp(x) == rq(x)))
    st.assume(*facts)
    return ret(st, r)

# ---- misc ---------------------------------------------------------------
def m_sysconf(ex, st, a, rt):
    r = ex.models.get('_sysconf')
    if r: return r(ex, st, a, rt)
    if ex.valid(st, a[0] == 30): return ret(st, ex.page_len(st))
    return ret(st, fresh('sysconf'))
def m_ctpop(ex, st, a, rt):
    x = a[0]; w = x.size(); v = BV(0, w)
    return ret(st, popcount(x))
def popcount(x):
    w = x.size(); m1 = 0x5555555555555555; m2 = 0x3333333333333333; m4 = 0x0f0f0f0f0f0f0f0f
    M = (1 << w) - 1
    x = x - (z3.LShR(x, 1) & BV(m1 & M, w))
    x = (x & BV(m2 & M, w)) + (z3.LShR(x, 2) & BV(m2 & M, w))
    x = (x + z3.LShR(x, 4)) & BV(m4 & M, w)
    return z3.LShR(x * BV(0x0101010101010101 & M, w), w - 8)
def ovf(kind, signed):
    def f(ex, st, a, rt):
        x, y = a; w = x.size()
        if kind == 'add':
            r = x + y; o = z3.Not(z3.BVAddNoOverflow(x, y, signed)) if not signed else z3.Or(z3.Not(z3.BVAddNoOverflow(x, y, True)), z3.Not(z3.BVAddNoUnderflow(x, y)))
        elif kind == 'sub':
            r = x - y; o = z3.ULT(x, y) if not signed else z3.Or(z3.Not(z3.BVSubNoOverflow(x, y)), z3.Not(z3.BVSubNoUnderflow(x, y, True)))
        else:
            r = ex.mul(st, x, y); k = None
            for p, q in ((x, y), (y, x)):
                k = ex.log2(st, p)
                if k is not None and not signed:
                    o = z3.LShR(q << k, k) != q; o = z3.Or(o, z3.UGE(k, BV(w, w))); break
            else: o = z3.Not(z3.BVMulNoOverflow(x, y, signed))
        return ret(st, [z3.simplify(r), z3.simplify(o)])
    return f
def minmax(op):
    def f(ex, st, a, rt):
        x, y = a; c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[op]
        return ret(st, z3.If(c, x, y))
    return f
def m_ctlz(ex, st, a, rt):
    x = a[0]; w = x.size(); v = BV(w, w)
    for i in range(w): v = z3.If(z3.Extract(i, i, x) == 1, BV(w - 1 - i, w), v)
    return ret(st, v)
def m_cttz(ex, st, a, rt):
    x = a[0]; w = x.size(); v = BV(w, w)
    for i in reversed(range(w)): v = z3.If(z3.Extract(i, i, x) == 1, BV(i, w), v)
    return ret(st, v)
def m_expect(ex, st, a, rt): return ret(st, a[0])
def m_asm(ex, st, tmpl, cons, args, rt):
    """empty-template compiler barriers only"""
    if tmpl.strip() in ('""', "''"):
        # "=r,0" identity (RSEQ_HIDE style) or pure barrier
        if not args or rt.__class__.__name__ == 'TVoid': return [('ret', st, bv64(0))]
        if cons.startswith('"=r,0'): return [('ret', st, args[0])]
    raise Unsupported('inline asm ' + tmpl[:60])

BASE = {
    'abort': m_abort, '__assert_fail': m_assert, '__errno_location': m_errno,
    'fprintf': m_print, 'printf': m_print, 'perror': m_void, 'puts': m_print,
    'bzero': m_bzero, 'explicit_bzero': m_bzero, 'memset': m_memset, 'llvm.memset': m_memset,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'llvm.memcpy': m_memcpy, 'llvm.memmove': m_memcpy, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    'sysconf': m_sysconf, 'llvm.ctpop': m_ctpop, 'llvm.returnaddress': lambda ex, st, a, rt: ret(st, fresh('ra')),
    'llvm.umul.with': ovf('mul', False), 'llvm.uadd.with': ovf('add', False), 'llvm.usub.with': ovf('sub', False),
    'llvm.sadd.with': ovf('add', True), 'llvm.smul.with': ovf('mul', True), 'llvm.ssub.with': ovf('sub', True),
    'llvm.umin': minmax('umin'), 'llvm.umax': minmax('umax'), 'llvm.smin': minmax('smin'), 'llvm.smax': minmax('smax'),
    'llvm.ctlz': m_ctlz, 'llvm.cttz': m_cttz, 'llvm.expect': m_expect, 'asm': m_asm,
}
