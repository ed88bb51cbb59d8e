"""Contracts of the per-CPU operations (include/rseq/rseq.h and the arch headers), decided on the
IR + assembly of the real headers.  Spec = documented pseudo-code (include/rseq/pseudocode.h)."""
import os, subprocess, tempfile
import z3
from . import asmx, llir, frontend, models
from .engine import *
from .engine import _ctr
from .houdini import Watch

# kernel ABI of struct rseq (uapi/linux/rseq.h)
OFF_CPU_ID, OFF_CS, OFF_MM_CID = 4, 8, 24
SIG = 0x53053053
RELAXED, RELEASE = 0, 3

OPS = {
 # op: (C parameter list after mo/mode, call args, release supported)
 'load_cbne_store': ('intptr_t *v, intptr_t expect, intptr_t newv, int cpu', False),
 'load_add_store': ('intptr_t *v, intptr_t count, int cpu', False),
 'load_cbeq_store_add_load_store': ('intptr_t *v, intptr_t expectnot, long voffp, intptr_t *load, int cpu', False),
 'load_add_load_load_add_store': ('intptr_t *ptr, long off, intptr_t inc, int cpu', False),
 'load_cbne_load_cbne_store': ('intptr_t *v, intptr_t expect, intptr_t *v2, intptr_t expect2, intptr_t newv, int cpu', False),
 'load_cbne_store_store': ('intptr_t *v, intptr_t expect, intptr_t *v2, intptr_t newv2, intptr_t newv, int cpu', True),
 'load_cbne_memcpy_store': ('intptr_t *v, intptr_t expect, void *dst, void *src, size_t len, intptr_t newv, int cpu', True),
}
def names(op): return [p.split()[-1].lstrip('*') for p in OPS[op][0].split(',')]

WRAP = '#include <rseq/rseq.h>\n' + '\n'.join(
    'int w_%s(enum rseq_mo mo, enum rseq_percpu_mode mode, %s) { return rseq_%s__ptr(mo, mode, %s); }' % (op, d, op, ', '.join(names(op)))
    for op, (d, _) in OPS.items()) + '''
long __rvc_sig = RSEQ_SIG; long __rvc_relaxed = RSEQ_MO_RELAXED; long __rvc_release = RSEQ_MO_RELEASE;
long __rvc_cpu_id = RSEQ_PERCPU_CPU_ID; long __rvc_mm_cid = RSEQ_PERCPU_MM_CID;
'''

def build(defines=()):
    d = tempfile.mkdtemp(prefix='rvc.')
    try:
        w = os.path.join(d, 'w.c'); open(w, 'w').write(WRAP)
        ll, l2, l3, l4 = (os.path.join(d, x) for x in ('a.ll', 'b.ll', 'c.ll', 'd.ll'))
        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise frontend.FrontendError(r.stderr[:3000])
        opt = 'opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt'
        run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-std=gnu11', '-D_GNU_SOURCE', '-I', os.path.join(frontend.REPO, 'include'),
             '-S', '-emit-llvm', w, '-o', ll, '-w'] + list(defines))
        run([opt, '-S', '-passes=sroa,early-cse,simplifycfg', ll, '-o', l2])
        text, gens = asmx.rewrite(open(l2).read())
        open(l3, 'w').write(text)
        run([opt, '-S', '-passes=sroa,early-cse,simplifycfg,adce,loop-simplify', l3, '-o', l4])
        m = llir.parse(open(l4).read()); m.gens = gens
        return m
    finally: subprocess.run(['rm', '-rf', d])

class Flat(Arena):
    """all user memory: any address not inside the thread's rseq area or a named object"""
    def locate(s, ex, st, addr, n): return True

def mk_models(m):
    M = dict(models.BASE)
    def point(ex, st, a, rt):
        g = m.gens[cval(a[0])]; sec, pos, text = g.points[cval(a[1])]
        st.g['cur'] = (g.k, sec, pos, text)
        at = 'at "%s"' % text
        d = st.g.get('desc')
        if d is None: return ('ret', st, BV(0, 32))
        k, D, P = d
        inr = D.start and D.post and sec == D.start[0] and k == g.k and asmx.norm(P, D.start)[1] <= pos < asmx.norm(P, D.post)[1]
        if st.g.get('ab') is not None: return ('ret', st, BV(0, 32))
        if st.g.get('left'): return ('ret', st, BV(0, 32))
        if not inr:
            # leaving the range for good (exit paths): from here on no user memory may be touched
            if not st.g.get('entered'):
                ex.oblige(st, 'no instruction between announcing the descriptor and the start of its range (%s)' % at, FALSE, ('C04', 'C02'), cont=False)
            st.g['left'] = 'l'
            return ('ret', st, BV(0, 32))
        st.g['entered'] = 'e'
        res = [('ret', st, BV(0, 32))]
        if D.abort is not None and not ex.hooks.get('noabort'):
            st2 = st.copy(); st2.g['ab'] = text; st2.objs['rseq'].write(OFF_CS, 8, bv64(0))
            res.append(('ret', st2, BV(D.abort + 1, 32)))
        return res
    M['__rvc_point'] = point
    M['__rvc_tp'] = lambda ex, st, a, rt: ('ret', st, z3.BitVec('tp', 64))
    M['__rvc_label'] = lambda ex, st, a, rt: ('ret', st, z3.BitVec('L:%d:%d' % (cval(a[0]), cval(a[1])), 64))
    M['__rvc_undef'] = lambda ex, st, a, rt: ('ret', st, fresh('undef'))
    for w in (8, 16, 32):
        M['__rvc_reg%d' % w] = (lambda w: lambda ex, st, a, rt: ('ret', st, z3.Concat(fresh('hi', 64 - w), a[0])))(w)
    def falloff(ex, st, a, rt):
        ex.oblige(st, 'control never runs past the end of a code section', FALSE, ('C01', 'C02', 'C04'), cont=False); raise Infeasible()
    M['__rvc_falloff'] = falloff
    return M

def guard_mem(ex, st, o, off, n, what, addr, val):
    if what == 'load' and not st.g.get('desc'): st.g['early'] = 'e'
    if ex.quiet: return
    cur = st.g.get('cur'); at = cur[3] if cur else 'C code'
    if what == 'store':
        if st.g.get('ab') is not None:
            ex.oblige(st, 'no store to user memory after an abort ("%s")' % at, FALSE, ('C02',), cont=False)
        ok = bool(st.g.get('desc')) and bool(st.g.get('entered')) and not st.g.get('left')
        ex.oblige(st, 'store "%s" lies inside the announced range' % at, z3.BoolVal(ok), ('C02', 'C04'), cont=False)
        st.g['commit'] = at

def guard_rseq(ex, st, o, off, n, what, addr, val):
    if what == 'store':
        ok = off == OFF_CS and n == 8
        ex.oblige(st, 'only the rseq_cs field of the thread area is written', z3.BoolVal(ok), ('C04', 'C01'), cont=False)
        if not ok: return
        v = z3.simplify(val)
        if is_const(v) and cval(v) == 0: st.g.pop('desc', None); return
        nm = str(v)
        if not nm.startswith('L:'):
            ex.oblige(st, 'rseq_cs is set to the address of a descriptor', FALSE, ('C04',), cont=False); return
        _, k, lab = nm.split(':'); P = ex.m.gens[int(k)].P; D = asmx.descriptor(P, int(lab))
        for b in D.bad: ex.oblige(st, b, FALSE, ('C04',), cont=False)
        if not D.bad: ex.oblige(st, 'descriptor: version, flags, alignment, start, length and abort fields are well formed', TRUE, ('C04',), cont=False)
        ex.oblige(st, 'abort handler is preceded by the registered signature', z3.BoolVal(getattr(D, 'sig', None) == SIG and ex.sig == SIG), ('C04',), cont=False)
        if st.g.get('desc') is not None: raise Unsupported('descriptor announced twice')
        st.g['desc'] = (int(k), D, P)
        # anything read before this point may be stale: memory and ids are arbitrary from here on
        if st.g.get('early'):
            st.objs['mem'].havoc()
            for f in (OFF_CPU_ID, OFF_MM_CID): o.write(f, 4, fresh('id%d' % f, 32))
        st.g['M0'] = st.objs['mem'].copy()
        st.g['ids'] = (o.read(OFF_CPU_ID, 4), o.read(OFF_MM_CID, 4))
    elif not st.g.get('desc'): st.g['early'] = 'e'

def run_op(m, op, decide=None, timeout=600, case=None, fix=None):
    ex = Engine(m, mk_models(m)); ex.decide = set(decide) if decide else None; ex.func = 'rseq_%s__ptr' % op
    ex.deadline = time.time() + timeout
    ex.sig = frontend.consts(m).get('sig')
    C = frontend.consts(m)
    st = State()
    mem = Flat('mem', bv64(0), bv64(0)); mem.align8 = False; mem.guard = guard_mem; mem.pred = lambda a, n: TRUE
    roff = z3.BitVec('rseq_offset', 64); tp = z3.BitVec('tp', 64)
    R = Obj('rseq', z3.simplify(tp + roff), 32); R.guard = guard_rseq
    st.add(R)
    g = Obj('@rseq_offset', z3.BitVec('&@rseq_offset', 64), 8); g.write(0, 8, roff); st.add(g)
    st.add(mem)
    f = m.funcs['w_' + op]
    nm = names(op); A = {}
    for (t, pn), n in zip(f.params[2:], nm): A[n] = z3.BitVec(n, 32 if n == 'cpu' else 64)
    mo, mode = z3.BitVec('mo', 32), z3.BitVec('mode', 32)
    X = z3.BitVec('X', 64)
    if fix is not None: mo, mode = BV(fix[0], 32), BV(fix[1], 32)
    ex.func_args = A
    def M0(st): return st.g['M0'] if 'M0' in st.g else None
    if op == 'load_cbne_memcpy_store':
        # X inside the destination (X = dst + i), for both relative placements of the disjoint source; or X elsewhere
        U = bv64(1 << 47)
        i, gap = z3.BitVec('i', 64), z3.BitVec('gap', 64)
        st.assume(z3.ULT(A['len'], U), z3.ULT(i, U), z3.ULT(gap, U))
        if case in ('srcafter', 'dstafter'):
            lo = 'dst' if case == 'srcafter' else 'src'; hi = 'src' if lo == 'dst' else 'dst'
            A[hi] = A[lo] + A['len'] + gap
            st.assume(z3.ULT(A[lo], U)); st.assume(z3.ULT(i, A['len']))
            X = A['dst'] + i; S = A['src'] + i
            ex.watches = [Watch('mem', lambda s: X if M0(s) is not None else None, lambda s: [M0(s).readbyte(z3.simplify(S))], idx=[i]),
                          Watch('mem', lambda s: z3.simplify(S) if M0(s) is not None else None, ())]
        elif case == 'other':
            st.assume(z3.Or(z3.And(mo != 0, mo != 3), z3.And(mode != 0, mode != 1)))
        else:
            st.assume(z3.ULT(A['dst'], U), z3.Not(z3.ULT(X - A['dst'], A['len'])))
            ex.watches = [Watch('mem', lambda s: X if M0(s) is not None else None, ())]
    outs = ex.call_func(st, f, [mo, mode] + [A[n] for n in nm])
    nret = 0; rets = []
    rel = OPS[op][1]
    sup = z3.And(z3.Or(mo == BV(C.get('relaxed', 0), 32), z3.And(z3.BoolVal(rel), mo == BV(C.get('release', 3), 32))),
                 z3.Or(mode == BV(C.get('cpu_id', 0), 32), mode == BV(C.get('mm_cid', 1), 32)))
    for kind, s2, v in outs:
        if kind != 'ret':
            ex.oblige(s2, 'an operation never stops the program', FALSE, ('C01', 'C02'), cont=False); continue
        nret += 1; rets.append(s2)
        a0 = s2.g['M0'] if 'M0' in s2.g else mem
        ids = s2.g['ids'] if 'ids' in s2.g else (R.read(OFF_CPU_ID, 4), R.read(OFF_MM_CID, 4))
        fld = z3.If(mode == BV(C.get('cpu_id', 0), 32), ids[0], ids[1])
        now = s2.objs['mem'].readbyte(X); old = a0.readbyte(X)
        rv, spec, prep = SPEC[op](a0, A, X)
        ab = s2.g.get('ab')
        same = now == old
        if ab is None:
            ex.oblige(s2, 'unsupported ordering or mode: -1 and nothing stored', z3.Implies(z3.Not(sup), z3.And(v == BV(-1, 32), same)), ('C01', 'C03'), cont=False)
            ex.oblige(s2, 'wrong CPU or concurrency id: returns -1', z3.Implies(z3.And(sup, fld != A['cpu']), v == BV(-1, 32)), ('C03',), cont=False)
            ex.oblige(s2, 'wrong CPU or concurrency id: nothing stored', z3.Implies(z3.And(sup, fld != A['cpu']), same), ('C03',), cont=False)
            ok = z3.And(sup, fld == A['cpu'])
            ex.oblige(s2, 'undisturbed: return value as documented', z3.Implies(ok, v == rv), ('C01',), cont=False)
            ex.oblige(s2, 'undisturbed: every byte of memory as documented', z3.Implies(ok, now == spec), ('C01',), cont=False)
            # a success must have been announced, and nothing after the final store is restartable
            ex.oblige(s2, 'result 0 or 1 only from an announced sequence', z3.Implies(v != BV(-1, 32), z3.BoolVal('M0' in s2.g)), ('C02', 'C04'), cont=False)
        else:
            ex.oblige(s2, 'aborted at "%s": returns -1' % ab, v == BV(-1, 32), ('C02',), cont=False)
            ex.oblige(s2, 'aborted at "%s": only documented preparatory stores happened' % ab,
                      z3.Or(same, z3.And(sup, fld == A['cpu'], prep(now))), ('C02',), cont=False)
    for k, g in m.gens.items():
        pass
    ex.oblige(st, 'at least one return state', z3.BoolVal(nret > 0), ('C01', 'C02', 'C03', 'C04'), cont=False)
    ex.vacuity(rets)
    return ex

# ---- compiler contract of the asm statements themselves (static, per asm goto)
def run_static(m, decide=None):
    ex = Engine(m, {}); ex.decide = set(decide) if decide else None; st = State()
    for k, g in sorted(m.gens.items()):
        ex.func = 'asm goto #%d' % k
        w = g.written - {'rsp'}
        for r in sorted(w):
            ex.oblige(st, 'register %s written by the assembly is declared clobbered' % r, z3.BoolVal(r in g.clob), ('C01', 'C02'), cont=False)
        ex.oblige(st, 'stack pointer and frame are not modified', z3.BoolVal('rsp' not in g.written and ('rbp' not in g.written or 'rbp' in g.clob)), ('C01',), cont=False)
        ex.oblige(st, 'memory written by the assembly is declared clobbered', z3.BoolVal(not g.memwrite or 'memory' in g.clob), ('C01', 'C02'), cont=False)
        ex.oblige(st, 'condition codes are declared clobbered', z3.BoolVal('flags' in g.clob or 'cc' in g.clob), ('C01',), cont=False)
        for i in sorted(g.modified):
            ex.oblige(st, 'input operand %d is not modified (the compiler may share its register with another operand)' % i, FALSE, ('C01', 'C02'), cont=False)
        ex.oblige(st, 'input operands are not modified', z3.BoolVal(not g.modified), ('C01', 'C02'), cont=False)
    ex.vac = 'sat'
    return ex

# ---- documented pseudo-code: (memory, args, X) -> (return value, memory at X, predicate of allowed value at X after an abort)
def rd(a, p): return z3.Concat(*[a.readbyte(z3.simplify(p + bv64(i))) for i in reversed(range(8))])
def wr(X, p, val, old):
    d = X - p
    return z3.If(z3.ULT(d, bv64(8)), z3.Extract(7, 0, z3.LShR(val, d << 3)), old)
R0, R1 = BV(0, 32), BV(1, 32)
def with_store(a, p, v):
    b = a.copy(); b.write(z3.simplify(p), 8, v); return b

def s_cbne_store(a, A, X):
    ne = rd(a, A['v']) != A['expect']; old = a.readbyte(X)
    return z3.If(ne, R1, R0), z3.If(ne, old, wr(X, A['v'], A['newv'], old)), lambda now: FALSE
def s_add(a, A, X):
    old = a.readbyte(X)
    return R0, wr(X, A['v'], rd(a, A['v']) + A['count'], old), lambda now: FALSE
def s_cbeq(a, A, X):
    r1 = rd(a, A['v']); eq = r1 == A['expectnot']; old = a.readbyte(X)
    b = with_store(a, A['load'], r1); r2 = rd(b, r1 + A['voffp'])
    return z3.If(eq, R1, R0), z3.If(eq, old, wr(X, A['v'], r2, b.readbyte(X))), lambda now: z3.And(z3.Not(eq), now == b.readbyte(X))
def s_deref_add(a, A, X):
    r2 = rd(a, rd(a, A['ptr']) + A['off']); r3 = rd(a, r2)
    return R0, wr(X, r2, r3 + A['inc'], a.readbyte(X)), lambda now: FALSE
def s_cbne2(a, A, X):
    ne = z3.Or(rd(a, A['v']) != A['expect'], rd(a, A['v2']) != A['expect2']); old = a.readbyte(X)
    return z3.If(ne, R1, R0), z3.If(ne, old, wr(X, A['v'], A['newv'], old)), lambda now: FALSE
def s_storestore(a, A, X):
    ne = rd(a, A['v']) != A['expect']; old = a.readbyte(X); b = wr(X, A['v2'], A['newv2'], old)
    return z3.If(ne, R1, R0), z3.If(ne, old, wr(X, A['v'], A['newv'], b)), lambda now: z3.And(z3.Not(ne), now == b)
def s_memcpy(a, A, X):
    ne = rd(a, A['v']) != A['expect']; old = a.readbyte(X)
    inn = z3.ULT(X - A['dst'], A['len']); src = a.readbyte(A['src'] + (X - A['dst']))
    b = z3.If(inn, src, old)
    return z3.If(ne, R1, R0), z3.If(ne, old, wr(X, A['v'], A['newv'], b)), lambda now: z3.And(z3.Not(ne), inn, now == src)
SPEC = {'load_cbne_store': s_cbne_store, 'load_add_store': s_add, 'load_cbeq_store_add_load_store': s_cbeq,
        'load_add_load_load_add_store': s_deref_add, 'load_cbne_load_cbne_store': s_cbne2,
        'load_cbne_store_store': s_storestore, 'load_cbne_memcpy_store': s_memcpy}
