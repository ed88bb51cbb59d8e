"""Contract of rseq_mempool_range_init_numa (C18).

Ghost: for an arbitrary page P of the range, how often the kernel was asked to move it.  Every request
is checked slot by slot: only pages of the range, to the node of the CPU, with the caller's flags."""
import time, z3
from .engine import *
from . import models as MD
from .houdini import Watch
from .models import ret, i32

SIG = ['ptr', 'i64', 'i32', 'i32']
PG = 4096
def run(m, C, decide=None, tlimit=250):
    ex = Engine(m, dict(MD.BASE)); ex.func = 'rseq_mempool_range_init_numa'; ex.deadline = time.time() + tlimit
    if decide: ex.decide = set(decide)
    ex.word_arrays = True; ex.hto = 15000
    st = State(); addr, ln, cpu, fl = z3.BitVec('addr', 64), z3.BitVec('len', 64), z3.BitVec('cpu', 32), z3.BitVec('numa_flags', 32)
    P, K = z3.BitVec('P*', 64), z3.BitVec('K*', 64); nrp = z3.LShR(ln, 12); node = z3.BitVec('node_of_cpu', 32); T = ('C18',)
    st.assume(z3.ULE(ln, bv64(1 << 45)), z3.UGE(addr, bv64(4096)), z3.ULT(addr, bv64(1 << 46)), z3.ULT(P, nrp), z3.ULT(K, bv64(1 << 20)))
    st.g['cov'] = BV(0, 8); st.g['fail'] = False; st.g['asked'] = False
    def m_node(ex, st, a, rt):
        ex.oblige(st, 'the node of the given CPU is used', a[0] == cpu, T)
        s1, s2 = st.copy(), st
        s1.assume(node >= 0); s2.assume(node < 0); s2.g['fail'] = 'node'; MD.set_errno(ex, s2, 22)
        return [ret(s1, node), ret(s2, node)]
    def m_move(ex, st, a, rt):
        pid, n, pages, nodes, status, flags = a
        pid = z3.Extract(31, 0, pid)
        ex.oblige(st, 'pages of the calling process are moved', pid == 0, T)
        ex.oblige(st, 'the flags of the caller are passed on', flags == fl, T)
        ex.oblige(st, 'no request after a failure', z3.BoolVal(not st.g['fail']), T)
        n = z3.simplify(n)
        def arr(p, w, what):
            for o in st.objs.values():
                d = z3.simplify(p - o.base)
                if is_const(d) and cval(d) == 0 and o.kind == 'arena':
                    ex.oblige(st, '%s array holds every slot' % what, z3.ULE(n, bv64(cval(z3.simplify(o.size)) // w)), ('MEM',) + T)
                    return o
            raise Unsupported('move_pages ' + what)
        po, so, no = arr(pages, 8, 'pages'), arr(status, 4, 'status'), arr(nodes, 4, 'nodes')
        p0 = po.read(po.base, 8); pK = po.read(z3.simplify(po.base + (K << 3)), 8); nK = no.read(z3.simplify(no.base + (K << 2)), 4)
        act = z3.ULT(K, n); b = z3.LShR(p0 - addr, 12)
        for x in reversed(list(pv.values())):          # the first page as a simpler, provably equal term
            if ex.valid(st, z3.And(p0 == addr + (x << 12), z3.ULT(x, bv64(1 << 40)))): b = x; break
        if not ex.valid(st, z3.Implies(act, pK == p0 + (K << 12))) and not ex.quiet: raise Unsupported('request is not a run of consecutive pages')
        ex.oblige(st, 'only whole pages of the given range are moved', z3.Or(n == 0, z3.And((p0 - addr) & bv64(PG - 1) == 0, z3.ULT(b, nrp), z3.ULE(n, nrp - b))), T)
        ex.oblige(st, 'pages are moved to the node of the CPU', z3.Implies(act, nK == node), T)
        cnt = z3.If(z3.ULT(P - b, n), BV(1, 8), BV(0, 8))
        cnt = z3.simplify(cnt)
        st.g['cov'] = z3.simplify(st.g['cov'] + cnt)
        so.havoc(); ex.note_write(so.name, None, None)
        s1, s2 = st.copy(), st
        r = fresh('not_moved'); s1.assume(z3.ULE(r, n)); s2.g['fail'] = 'move'; e = fresh('errno', 32); s2.assume(e > 0); MD.set_errno(ex, s2, e); s2.g['errno'] = e
        return [ret(s1, r), ret(s2, bv64(-1))]
    ex.models.update({'numa_node_of_cpu': m_node, 'move_pages': m_move, 'numa_available': MD.m_nop32})
    def pl(st): return bv64(PG)
    ex.page_len = pl
    slots = {}; pv = {}; hs = {}
    def alloca(ex, st, o):
        """watch an arbitrary slot (and slot 0) of every local array"""
        if o.name in slots: return
        slots[o.name] = []
        for S in (K, bv64(0)):
            a = z3.simplify(o.base + (S << o.sh)); slots[o.name].append((S, a))
            ex.watches.append(Watch(o.name, a, targets=[node] if o.E == 4 else [], idx=[K] if not is_const(S) else []))
    ex.hooks['alloca'] = alloca
    def cands(ex, st, h, w, f, H):
        c = []; cv = st.g['cov']; key = (f.name, H)
        by = {(wt.arena, wt.addr.get_id()): x for x, wt, ev in w}
        hs[key] = [x for x, _ in h if not z3.is_bool(x) and x.size() == 64]
        outer = [x for k2, xs in hs.items() if k2 in ex.active and k2 != key for x in xs]       # position of the batch, kept by the enclosing loop
        for _, ex_ in h:
            if not z3.is_bool(ex_) and ex_.size() == 64 and not is_const(ex_) and not ex_.eq(addr): pv[ex_.get_id()] = ex_
        for x in outer: pv[x.get_id()] = x; q = nrp - x; pv[q.get_id()] = q
        for an, ss in slots.items():
            for S, a in ss:
                word = by.get((an, a.get_id()))
                if word is None or word.size() != 64: continue
                for hx, _ in h:
                    if z3.is_bool(hx) or hx.size() != 64: continue
                    for ey in [e for _, e in h if not z3.is_bool(e) and e.size() == 64] + outer:
                        if ey.eq(addr): continue
                        c += [z3.Implies(z3.ULT(S, hx), word == addr + ((ey + S) << 12)), z3.Implies(z3.ULT(S, hx), word == ey + (S << 12)), z3.Implies(z3.ULT(S, hx), word == addr + ((nrp - ey + S) << 12))]
        for x in hs[key]:
            for y in hs[key]:
                if x is not y: c += [x == addr + (y << 12), x == addr + ((nrp - y) << 12), x == nrp - y]
        for x, ev in h:
            if z3.is_bool(x) or x.size() != 64: continue
            c += [(x - addr) & bv64(PG - 1) == 0, z3.ULE(x - addr, nrp << 12)]
            c += [cv == z3.If(z3.ULT(P, x), BV(1, 8), BV(0, 8)), cv == z3.If(z3.ULT(P, nrp - x), BV(1, 8), BV(0, 8)), cv == z3.If(z3.ULT(P << 12, x - addr), BV(1, 8), BV(0, 8)), cv == z3.If(z3.ULT(P, nrp - x), BV(0, 8), BV(1, 8)), cv == z3.If(z3.UGE(P, x), BV(1, 8), BV(0, 8)), z3.ULE(x, nrp)]
        return c
    ex.hooks['loop_cands'] = cands
    outs = ex.call_func(st, m.funcs['rseq_mempool_range_init_numa'], [addr, ln, cpu, fl]); rs = []
    for k, s, v in outs:
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'placement does not stop the program', FALSE, T, cont=False); continue
        rs.append(s); f = s.g['fail']; v32 = z3.Extract(31, 0, v) if v.size() > 32 else v
        ex.oblige(s, 'success is reported only when every page was handed to the kernel exactly once', z3.Implies(v32 == 0, z3.And(s.g['cov'] == 1, z3.BoolVal(not f))), T, cont=False)
        ex.oblige(s, 'failure is reported as -1', z3.Implies(v32 != 0, v32 == -1), T, cont=False)
        ex.oblige(s, 'failure is reported only for missing flags, an unknown CPU or a failed request', z3.Implies(v32 != 0, z3.Or(fl == 0, z3.BoolVal(bool(f)))), T, cont=False)
        ex.oblige(s, 'missing flags are refused with EINVAL without any request', z3.Implies(fl == 0, z3.And(v32 == -1, MD.get_errno(s) == 22, s.g['cov'] == 0)), T, cont=False)
        if f == 'move': ex.oblige(s, 'errno of the failed request is kept', MD.get_errno(s) == s.g['errno'], T, cont=False)
        ex.oblige(s, 'no page is moved twice', z3.ULE(s.g['cov'], BV(1, 8)), T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex
