"""Contract of the possible-CPU count (src/smp.c): C17.

Ghost: the content of the kernel's mask file (any bytes, any split into reads, interrupted reads),
its highest CPU number N written at offset T..E; the CPU directories (any number of entries, highest
number M); the configured count.  The answer is judged at get_possible_cpus_array_len()."""
import time, z3
from .engine import *
from . import models as MD
from .models import ret, i32
from .houdini import Watch, syms
from .reg import cstr

SRC = 'src/smp.c'
EXTRA = '#include <stddef.h>\nconst int __rvc_o_type = offsetof(struct dirent, d_type), __rvc_o_name = offsetof(struct dirent, d_name), __rvc_s_dirent = sizeof(struct dirent);\n'
INT_MAX = 0x7fffffff; LONG_MAX = 0x7fffffffffffffff
T = ('C17',)
MASKPATH, DIRPATH = '/sys/devices/system/cpu/possible', '/sys/devices/system/cpu'

def run(m, C, scen, decide=None, tlimit=250):
    """scen: ok | unreadable | empty | malformed | huge  (the mask file)"""
    ex = Engine(m, dict(MD.BASE)); ex.func = 'get_possible_cpus_array_len, mask %s' % scen; ex.deadline = time.time() + tlimit
    if decide: ex.decide = set(decide)
    ex.hooks['global_init'] = True; ex.arena_min = 256; ex.hto = 10000
    st = State()
    FILE = z3.Function('mask_file', z3.BitVecSort(64), z3.BitVecSort(8)); LEN, Tt, En, J = [z3.BitVec(x, 64) for x in ('LEN', 'T', 'E', 'J*')]
    N, M, SC = z3.BitVec('N', 64), z3.BitVec('M', 64), z3.BitVec('nproc_conf', 64)
    sep = lambda b: z3.Or(b == ord(','), b == ord('-')); dig = lambda b: z3.And(z3.UGE(b, BV(48, 8)), z3.ULE(b, BV(57, 8)))
    NONE = bv64(-1)
    st.assume(z3.ULE(LEN, bv64(4095)), SC >= -1, SC <= INT_MAX, M >= -1, M < LONG_MAX)
    facts = lambda j: TRUE
    if scen in ('ok', 'huge'):
        st.assume(z3.ULT(Tt, En), z3.Or(LEN == En, z3.And(LEN == En + 1, FILE(En) == 10)), z3.ULT(En, bv64(4096)), z3.Implies(Tt != 0, sep(FILE(Tt - 1))), z3.ULE(Tt, bv64(4096)), Tt != 1)      # a list does not start with a separator
        st.assume(z3.ULT(N, bv64(INT_MAX)) if scen == 'ok' else z3.UGE(N, bv64(INT_MAX)))
        facts = lambda j: z3.And(z3.Implies(z3.And(z3.UGE(j, Tt), z3.ULT(j, En)), dig(FILE(j))), z3.Implies(z3.And(j == En, LEN != En), FILE(j) == 10))
    elif scen == 'empty': st.assume(LEN == 0)
    elif scen == 'malformed': st.assume(LEN != 0)
    st.assume(z3.ULT(J, LEN), facts(J)) if scen in ('ok', 'huge') else None
    st.g.update(pos=bv64(0), smax=NONE, fd='none', dir='none', os=0)
    # ---- mask file
    def m_open(ex, st, a, rt):
        ex.oblige(st, 'the possible mask of the kernel is read', z3.BoolVal(cstr(ex, st, a[0]) == MASKPATH), T)
        st.g['os'] += 1; s1, s2 = st.copy(), st
        s2.g['openfail'] = True; MD.set_errno(ex, s2, fresh('errno', 32)); r = []
        if scen != 'empty' and scen != 'malformed' and scen != 'huge' and scen != 'ok' or True:
            fd = fresh('fd', 32); s1.assume(fd >= 0); s1.g['pos'] = bv64(0); s1.g['fdv'] = fd; r.append(ret(s1, fd))
        if scen == 'unreadable': r.append(ret(s2, i32(-1)))
        return r
    def m_read(ex, st, a, rt):
        fd, p, n = a; out = []; pos = st.g['pos']
        s = st.copy(); MD.set_errno(ex, s, 4); out.append(ret(s, bv64(-1)))                      # EINTR
        if scen == 'unreadable':
            s = st.copy(); e = fresh('errno', 32); s.assume(e != 4); MD.set_errno(ex, s, e); out.append(ret(s, bv64(-1))); return out
        s = st.copy(); s.assume(z3.Or(n == 0, pos == LEN)); out.append(ret(s, bv64(0)))
        s = st; r = fresh('nread'); left = LEN - pos; s.assume(r != 0, z3.ULE(r, n), z3.ULE(r, left), z3.ULE(n, bv64(1 << 40)))
        if ex.feasible(s):
            for s2 in MD.region_write(ex, s, p, r, lambda d: FILE(pos + d), 'read'):
                s2.g['pos'] = z3.simplify(pos + r); out.append(ret(s2, r))
        return out
    def m_close(ex, st, a, rt): return [ret(st.copy(), i32(0))] + ([ret(st, i32(-1))] if scen == 'unreadable' else [])
    def m_closedir(ex, st, a, rt): return [ret(st.copy(), i32(0))] + ([ret(st, i32(-1))] if scen == 'empty' else [])
    # ---- numbers
    def arena(st): return next((o for o in st.objs.values() if o.kind == 'arena' and o.stack), None)
    def m_strtoul(ex, st, a, rt):
        p, endp, base = a; ex.oblige(st, 'numbers are decimal', base == 10, T)
        o = next((x for x in st.objs.values() if x.kind == 'struct' and x.name.startswith('dirent') and is_const(z3.simplify(p - x.base))), None)
        if o is not None: return dir_number(ex, st, p, endp, o)
        B = arena(st)
        if B is None: raise Unsupported('strtoul source')
        i = z3.simplify(p - B.base); out = []
        if scen == 'malformed':
            s = st; s.g['parsed'] = True
            for s2 in put(ex, s, endp, p): out.append(ret(s2, bv64(0)))
            return out
        if scen in ('ok', 'huge'):
            st.g['os'] += 0
            if ex.feasible(st, i == Tt):
                s = st.copy(); s.assume(i == Tt)
                ex.oblige(s, 'the text handed to the parser is the mask', z3.Implies(z3.UGE(J, Tt), B.readbyte(z3.simplify(B.base + J)) == FILE(J)), T)
                tb = B.readbyte(z3.simplify(B.base + LEN))
                ex.oblige(s, 'the text handed to the parser ends with the mask', z3.Implies(LEN == En, z3.Not(dig(tb))), T)
                for s2 in put(ex, s, endp, z3.simplify(p + (En - Tt))): out.append(ret(s2, N))
            if ex.feasible(st, i != Tt):
                s = st.copy(); s.assume(i != Tt); v = fresh('other_number'); k = fresh('consumed'); s.assume(z3.ULT(k, bv64(4096)))
                s.assume(z3.Implies(k == 0, v == 0), z3.Implies(z3.And(z3.ULT(i, LEN), dig(FILE(i))), z3.And(k != 0, z3.Implies(z3.Or(i == 0, sep(FILE(i - 1))), z3.ULE(v, N)))))
                for s2 in put(ex, s, endp, z3.simplify(p + k)): out.append(ret(s2, v))
            return out
        raise Unsupported('strtoul in ' + scen)
    def put(ex, st, endp, v):
        e = z3.simplify(endp)
        return [st] if is_const(e) and cval(e) == 0 else ex.store(st, endp, 8, v, 'end pointer')
    # ---- directories
    def m_opendir(ex, st, a, rt):
        ex.oblige(st, 'the CPU directories are read', z3.BoolVal(cstr(ex, st, a[0]) == DIRPATH), T); st.g['os'] += 1
        s1, s2 = st.copy(), st; r = []
        s1.g['smax'] = NONE; s1.g['dirno'] = st.g.get('dirno', 0) + 1; d = z3.BitVec('DIR', 64); s1.assume(d != 0, z3.Not(z3.Bool('nodir')))
        if ex.feasible(s1): r.append(ret(s1, d))
        s2.assume(z3.Bool('nodir'))
        if ex.feasible(s2): r.append(ret(s2, bv64(0)))
        return r
    def m_readdir(ex, st, a, rt):
        out = []
        s = st.copy(); s.assume(s.g['smax'] == M); out.append(ret(s, bv64(0)))                 # all entries seen
        s = st
        nm = 'dirent'
        o = s.objs[nm]
        for off in (C['o_type'],) + tuple(range(C['o_name'], C['o_name'] + 8)):
            o.write(off, 1, fresh('dirent', 8)); ex.note_write(nm, off, 1)
        v = fresh('cpu_id'); k0 = fresh('nodigits', 1); s.g['num'] = v; s.g['nodig'] = k0
        b = [o.read(C['o_name'] + i, 1) for i in range(8)]
        isdir = o.read(C['o_type'], 1) == 4; pre = z3.And(b[0] == ord('c'), b[1] == ord('p'), b[2] == ord('u'))
        ok = z3.And(isdir, pre, k0 == 0, b[7] == 0, v != LONG_MAX)
        s.assume(z3.Implies(ok, v <= M))
        s.g['smax'] = z3.simplify(z3.If(z3.And(ok, v > s.g['smax']), v, s.g['smax']))
        out.append(ret(s, o.base)); return out
    def dir_number(ex, st, p, endp, o):
        off = cval(z3.simplify(p - o.base)); out = []
        if off != C['o_name'] + 3: raise Unsupported('number at offset %d of a directory name' % off)
        for nod in (0, 1):
            s = st.copy(); s.assume(s.g['nodig'] == nod)
            if not ex.feasible(s): continue
            if nod: s.assume(s.g['num'] == 0)
            for s2 in put(ex, s, endp, z3.simplify(p if nod else p + 4)): out.append(ret(s2, s2.g['num']))
        return out
    def m_strncmp(ex, st, a, rt):
        n = z3.simplify(a[2])
        if not is_const(n) or cval(n) > 6: raise Unsupported('strncmp')
        def byts(p):
            o = ex.objof(st, z3.simplify(p))
            if o is None or o.kind != 'struct': raise Unsupported('strncmp operand')
            d = cval(z3.simplify(p - o.base)); return [o.read(d + i, 1) for i in range(cval(n))]
        x, y = byts(a[0]), byts(a[1]); r = fresh('strncmp', 32)
        st.assume((r == 0) == z3.And([p == q for p, q in zip(x, y)])); return ret(st, r)
    def m_sysconf(ex, st, a, rt):
        st.g['os'] += 1
        if ex.valid(st, a[0] == 83): return ret(st, SC)
        return ret(st, fresh('sysconf'))
    def onload(ex, s, o, off, addr, n, v):
        if o.kind == 'arena' and o.stack and n == 1:
            j = z3.simplify(addr - o.base); s.assume(facts(j))
            for an, F in s.g.get('gen', ()):
                if an == o.name: s.assume(z3.Implies(z3.ULT(j, LEN), z3.substitute(F, (J, j))))
    def kept(ex, st, cand, h, w):
        """an invariant proved for the arbitrary offset J holds for every offset: keep it for later loads"""
        for xx, wt, ev in w:
            if J.decl().name() in syms(wt.addr) and wt.arena in st.objs:
                B = st.objs[wt.arena]
                fs = [z3.substitute(c, (xx, B.basebyte(wt.addr))) for c in cand if xx.decl().name() in syms(c)]
                if fs: st.g['gen'] = st.g.get('gen', []) + [(wt.arena, z3.And(fs))]      # about one version of the text: stays true
    ex.hooks['kept'] = kept
    ex.hooks['load'] = onload
    def alloca(ex, st, o):
        if any(w.arena == o.name for w in ex.watches): return
        ex.watches += [Watch(o.name, z3.simplify(o.base + J), targets=[FILE(J)]), Watch(o.name, z3.simplify(o.base + Tt - 1), targets=[FILE(Tt - 1)])]
    ex.hooks['alloca'] = alloca
    def cands(ex, st, h, w, f, H):
        c = []
        for x, ev in h:
            if z3.is_bool(x) or x.size() != 64: continue
            c += [x == st.g['smax'], x >= -1, z3.ULE(x, bv64(4096)), x == st.g['pos'], z3.ULE(x, LEN), x >= Tt - 1, x >= Tt, x < LEN, x >= 0]
            B = arena(st)
            if B is not None and scen in ('ok', 'huge'):
                for xx, wt, ev2 in w:
                    if wt.arena == B.name and wt.targets:
                        c += [z3.Implies(z3.ULT(J, x), xx == FILE(J)) if wt.targets[0].eq(FILE(J)) else z3.Implies(z3.And(Tt != 0, z3.ULT(Tt - 1, x)), xx == FILE(Tt - 1))]
        pp = st.g['pos']
        if not is_const(pp): c += [z3.ULE(pp, LEN), z3.ULE(pp, bv64(4096))]
        c += [st.g['smax'] >= -1, st.g['smax'] <= M]
        return c
    ex.hooks['loop_cands'] = cands
    def m_strtol(ex, st, a, rt): return m_strtoul(ex, st, a, rt)
    for nm, fn in dict(open=m_open, open64=m_open, read=m_read, close=m_close, strtoul=m_strtoul, strtol=m_strtol, opendir=m_opendir, readdir=m_readdir, closedir=m_closedir,
                       strncmp=m_strncmp, sysconf=m_sysconf).items(): ex.models[nm] = fn; ex.models['__isoc23_' + nm] = fn; ex.models[nm + '64'] = fn
    o = Obj('dirent', z3.BitVec('&dirent', 64), C['s_dirent']); st.add(o); st.assume(z3.UGT(o.base, bv64(1 << 43)), z3.ULT(o.base, bv64(1 << 44)))
    for n, g in m.globals.items():
        if not g['const'] and not g['external'] and not n.startswith('@llvm.'): ex.glob(st, n)
    f = m.funcs['get_possible_cpus_array_len']; rs = []
    fb = z3.If(z3.Or(z3.Bool('nodir'), M < 0, M >= INT_MAX), bv64(0), M + 1); fb = z3.If(SC > fb, SC, fb)
    want = N + 1 if scen == 'ok' else z3.If(fb > 0, fb, bv64(0))
    # values found outside the mask scenarios
    for k, s, v in ex.call_func(st, f, []):
        s.trace = ['return']
        if k != 'ret': ex.oblige(s, 'counting does not stop the program', FALSE, T, cont=False); continue
        rs.append(s)
        ex.oblige(s, {'ok': 'the count is one more than the highest CPU of the possible mask'}.get(scen, 'without a usable mask the count is the larger of configured CPUs and highest CPU directory plus one, 0 if unknown'), z3.SignExt(32, v) == want, T, cont=False)
        # a later call gives the same answer whatever the system says then
        if scen in ('ok', 'malformed'):
            s2 = s.copy(); os0 = s2.g['os']
            if not ex.feasible(s2, v > 0): continue
            s2.assume(v > 0)
            for k2, s3, v2 in ex.call_func(s2, f, []):
                s3.trace = ['second call']
                if k2 != 'ret': ex.oblige(s3, 'counting does not stop the program', FALSE, T, cont=False); continue
                ex.oblige(s3, 'the count does not change after the first call', z3.And(v2 == v, z3.BoolVal(s3.g['os'] == os0)), T, cont=False)
    ex.nret = len(rs); ex.vacuity(rs); return ex
