"""rvc: verification-condition generator for LLVM IR produced from /repo's C sources.

Symbolic (forking) execution of the real code with
  * every memory access checked for ownership/bounds against the objects of a contract's
    precondition,
  * calls replaced by the callee's contract where one is registered, otherwise the callee's
    body is executed in place (so an extracted helper needs no annotation),
  * loops cut at their header with inductive invariants.  Invariants are found by Houdini
    (guess from the loop's own IR, keep the greatest inductive subset): nothing is annotated
    in the source, and a kept invariant has been proved on entry and preserved,
  * universally quantified facts handled with arbitrary-but-fixed ("skolem") watch cells.
Obligations are discharged by z3 one by one.  An obligation z3 refutes is 'failed' (with
model), a timeout is 'unknown'; the engine never turns either into a pass."""
import time, itertools, os
import z3
from .llir import *

BV = z3.BitVecVal
def bv64(x): return z3.BitVecVal(x, 64)
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)

class Infeasible(Exception): pass
class EngineLimit(Exception): pass

_ctr = itertools.count()
def fresh(name, w=64):
    return z3.BitVec('%s!%d' % (name, next(_ctr)), w)
def freshb(name):
    return z3.Bool('%s!%d' % (name, next(_ctr)))

def is_const(x): return z3.is_bv_value(x)
def cval(x): return x.as_long()

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.max = 0.0; s.unknown = 0
STATS = Stats()
TIMEOUT = int(os.environ.get('RVC_TIMEOUT_MS', '20000'))

SIMPLE_FIRST = [0]      # ms given to z3's SMT core before the bit-blasting tactic
def check(fs, timeout=None):
    """sat/unsat/unknown of the conjunction fs; returns (res, model)"""
    t = time.time(); r = z3.unknown
    if SIMPLE_FIRST[0]:
        s = z3.SimpleSolver(); s.set('timeout', SIMPLE_FIRST[0])
        for f in fs: s.add(f)
        r = s.check()
    if r == z3.unknown:
        s = z3.SolverFor('QF_UFBV') if not any_arr(fs) else z3.Solver()
        s.set('timeout', timeout or TIMEOUT)
        for f in fs: s.add(f)
        r = s.check()
    dt = time.time() - t
    STATS.queries += 1; STATS.time += dt; STATS.max = max(STATS.max, dt)
    if os.environ.get('RVC_SLOW') and dt > float(os.environ['RVC_SLOW']):
        print('SLOW %.2fs %s' % (dt, r), flush=True)
        open('/tmp/w/slow_%d.smt2' % STATS.queries, 'w').write(s.to_smt2())
    if r == z3.unknown: STATS.unknown += 1
    return r, (s.model() if r == z3.sat else None)

CVC5_USED = [0]
def cvc5_check(fs, tmo=40):
    """second back end, only asked when z3 gives up; only its 'unsat' is used"""
    import subprocess, tempfile
    s = z3.Solver(); s.add(*fs)
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write('(set-logic ALL)\n' + s.to_smt2()); f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 10)
        if r.stdout.split()[:1] == ['unsat']: CVC5_USED[0] += 1; return z3.unsat
    except Exception: pass
    finally: os.unlink(f.name)
    return z3.unknown

def any_arr(fs): return False

# ---------------------------------------------------------------- memory objects
class Obj:
    """fixed-size object: bytes held as lanes of symbolic values"""
    kind = 'struct'
    def __init__(s, name, base, size, zero=False, heap=False, stack=False, const=False):
        s.name, s.base, s.size = name, base, size
        s.b = {}; s.zero = zero; s.heap = heap; s.alive = True; s.stack = stack; s.const = const
        s.tag = None; s.guard = None; s.arr = {}
    def copy(s):
        o = object.__new__(Obj); o.__dict__.update(s.__dict__); o.b = dict(s.b); o.arr = dict(s.arr); return o
    def read(s, off, n):
        lanes = [s.b.get(off + i) for i in range(n)]
        if lanes[0] is not None and all(l is not None and l[0] is lanes[0][0] and l[1] == i for i, l in enumerate(lanes)) \
                and lanes[0][0].size() == 8 * n:
            return lanes[0][0]
        if all(l is None for l in lanes):
            v = BV(0, 8 * n) if s.zero else z3.BitVec('%s+%d' % (s.name, off), 8 * n)
            for i in range(n): s.b[off + i] = (v, i)
            return v
        parts = []
        for i in range(n):
            if lanes[i] is None:
                v = BV(0, 8) if s.zero else z3.BitVec('%s+%d' % (s.name, off + i), 8)
                s.b[off + i] = (v, 0); lanes[i] = (v, 0)
            v, l = lanes[i]
            parts.append(z3.Extract(8 * l + 7, 8 * l, v))
        return z3.simplify(z3.Concat(*reversed(parts))) if n > 1 else z3.simplify(parts[0])
    def write(s, off, n, v):
        for i in range(n): s.b[off + i] = (v, i)
    def readbyte_sym(s, offexpr, st):
        raise Unsupported('symbolic offset in %s' % s.name)

class Arena:
    """region of unbounded size: byte memory = base function + write log.
    entries: ('w', addr, nbytes, val) | ('r', addr, len, fn) where fn(X)->byte | ('c', cond(X), fn(X, old))"""
    kind = 'arena'
    def __init__(s, name, base, size, zero=False):
        s.name, s.base, s.size = name, base, size       # [base, base+size)
        s.M = None if zero else z3.Function('M_%s!%d' % (name, next(_ctr)), z3.BitVecSort(64), z3.BitVecSort(8))
        s.log = []; s.alive = True; s.tag = None; s.const = False; s.heap = False; s.stack = False
        s.align8 = True; s.guard = None; s.pred = None
    def copy(s):
        o = object.__new__(Arena); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def basebyte(s, X): return BV(0, 8) if s.M is None else s.M(X)
    def readbyte(s, X, upto=None):
        v = s.basebyte(X)
        for e in (s.log if upto is None else s.log[:upto]):
            if e[0] == 'w':
                d = z3.simplify(X - e[1])
                if is_const(d):
                    if cval(d) < e[2]:
                        v = z3.Extract(8 * cval(d) + 7, 8 * cval(d), e[3])
                    continue
                if e[2] == 1: b = e[3]
                else:
                    w = e[3].size()
                    dd = z3.Extract(w - 1, 0, d) if w < 64 else d
                    b = z3.Extract(7, 0, z3.LShR(e[3], dd << 3))
                v = z3.If(z3.ULT(d, bv64(e[2])), b, v)
            elif e[0] == 'r':
                v = z3.If(z3.ULT(X - e[1], e[2]), e[3](X - e[1]), v)
            else:
                v = z3.If(e[1](X), e[2](X, v), v)
        return v
    def read(s, addr, n):
        if s.log and s.log[-1][0] == 'w' and s.log[-1][2] == n and s.log[-1][1].eq(addr): return s.log[-1][3]
        # word read: skip word-stores at syntactically equal/different addresses
        if n > 1 and not any(e[0] != 'w' for e in s.log):
            v = None; ok = True
            base = z3.Concat(*[s.basebyte(z3.simplify(addr + bv64(i))) for i in reversed(range(n))])
            v = base
            for e in s.log:
                d = z3.simplify(addr - e[1])
                if is_const(d):
                    dv = cval(d)
                    if dv == 0 and e[2] == n: v = e[3]; continue
                    if dv >= e[2] and dv <= (1 << 64) - n: continue
                    ok = False; break
                elif e[2] == n and s.align8 and n == 8:
                    v = z3.If(d == 0, e[3], v)     # both 8-aligned (checked at access)
                else: ok = False; break
            if ok: return z3.simplify(v)
        bs = [s.readbyte(z3.simplify(addr + bv64(i))) for i in range(n)]
        return z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else z3.simplify(bs[0])
    def write(s, addr, n, v): s.log.append(('w', addr, n, v))
    def fill(s, addr, ln, fn): s.log.append(('r', addr, ln, fn))
    def havoc(s):
        s.M = z3.Function('M_%s!%d' % (s.name, next(_ctr)), z3.BitVecSort(64), z3.BitVecSort(8)); s.log = []
    def hit(s, X, p, n): return z3.ULT(X - p, n)          # X inside [p, p+n)
    def adiff(s, X, p): return X - p
    def at(s, p, off): return p + off
    def locate(s, ex, st, addr, n): return ex.valid(st, inside(addr, n, s))
    def low3(s, addr): return z3.Extract(2, 0, addr)

class WordArena(Arena):
    """local array accessed only in whole elements (power-of-two size E): cells are element-wide"""
    def __init__(s, name, base, size, E):
        Arena.__init__(s, name, base, size); s.E = E; s.sh = E.bit_length() - 1; s.align8 = False; s.unit = E; s.havoc()
    def copy(s):
        o = object.__new__(WordArena); o.__dict__.update(s.__dict__); o.log = list(s.log); return o
    def havoc(s):
        s.M = z3.Function('W_%s!%d' % (s.name, next(_ctr)), z3.BitVecSort(64), z3.BitVecSort(8 * s.E)); s.log = []
    def locate(s, ex, st, addr, n):
        from .houdini import syms
        return s.base.decl().name() in syms(addr) and ex.valid(st, inside(addr, n, s))
    def idx(s, X): return z3.simplify(z3.LShR(z3.simplify(X - s.base), s.sh))
    def readbyte(s, X, upto=None):
        i = s.idx(X); v = s.M(i)
        for e in (s.log if upto is None else s.log[:upto]):
            c = z3.simplify(i == s.idx(e[1]))
            v = e[3] if z3.is_true(c) else v if z3.is_false(c) else z3.If(c, e[3], v)
        return z3.simplify(v)
    def read(s, addr, n):
        if n != s.E: raise Unsupported('partial access to array ' + s.name)
        return s.readbyte(addr)
    def write(s, addr, n, v):
        if n != s.E: raise Unsupported('partial access to array ' + s.name)
        s.log.append(('w', addr, n, v))
    def fill(s, *a): raise Unsupported('block write to array ' + s.name)

class State:
    def __init__(s):
        s.pc = []; s.objs = {}; s.g = {}; s.trace = []; s.locks = {}
    def copy(s):
        n = State.__new__(State)
        n.pc = list(s.pc); n.objs = {k: o.copy() for k, o in s.objs.items()}
        n.g = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in s.g.items()}
        n.trace = list(s.trace); n.locks = dict(s.locks)
        return n
    def assume(s, *fs):
        for f in fs:
            f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
            if z3.is_false(f): raise Infeasible()
            if not z3.is_true(f): s.pc.append(f)
    def add(s, o): s.objs[o.name] = o; return o
    def __getitem__(s, n): return s.objs[n]

class Oblig:
    __slots__ = ('name', 'func', 'status', 'props', 'model', 'where', 'time', 'state')
    def __init__(s, **k):
        for a, v in k.items(): setattr(s, a, v)

class Engine:
    def __init__(s, mod, models, spec=None):
        s.m = mod; s.models = models; s.contracts = {}; s.obligs = []; s.quiet = 0
        s.func = '?'; s.used_contracts = set(); s.used_models = set(); s.inlined = set(); s.havoc_notes = []
        s.watches = []        # list of Watch
        s.targets = []        # candidate byte values for watches
        s.pow2 = []           # list of (term) known powers 1<<k
        s.max_unroll = 70
        s.deadline = None
        s.loop_stats = []
        s.assumptions = set()
        s.hooks = {}; s.heavy = {}; s.tainted = False
        s.limits = []
        s.depth = 0

    # ------------------------------------------------------------ solver helpers
    def tick(s):
        if s.deadline and time.time() > s.deadline: raise EngineLimit('time budget exhausted in ' + s.func)
    def feasible(s, st, *extra):
        s.tick()
        ex = []
        for e in extra:
            e = z3.simplify(e)
            if z3.is_false(e): return False
            if not z3.is_true(e): ex.append(e)
        if extra and not ex: return True
        if s.heavy:
            r, _ = check(s.light(st.pc) + ex)
            if r == z3.unsat: return False
            if s.quiet: return True
        r, _ = check(st.pc + ex)
        return r != z3.unsat
    def light(s, pc): return [f for f in pc if f.get_id() not in s.heavy] if s.heavy else pc
    def assume_heavy(s, st, *fs):
        """facts left out of loop-invariant inference and of a first attempt at each obligation"""
        n = len(st.pc); st.assume(*fs)
        for f in st.pc[n:]: s.heavy[f.get_id()] = f
    def valid(s, st, c):
        s.tick()
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c) : return not s.feasible(st)
        if s.heavy:
            r, _ = check(s.light(st.pc) + [z3.Not(c)])
            if r == z3.unsat: return True
            if s.quiet: return False
        r, _ = check(st.pc + [z3.Not(c)])
        return r == z3.unsat
    def oblige(s, st, name, cond, props=(), cont=True, timeout=None, full=False, split=()):
        """record and discharge pc => cond.  Then continue assuming cond."""
        s.tick()
        if isinstance(cond, bool): cond = z3.BoolVal(cond)
        if not cont and s.decide is not None and props and not (set(props) & s.decide): return    # decided by another property's check
        c = z3.simplify(cond); t = time.time(); model = None
        if z3.is_true(c): status = 'proved'
        elif split and not s.quiet:
            status = 'proved'
            for case in [z3.Not(z3.Or(*split))] + list(split):
                case = z3.simplify(case)
                if z3.is_false(case): continue
                r = z3.unknown
                if s.heavy and not full: r, model = check(s.light(st.pc) + [case, z3.Not(c)], 2000)
                if r != z3.unsat: r, model = check(st.pc + [case, z3.Not(c)], timeout)
                if r == z3.unknown: r = cvc5_check(st.pc + [case, z3.Not(c)])
                if r != z3.unsat: status = 'failed' if r == z3.sat else 'unknown'; break
        else:
            if not s.quiet:
                r = z3.unknown
                if s.heavy and not full: r, model = check(s.light(st.pc) + [z3.Not(c)], 2000)
                if r != z3.unsat: r, model = check(st.pc + [z3.Not(c)], timeout)
                if r == z3.unknown: r = cvc5_check(st.pc + [z3.Not(c)])
                status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
            else: status = 'quiet'
        if not s.quiet:
            s.obligs.append(Oblig(name=name, func=s.func, status=status, props=frozenset(props), model=model,
                                  where=st.trace[-1] if st.trace else '', time=time.time() - t, state=st if status != 'proved' else None))
        if cont and not z3.is_true(c):
            if z3.is_false(c): raise Infeasible()
            st.assume(c)
            if status in ('failed', 'unknown') and not s.feasible(st): raise Infeasible()

    # ------------------------------------------------------------ memory
    def resolve(s, st, addr, n, what):
        """-> list of (state, obj, off) where off is int for Obj, None for Arena"""
        addr = z3.simplify(addr)
        for o in st.objs.values():
            if o.kind == 'struct':
                d = z3.simplify(addr - o.base)
                if is_const(d) and cval(d) + n <= o.size:
                    s.obj_access(st, o, what)
                    return [(st, o.name, cval(d))]
        if is_const(addr) and cval(addr) < 4096:
            s.oblige(st, 'no access through NULL (%s)' % what, FALSE, ('MEM',)); raise Infeasible()
        sp = s.hooks.get('split')
        if sp:
            alts = sp(s, st, addr)
            if alts: 
                outs = []
                for st2, a2 in alts:
                    try: outs += s.resolve(st2, a2, n, what)
                    except Infeasible: pass
                if not outs: raise Infeasible()
                return outs
        # arenas: syntactic hint, then solver
        hit = None
        for o in st.objs.values():
            if o.kind == 'arena' and o.alive:
                if o.locate(s, st, addr, n): hit = o; break
        if hit is not None:
            return [(st, hit.name, None)]
        # fork over feasible objects
        outs = []; rest = []
        for o in list(st.objs.values()):
            if getattr(o, 'structural', False): continue
            c = inside(addr, n, o)
            if s.feasible(st, c):
                st2 = st.copy()
                try: st2.assume(c)
                except Infeasible: continue
                if o.kind == 'struct':
                    # the offset must be unique
                    r, m = check(st2.pc)
                    if r != z3.sat: continue
                    off = m.eval(addr - o.base, model_completion=True).as_long()
                    if not s.valid(st2, addr - o.base == bv64(off)):
                        outs += s.enum_offsets(st2, addr, o, n); rest.append(c); continue
                    st2.assume(addr - o.base == bv64(off))
                    s.obj_access(st2, st2.objs[o.name], what)
                    outs.append((st2, o.name, off))
                else: outs.append((st2, o.name, None))
                rest.append(c)
        bad = z3.Not(z3.Or(rest)) if rest else TRUE
        st3 = st.copy()
        if s.feasible(st3, bad):
            if not s.quiet:
                r, m = check(st3.pc + [bad])
                s.obligs.append(Oblig(name='access inside an owned object: ' + what, func=s.func, status='failed' if r == z3.sat else 'unknown',
                                      props=frozenset(('MEM',)), model=m, where=st.trace[-1] if st.trace else '', time=0, state=st3))
        elif not s.quiet:
            s.obligs.append(Oblig(name='access inside an owned object: ' + what, func=s.func, status='proved', props=frozenset(('MEM',)),
                                  model=None, where=st.trace[-1] if st.trace else '', time=0, state=None))
        if not outs: raise Infeasible()
        return outs
    def enum_offsets(s, st, addr, o, n, limit=80):
        outs = []; block = []
        while True:
            r, m = check(st.pc + block)
            if r == z3.unsat: return outs
            if r != z3.sat or len(outs) > limit: raise Unsupported('symbolic offset in ' + o.name)
            off = m.eval(addr - o.base, model_completion=True).as_long()
            e = addr - o.base == bv64(off); st2 = st.copy(); st2.assume(e)
            outs.append((st2, o.name, off)); block.append(z3.Not(e))
    def obj_access(s, st, o, what):
        if not o.alive: s.oblige(st, 'no use after release of %s (%s)' % (o.name, what), FALSE, ('MEM', 'LIFE'))
    def guardcheck(s, st, o, off, n, what, addr=None, val=None, before=None):
        if o.guard: o.guard(s, st, o, off, n, what, addr, val)
    def load(s, st, addr, n, what='load'):
        res = []
        for (st2, on, off) in s.resolve(st, addr, n, what):
            o = st2.objs[on]
            try:
                s.guardcheck(st2, o, off, n, 'load', addr)
                if off is not None: v = o.read(off, n)
                else:
                    if n == 8 and o.align8: s.oblige(st2, 'aligned access to ' + o.name, o.low3(addr) == 0, ('MEM',))
                    v = o.read(z3.simplify(addr), n)
                h = s.hooks.get('load')
                if h: h(s, st2, o, off, addr, n, v)
                res.append((st2, v))
            except Infeasible: pass
        if not res: raise Infeasible()
        return res
    def store(s, st, addr, n, v, what='store'):
        res = []
        for (st2, on, off) in s.resolve(st, addr, n, what):
            o = st2.objs[on]
            try:
                if o.const: s.oblige(st2, 'no write to constant ' + o.name, FALSE, ('MEM',))
                s.guardcheck(st2, o, off, n, 'store', addr, v)
                if off is not None: o.write(off, n, v); s.note_write(on, off, n)
                else:
                    if n == 8 and o.align8: s.oblige(st2, 'aligned access to ' + o.name, o.low3(addr) == 0, ('MEM',))
                    o.write(z3.simplify(addr), n, v); s.note_write(on, None, None)
                    h = s.hooks.get('arena_store')
                    if h: h(s, st2, o, z3.simplify(addr), n, v)
                res.append(st2)
            except Infeasible: pass
        if not res: raise Infeasible()
        return res
    writes = None; and_hook = None; shr_hook = None; canon_hook = None; ext_hook = None
    def note_write(s, on, off, n):
        if s.writes is not None: s.writes.add((on, off, n))

    # ------------------------------------------------------------ values
    def val(s, env, st, ty, v):
        k = v[0]
        if k == 'loc': return env[v[1]]
        if k == 'int':
            if isinstance(ty, TPtr): return bv64(v[1])
            if ty.w == 1: return z3.BoolVal(v[1] & 1 == 1)
            return BV(v[1], ty.w)
        if k == 'glob': return s.glob(st, v[1])
        if k == 'undef':
            if isinstance(ty, TPtr): return fresh('undef')
            if isinstance(ty, TInt): return freshb('undef') if ty.w == 1 else fresh('undef', ty.w)
            return None
        if k == 'zero':
            if isinstance(ty, TInt): return BV(0, ty.w)
            return bv64(0)
        if k == 'cgep': return s.gep(env, st, v[1], v[2])
        if k == 'ccast':
            x = s.val(env, st, v[2], v[3])
            return s.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            a = s.val(env, st, v[2], v[3]); b = s.val(env, st, v[2], v[4])
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[v[1]]
        if k == 'fp': return None
        raise Unsupported('value %r' % (v,))
    def glob(s, st, name):
        n = name[1:]
        if n in s.m.funcs or n in s.m.decls:
            return z3.BitVec('fn:' + n, 64)
        if name not in st.objs:
            g = s.m.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            try: size = s.m.size(g['type']) if g['type'] is not None else 8
            except Unsupported: size = 64
            base = z3.BitVec('&' + name, 64)
            o = Obj(name, base, size, const=g['const'])
            if g['const'] and g['init'] is not None: s.init_const(o, g['type'], g['init'])
            elif g['init'] is not None and s.hooks.get('global_init'): s.init_const(o, g['type'], g['init'])
            st.add(o)
            st.pc.append(z3.And(z3.UGT(base, bv64(0x10000)), z3.ULT(base, bv64(1 << 46))))
        return st.objs[name].base
    def init_const(s, o, t, v):
        if v[0] == 'str':
            raw = v[1]; raw = raw[raw.index('"') + 1:-1]; bs = []; i = 0
            while i < len(raw):
                if raw[i] == '\\': bs.append(int(raw[i+1:i+3], 16)); i += 3
                else: bs.append(ord(raw[i])); i += 1
            for i, b in enumerate(bs): o.write(i, 1, BV(b, 8))
        elif v[0] == 'int':
            n = s.m.size(t); o.write(0, n, BV(v[1], 8 * n))
        elif v[0] == 'zero': o.zero = True
        elif v[0] == 'agg' and isinstance(t, TArr):
            es = s.m.size(t.e)
            for i, (et, ev) in enumerate(v[1]):
                if ev[0] == 'int': o.write(i * es, es, BV(ev[1], 8 * es))
                elif ev[0] == 'zero':
                    for k in range(es): o.write(i * es + k, 1, BV(0, 8))
        elif v[0] == 'agg' and isinstance(t, TStruct):
            for i, (et, ev) in enumerate(v[1]):
                off, ft = s.m.field(t, i); fs = s.m.size(ft)
                if ev[0] == 'int': o.write(off, fs, BV(ev[1], 8 * fs))
                elif ev[0] == 'zero':
                    for k in range(fs): o.write(off + k, 1, BV(0, 8))
    def gep(s, env, st, bt, ops):
        a = s.val(env, st, ops[0][0], ops[0][1])
        first = True; t = bt
        for ot, ov in ops[1:]:
            i = s.val(env, st, ot, ov)
            if first: esz = s.m.size(t); first = False
            elif isinstance(t, TStruct):
                off, t = s.m.field(t, cval(z3.simplify(i))); a = a + bv64(off); continue
            elif isinstance(t, TArr): t = t.e; esz = s.m.size(t)
            else: raise Unsupported('gep')
            if i.size() < 64: i = z3.SignExt(64 - i.size(), i)
            elif i.size() > 64: i = z3.Extract(63, 0, i)
            a = a + (i if esz == 1 else i * bv64(esz) if (esz & (esz - 1)) else (i << bv64(esz.bit_length() - 1)))
        a = z3.simplify(a)
        return s.canon_hook(a) if s.canon_hook else a
    def cast(s, op, t, x, t2):
        if isinstance(t, TPtr) and isinstance(t2, TPtr): return x
        w1 = 64 if isinstance(t, TPtr) else t.w; w2 = 64 if isinstance(t2, TPtr) else t2.w
        if w1 == 1:
            if w2 == 1: return x
            return z3.If(x, BV(1, w2) if op == 'zext' else BV(-1, w2), BV(0, w2))
        if w2 == 1: return z3.Extract(0, 0, x) == BV(1, 1)
        if w2 < w1: return z3.simplify(z3.Extract(w2 - 1, 0, x))
        if w2 == w1: return x
        if s.ext_hook:
            r = s.ext_hook(x, w2)
            if r is not None: return r
        return z3.simplify(z3.SignExt(w2 - w1, x) if op == 'sext' else z3.ZeroExt(w2 - w1, x))
    def binop(s, st, op, w, a, b, flags):
        if w == 1:
            return {'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b), 'add': z3.Xor(a, b), 'sub': z3.Xor(a, b)}[op]
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = s.mul(st, a, b)
        elif op == 'and':
            r = s.and_hook(s, st, a, b) if s.and_hook and w == 64 else None
            if r is None: r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op in ('shl', 'lshr', 'ashr'):
            s.oblige(st, 'shift amount below width', z3.ULT(b, BV(w, w)), ('ARITH',))
            r = s.shr_hook(s, st, a, b) if s.shr_hook and w == 64 and op == 'lshr' else None
            if r is None and is_const(a) and cval(a) == 0: r = a
            if r is None: r = a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            s.oblige(st, 'division by non-zero', b != 0, ('ARITH',))
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](a, b)
        else: raise Unsupported(op)
        r = z3.simplify(r)
        return s.canon_hook(r) if s.canon_hook and w == 64 and op in ('add', 'sub') else r
    def mul(s, st, a, b):
        for x, y in ((a, b), (b, a)):
            k = s.log2(st, x)
            if k is not None: return y if is_const(y) and cval(y) == 0 else y << k
        return a * b
    def log2(s, st, x):
        x = z3.simplify(x)
        for t, k in s.pow2:
            if x.eq(t): return k
        if x.decl().kind() == z3.Z3_OP_BSHL and is_const(x.arg(0)) and cval(x.arg(0)) == 1: return x.arg(1)
        if x.decl().kind() == z3.Z3_OP_BSHL:
            k = s.log2(st, x.arg(0))
            if k is not None: return k + x.arg(1)
        if is_const(x) and cval(x) and cval(x) & (cval(x) - 1) == 0: return BV(cval(x).bit_length() - 1, x.size())
        return None
    def objof(s, st, x):
        for o in st.objs.values():
            if o.kind == 'struct':
                d = z3.simplify(x - o.base)
                if is_const(d) and cval(d) <= o.size: return o
            elif getattr(o, 'structural', False):
                sa = o.w.dec(x)
                if sa is not None and not o.w.proven(s, st, sa, 0): return o
        return None
    def ptr_cmp(s, st, c, a, b):
        """equality of pointers into distinct objects / with NULL is decided without the solver"""
        if c not in ('eq', 'ne'): return None
        a, b = z3.simplify(a), z3.simplify(b)
        if is_const(a): a, b = b, a
        if is_const(a) or a.eq(b): return None
        if is_const(b) and cval(b) != 0: return None
        oa = s.objof(st, a)
        if oa is None: return None
        if not is_const(b):
            ob = s.objof(st, b)
            if ob is None or ob is oa: return None
        return z3.BoolVal(c == 'ne')
    def icmp(s, c, a, b):
        if z3.is_bool(a):
            if c == 'eq': return a == b
            if c == 'ne': return z3.Xor(a, b)
            a, b = z3.If(a, BV(1, 1), BV(0, 1)), z3.If(b, BV(1, 1), BV(0, 1))
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'slt': lambda: a < b, 'sle': lambda: a <= b}[c]()

    # ------------------------------------------------------------ execution
    def call_func(s, st, f, args):
        """execute body. -> list of (kind, state, value); kind in ret/abort/exit"""
        env = {}
        if len(args) < len(f.params): raise Unsupported('arity ' + f.name)
        for (t, n), a in zip(f.params, args): env[n] = a
        s.depth += 1
        if s.depth > 30: raise Unsupported('recursion')
        try:
            outs = s.region(st, env, f, f.entry(), None, None, None)
        finally: s.depth -= 1
        return [(o[0], o[1], o[2]) for o in outs]
    def region(s, st, env, f, blk, prev, hdr, body, first=False):
        """run from blk; outcomes: ('ret',st,val) ('abort',st,why) ('back',st,env,prev) ('leave',st,env,blk,prev)"""
        outs = []; work = [(st, env, blk, prev, first)]
        while work:
            st, env, blk, prev, first = work.pop()
            s.tick()
            try:
                if hdr is not None and not first:
                    if blk == hdr: outs.append(('back', st, env, prev)); continue
                    if blk not in body: outs.append(('leave', st, env, blk, prev)); continue
                if blk in f.loops and not first:
                    for o in s.loop(st, env, f, blk, prev):
                        if o[0] == 'leave': work.append((o[1], o[2], o[3], o[4], False))
                        else: outs.append(o)
                    continue
                for nxt in s.block(st, env, f, blk, prev, skipphi=first):
                    if nxt[0] == 'goto': work.append((nxt[1], nxt[2], nxt[3], blk, False))
                    else: outs.append(nxt)
            except Infeasible: pass
        return outs
    def block(s, st, env, f, blk, prev, skipphi=False):
        ins = f.blocks[blk]
        i = 0
        newv = {}
        while i < len(ins) and ins[i].op == 'phi':
            if not skipphi:
                t, inc = ins[i].a
                for v, b in inc:
                    if b == prev: newv[ins[i].dst] = s.val(env, st, t, v); break
                else: raise Unsupported('phi')
            i += 1
        if newv: env = dict(env); env.update(newv)
        return s.instrs(st, env, f, blk, i)
    def instrs(s, st, env, f, blk, i):
        ins = f.blocks[blk]; outs = []
        work = [(st, env, i)]
        while work:
            st, env, i = work.pop()
            env = dict(env)
            try:
                while True:
                    I = ins[i]; op = I.op; a = I.a
                    st.trace = st.trace[-1:] if len(st.trace) > 1 else st.trace
                    st.trace = [f.name + ':' + I.text.strip()[:100]]
                    if op in BINOPS:
                        x = s.val(env, st, a[0], a[1]); y = s.val(env, st, a[0], a[2])
                        env[I.dst] = s.binop(st, op, a[0].w, x, y, a[3])
                    elif op == 'icmp':
                        x = s.val(env, st, a[1], a[2]); y = s.val(env, st, a[1], a[3])
                        q = s.ptr_cmp(st, a[0], x, y) if not z3.is_bool(x) and x.size() == 64 else None
                        env[I.dst] = q if q is not None else z3.simplify(s.icmp(a[0], x, y))
                        if s.cmps is not None: s.cmps.append((x, y))
                    elif op in CASTS: env[I.dst] = s.cast(op, a[0], s.val(env, st, a[0], a[1]), a[2])
                    elif op == 'getelementptr': env[I.dst] = s.gep(env, st, a[0], a[1])
                    elif op == 'select':
                        c = z3.simplify(s.val(env, st, TInt(1), a[0][1])); x = s.val(env, st, a[1], a[2]); y = s.val(env, st, a[1], a[3])
                        if isinstance(a[1], TPtr) and not z3.is_true(c) and not z3.is_false(c):
                            t = s.feasible(st, c); e = s.feasible(st, z3.Not(c))
                            if t and e:
                                st2 = st.copy(); st2.assume(z3.Not(c)); e2 = dict(env); e2[I.dst] = y; work.append((st2, e2, i + 1)); st.assume(c)
                            env[I.dst] = x if t else y
                        else: env[I.dst] = x if z3.is_true(c) else y if z3.is_false(c) else z3.simplify(z3.If(c, x, y))
                    elif op == 'freeze': env[I.dst] = s.val(env, st, a[0], a[1])
                    elif op == 'load':
                        p = s.val(env, st, a[1][0], a[1][1]); n = s.m.size(a[0])
                        if s.addrs is not None: s.addrs.append(p)
                        rs = s.load(st, p, n, I.text.strip()[:80])
                        for st2, v in rs[1:]:
                            e2 = dict(env); e2[I.dst] = s.cast('trunc', TInt(8), v, TInt(1)) if isinstance(a[0], TInt) and a[0].w == 1 else v; work.append((st2, e2, i + 1))
                        st, v = rs[0]; env[I.dst] = s.cast('trunc', TInt(8), v, TInt(1)) if isinstance(a[0], TInt) and a[0].w == 1 else v
                    elif op == 'store':
                        v = s.val(env, st, a[0][0], a[0][1]); p = s.val(env, st, a[1][0], a[1][1]); n = s.m.size(a[0][0])
                        if z3.is_bool(v): v = z3.If(v, BV(1, 8), BV(0, 8))
                        if s.addrs is not None: s.addrs.append(p)
                        rs = s.store(st, p, n, v, I.text.strip()[:80])
                        for st2 in rs[1:]: work.append((st2, dict(env), i + 1))
                        st = rs[0]
                    elif op == 'alloca':
                        n = s.m.size(a[0])
                        if a[1] is not None: raise Unsupported('vla')
                        nm = 'stack:%s:%s:%d' % (f.name, I.dst, next(_ctr))
                        base = z3.BitVec('&' + nm, 64)
                        at = a[0]
                        if s.word_arrays and isinstance(at, TArr) and s.m.size(at.e) in (2, 4, 8): o = WordArena(nm, base, bv64(n), s.m.size(at.e)); o.stack = True
                        elif n > s.arena_min: o = Arena(nm, base, bv64(n)); o.align8 = True; o.stack = True
                        else: o = Obj(nm, base, n, stack=True)
                        st.add(o); st.pc.append(z3.And(z3.ULT(base, bv64((1 << 47) - 65536)), z3.UGT(base, bv64((1 << 46))), z3.Extract(3, 0, base) == 0))
                        env[I.dst] = base
                        if o.kind == 'arena' and 'alloca' in s.hooks: s.hooks['alloca'](s, st, o)
                    elif op == 'call':
                        rs = s.call(st, env, f, I)
                        nrs = []
                        for r in rs:
                            if r[0] == 'ret': nrs.append(r)
                            else: outs.append(r)
                        if not nrs: raise Infeasible()
                        for _, st2, v in nrs[1:]:
                            e2 = dict(env)
                            if I.dst: e2[I.dst] = v
                            work.append((st2, e2, i + 1))
                        st = nrs[0][1]
                        if I.dst: env[I.dst] = nrs[0][2]
                    elif op == 'extractvalue':
                        env[I.dst] = s.val(env, st, a[0], a[1])[a[2]]
                    elif op == 'insertvalue':
                        b = s.val(env, st, a[0], a[1]) if a[1][0] != 'undef' else [None] * 4
                        b = list(b); b[a[3]] = s.val(env, st, a[2][0], a[2][1]); env[I.dst] = b
                    elif op == 'fence': pass
                    elif op == 'br':
                        if a[0] is None: outs.append(('goto', st, env, a[1])); break
                        c = z3.simplify(s.val(env, st, TInt(1), a[0][1]))
                        if z3.is_true(c): outs.append(('goto', st, env, a[1])); break
                        if z3.is_false(c): outs.append(('goto', st, env, a[2])); break
                        t = s.feasible(st, c); e = s.feasible(st, z3.Not(c))
                        if t and e:
                            st2 = st.copy(); st2.assume(z3.Not(c)); outs.append(('goto', st2, dict(env), a[2]))
                            st.assume(c); outs.append(('goto', st, env, a[1]))
                        elif t: outs.append(('goto', st, env, a[1]))
                        elif e: outs.append(('goto', st, env, a[2]))
                        break
                    elif op == 'switch':
                        v = s.val(env, st, a[0][0], a[0][1]); neg = []
                        for cv, lb in a[2]:
                            c = z3.simplify(v == BV(cv, v.size()))
                            if s.feasible(st, c):
                                st2 = st.copy(); st2.assume(c); outs.append(('goto', st2, dict(env), lb))
                            neg.append(z3.Not(c))
                        if s.feasible(st, *neg):
                            st.assume(*neg); outs.append(('goto', st, env, a[1]))
                        break
                    elif op == 'ret':
                        v = None if a[0] is None else s.val(env, st, a[0][0], a[0][1])
                        outs.append(('ret', st, v)); break
                    elif op == 'unreachable':
                        break
                    else: raise Unsupported(op + ': ' + I.text)
                    i += 1
            except Infeasible: pass
        return outs
    cmps = None; addrs = None; decide = None
    def vacuity(s, sts):
        """is some return state reachable under the assumed precondition?  sat / unknown / unsat"""
        r = 'unsat'
        for st in sts[:6]:
            q, _ = check(st.pc, 5000)
            if q == z3.sat: s.vac = 'sat'; return
            if q == z3.unknown: r = 'unknown'
        s.vac = r
    def call(s, st, env, f, I):
        rt, callee, args = I.a
        if callee[0] == 'asm': return s.models['asm'](s, st, callee[1], callee[2], [s.val(env, st, t, v) for t, v in args], rt)
        vals = [None if isinstance(t, (TVoid,)) else s.val(env, st, t, v) for t, v in args]
        if callee[0] == 'glob':
            n = callee[1][1:]
            if n in s.contracts:
                s.used_contracts.add(n)
                return norm(s.contracts[n](s, st, vals, rt))
            if n in s.models: s.used_models.add(n); return norm(s.models[n](s, st, vals, rt))
            if n in s.m.funcs:
                s.inlined.add(n)
                return s.call_func(st, s.m.funcs[n], vals)
            if n.startswith('llvm.'):
                base = n.split('.')[1]
                for k in ('.'.join(n.split('.')[:3]), '.'.join(n.split('.')[:2])):
                    if k in s.models: s.used_models.add(k); return norm(s.models[k](s, st, vals, rt))
                if base in ('lifetime', 'dbg', 'assume', 'va_start', 'va_end', 'experimental', 'donothing', 'stacksave', 'stackrestore'): return [('ret', st, bv64(0))]
            raise Unsupported('call to ' + n)
        fp = s.val(env, st, PTR, callee)
        if 'indirect' in s.models: return norm(s.models['indirect'](s, st, vals, rt, fp))
        raise Unsupported('indirect call')

    # ------------------------------------------------------------ loops
    def loop(s, st, env, f, H, prev):
        body = f.loops[H]
        r = s.try_unroll(st, env, f, H, prev, body)
        if r is not None: return r
        return s.cut(st, env, f, H, prev, body)
    def try_unroll(s, st0, env0, f, H, prev, body):
        """complete unrolling when every iteration's exit test is decided by constants"""
        lim = s.max_unroll
        if s.no_unroll(st0, env0, f, H, prev):
            if s.fork_unroll and any(I.op == 'store' for b in body for I in f.blocks[b]) and not any(b in f.loops for b in body if b != H): lim = s.fork_unroll
            elif s.list_unroll and s.walks_list(f, H, body): lim = s.list_unroll
            else: return None
        save = len(s.obligs)
        outs = []; cur = [(st0.copy(), env0, prev)]
        it = 0
        sw = s.writes; s.writes = set() if sw is None else sw
        try:
            while cur:
                it += 1
                if it > lim: del s.obligs[save:]; return None
                nxt = []
                for st, env, pv in cur:
                    env = s.phis(st, env, f, H, pv)
                    os_ = s.region(st, env, f, H, pv, H, body, first=True)
                    for o in os_:
                        if o[0] == 'back': nxt.append((o[1], o[2], o[3]))
                        else: outs.append(o)
                    if len(nxt) > 8: del s.obligs[save:]; return None
                cur = nxt
        finally: s.writes = sw
        s.loop_stats.append((f.name, H, 'unrolled', it))
        return outs
    hto = 4000; list_unroll = 0; arena_min = 4096; fork_unroll = 0; word_arrays = False
    def walks_list(s, f, H, body):
        """pointer-chasing loop: a header phi is a pointer and its next value comes from a load"""
        loads = {I.dst for b in body for I in f.blocks[b] if I.op == 'load' and isinstance(I.a[0], TPtr)}
        for b in body:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and any(o[1][0] == 'loc' and o[1][1] in loads for o in I.a[1][:1]): loads.add(I.dst)
        for I in f.blocks[H]:
            if I.op != 'phi': break
            if isinstance(I.a[0], TPtr) and any(b in body and v[0] == 'loc' and v[1] in loads for v, b in I.a[1]): return True
        return False
    def no_unroll(s, st, env, f, H, prev):
        """constant trip count?  follow the header phis with constant entry and constant step, to a constant bound"""
        st = st.copy(); env = s.phis(st, env, f, H, prev)
        body = f.loops[H]
        # find a conditional exit in the loop depending only on phis that are constants now
        phis = [i for i in f.blocks[H] if i.op == 'phi']
        consts = {p.dst for p in phis if is_const(env[p.dst])} if phis else set()
        if not consts: return True
        # evaluate: exit branch condition operand constness
        dep = set(consts)
        for b in f.order:
            if b not in body: continue
            for I in f.blocks[b]:
                if I.op in BINOPS or I.op in CASTS or I.op == 'icmp':
                    ops = [x for x in I.a if isinstance(x, tuple) and x and x[0] in ('loc', 'int')]
                    ok = all(o[0] == 'int' or o[1] in dep or (o[1] in env and not z3.is_bool(env[o[1]]) and is_const(env[o[1]]) and o[1] not in {p.dst for p in phis}) for o in ops)
                    if ok and any(o[0] == 'loc' and o[1] in dep for o in ops): dep.add(I.dst)
        # the phis must stay constant: back-edge value in dep
        for p in phis:
            if p.dst in consts:
                for v, b in p.a[1]:
                    if b in body and not (v[0] == 'int' or (v[0] == 'loc' and v[1] in dep)): return True
        for b in body:
            T = f.blocks[b][-1]
            if T.op == 'br' and T.a[0] is not None and (T.a[1] not in body or T.a[2] not in body):
                c = T.a[0][1]
                if c[0] == 'loc' and c[1] in dep: return False
        return True
    def phis(s, st, env, f, H, prev):
        env = dict(env); newv = {}
        for I in f.blocks[H]:
            if I.op != 'phi': break
            t, inc = I.a
            for v, b in inc:
                if b == prev: newv[I.dst] = s.val(env, st, t, v); break
        env.update(newv); return env

    def cut(s, st0, env0, f, H, prev, body):
        from .houdini import cut
        s.active = s.active + ((f.name, H),)
        try: return cut(s, st0, env0, f, H, prev, body)
        finally: s.active = s.active[:-1]
    active = ()

def inside(addr, n, o):
    if getattr(o, 'pred', None): return o.pred(addr, bv64(n) if isinstance(n, int) else n)
    d = addr - o.base
    if o.kind == 'struct': return z3.ULE(d, bv64(o.size - n)) if o.size >= n else FALSE
    n = bv64(n) if isinstance(n, int) else n
    return z3.And(z3.ULE(n, o.size), z3.ULE(d, o.size - n))

def norm(r):
    if r is None: return []
    if isinstance(r, list): return r
    return [r]
