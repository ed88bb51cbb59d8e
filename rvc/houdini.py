"""Loop cutting with inferred inductive invariants (greatest inductive subset of guesses)."""
import z3
from . import engine as E
from .engine import *

class Watch:
    """arbitrary-but-fixed byte address of an arena; idx: index symbols used to build guards"""
    def __init__(s, arena, addr, targets=(), idx=(), keep=(), when=None):
        s.arena, s._addr, s._targets, s.idx, s.keep = arena, addr, targets, list(idx), list(keep); s.when = when
    def at(s, st):
        """bind to a state: addr/targets may be functions of the state (None: not defined yet)"""
        a = s._addr(st) if callable(s._addr) else s._addr
        if a is None: return None
        t = s._targets(st) if callable(s._targets) else s._targets
        b = BoundWatch(); b.arena, b.addr, b.targets, b.idx, b.keep = s.arena, a, list(t), s.idx, s.keep; b.when = s.when
        return b
class BoundWatch: pass

def syms(e, acc=None, seen=None):
    acc = set() if acc is None else acc; seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: acc.add(d.name())
            st.extend(x.children())
    return acc

def num(n):
    i = n.rfind('!')
    if i < 0: return -1
    try: return int(n[i+1:])
    except ValueError: return -1

def cut(s, st0, env0, f, H, prev, body):
    e_env = s.phis(st0, env0, f, H, prev)
    phis = [I for I in f.blocks[H] if I.op == 'phi']
    havoc_cells = set(); havoc_ar = set(); havoc_g = set()
    bound = [b for b in (x.at(st0) for x in s.watches) if b is not None]
    for outer in range(12):
        c0 = next(E._ctr)
        # ---- havocked header state
        st = st0.copy(); env = dict(e_env)
        h = []          # (sym, entry expr)
        for I in phis:
            ev = e_env[I.dst]
            x = freshb('h' + I.dst) if z3.is_bool(ev) else fresh('h' + I.dst, ev.size())
            env[I.dst] = x; h.append((x, ev))
        for (on, off, n) in sorted(havoc_cells):
            if on not in st.objs: continue
            ev = st0.objs[on].read(off, n)
            x = fresh('h_%s_%d' % (on, off), 8 * n); st.objs[on].write(off, n, x); h.append((x, ev))
        for k in sorted(havoc_g):
            ev = st0.g[k]; x = freshb('hg_' + k) if z3.is_bool(ev) else fresh('hg_' + k, ev.size()); st.g[k] = x; h.append((x, ev))
        w = []          # (sym, watch, entry value)
        for an in sorted(havoc_ar):
            a0 = st0.objs[an]; a = st.objs[an]
            auto = []
            for e in a0.log[-40:]:
                if e[0] == 'w':
                    auto += [Watch(an, a0.at(e[1], bv64(i)) if getattr(a0, 'structural', False) else z3.simplify(e[1] + bv64(i))).at(st0) for i in range(0, e[2], getattr(a0, 'unit', 1))]
            a.havoc()
            for wt in [x for x in bound if x.arena == an] + auto:
                v0 = a0.readbyte(wt.addr); x = fresh('w', v0.size())
                w.append((x, wt, v0))
                st.pc.append(x == a.readbyte(wt.addr))
        for wt in bound:
            if wt.arena in st0.objs and wt.arena not in havoc_ar and wt.targets:
                ev = st0.objs[wt.arena].readbyte(wt.addr); w.append((ev, wt, ev))
        c1 = next(E._ctr)
        hid = {x.get_id() for x, _ in h}
        hnames = {x.decl().name() for x, _ in h}; 
        sub_e = [(x, ev) for x, ev in h] + [(x, ev) for x, _, ev in w if x is not ev]
        def inv(t):   # loop-invariant term
            return all(not (num(n) > c0) for n in syms(t))
        def hdr_term(t):
            return all(not (num(n) > c0) or n in hnames for n in syms(t))
        # ---- discovery run
        s.quiet += 1
        sc, sa, sw = s.cmps, s.addrs, s.writes
        s.cmps, s.addrs, s.writes = [], [], set()
        cand = keep_simple(h)
        pre = s.hooks.get('pre_cands')
        try:
            st1 = st.copy()
            for c in cand:
                if entry_ok(s, st0, c, sub_e): st1.pc.append(c)
            if pre: st1.pc += filter_entry(s, st0, pre(s, st1, h, w, f, H), sub_e)
            os_ = s.region(st1, env, f, H, prev, H, body, first=True)
        finally:
            cmps, addrs, writes = s.cmps, s.addrs, s.writes
            s.cmps, s.addrs, s.writes = sc, sa, sw
            s.quiet -= 1
        if sw is not None: sw |= writes
        if sa is not None: sa += addrs
        new = False
        for (on, off, n) in writes:
            if on not in st0.objs: continue
            if off is None:
                if on not in havoc_ar: havoc_ar.add(on); new = True
            elif (on, off, n) not in havoc_cells:
                for o2, f2, n2 in list(havoc_cells):
                    if o2 == on and not (f2 + n2 <= off or off + n <= f2): raise Unsupported('mixed-size writes in loop')
                havoc_cells.add((on, off, n)); new = True
        for o in os_:
            if o[0] == 'back':
                for k, v in o[1].g.items():
                    if k in st.g and z3.is_expr(v) and not (z3.is_expr(st.g[k]) and v.eq(st.g[k])) and k not in havoc_g:
                        if not z3.is_expr(st.g[k]): raise Unsupported('ghost %s' % k)
                        havoc_g.add(k); new = True
                for on, ob in o[1].objs.items():
                    if on in st.objs and ob.alive != st.objs[on].alive: raise Unsupported('release in loop: ' + on)
        if new: continue
        # ---- candidates
        backs = [o for o in os_ if o[0] == 'back']
        cand = keep_simple(h)
        steps = {}
        for x, ev in h:
            if z3.is_bool(x): continue
            ds = []
            for o in backs:
                bvv = back_value(s, o, f, H, x, h, phis, havoc_cells, havoc_g)
                d = z3.simplify(bvv - x)
                if inv(d): ds.append(d)
                else: ds = None; break
            if ds and all(d.eq(ds[0]) for d in ds): steps[x.get_id()] = (x, ev, ds[0])
        for x, ev, d in steps.values():
            k = s.log2(None, d)
            if k is None:
                k = s.log2(None, z3.simplify(-d))
            if k is not None and not (z3.is_bv_value(d) and d.as_long() == 1):
                cand.append(((x - ev) & ((BV(1, x.size()) << k) - 1)) == 0)
        sl = list(steps.values())
        for i in range(len(sl)):
            for j in range(len(sl)):
                if i == j: continue
                (x, ex, dx), (y, ey, dy) = sl[i], sl[j]
                if is_const(dx) and cval(dx) == 1 and y.size() >= x.size():
                    q = x - ex
                    if y.size() > x.size(): q = z3.SignExt(y.size() - x.size(), q) if False else z3.ZeroExt(y.size() - x.size(), q)
                    k = s.log2(None, dy)
                    cand.append(y == ey + (q << k if k is not None else q * dy))
                    nk = s.log2(None, z3.simplify(-dy))
                    if nk is not None: cand.append(y == ey - (q << nk))
                elif dx.size() == dy.size() and dx.eq(dy) and i < j:
                    cand.append(y - ey == x - ex)
                elif is_const(dx) and is_const(dy) and dx.size() == dy.size() and cval(dx) and cval(dy) % cval(dx) == 0:
                    cand.append(y - ey == (x - ex) * BV(cval(dy) // cval(dx), x.size()))
        seen = set()
        for a, b in cmps:
            for x, y in ((a, b), (b, a)):
                if z3.is_bool(x): continue
                if inv(y) and hdr_term(x) and not inv(x):
                    xs = {x}
                    for hx, ex in h:
                        if z3.is_bool(hx): continue
                        if hx.size() == x.size() and hx.decl().name() in syms(x): xs.add(hx)
                    for t in xs:
                        key = (t.get_id(), y.get_id())
                        if key in seen: continue
                        seen.add(key)
                        cand += [z3.ULE(t, y), t <= y, z3.UGE(t, y), t >= y, z3.ULT(t, y), t < y, t != y]
                elif hdr_term(x) and hdr_term(y) and not inv(x) and not inv(y):
                    key = (x.get_id(), y.get_id())
                    if key in seen: continue
                    seen.add(key)
                    cand += [z3.ULE(x, y), x <= y, x == y]
        # watch candidates
        guards = []
        useen = set(); ads = []
        for a in addrs:
            if a.get_id() in useen: continue
            useen.add(a.get_id())
            if hdr_term(a) and not inv(a): ads.append(a)
        ads = ads[:12]
        for x, wt, ev in w:
            gs = []
            if wt.targets or wt.idx:
                for a in ([] if getattr(st0.objs[wt.arena], 'structural', False) else ads):
                    ae = z3.substitute(a, *[(p, q) for p, q in h])
                    gs.append(z3.ULT(wt.addr - ae, a - ae))
                    gs.append(z3.UGE(wt.addr, a)); gs.append(z3.UGT(wt.addr, a))
                for v in wt.idx:
                    for hx, ex in h:
                        if z3.is_bool(hx) or hx.size() != v.size(): continue
                        gs += [v < hx, z3.ULT(v, hx), v >= hx, v > hx]
                        gs.append(z3.And(v >= ex, v < hx))
                        gs.append(z3.ULT(v - ex, hx - ex))
            vals = list(wt.targets) + [ev]
            if x is ev: vals = vals[:-1]
            wh = (lambda c: z3.Implies(wt.when, c)) if wt.when is not None else (lambda c: c)
            for v in vals: cand.append(wh(x == v))
            if x is not ev: cand += [z3.Implies(q, x == ev) for q in wt.keep]
            for g in gs:
                for v in vals: cand.append(wh(z3.Implies(g, x == v)))
                if x is not ev: cand.append(z3.Implies(z3.Not(g), x == ev))
            # scalar flags: if a flag keeps its entry value the cells seen so far equal a target
        extra = s.hooks.get('loop_cands')
        if extra: cand += extra(s, st, h, w, f, H)
        # ---- entry filter
        cand = filter_entry(s, st0, cand, sub_e)
        # ---- Houdini with re-execution
        ok = False
        for rnd in range(25):
            s.quiet += 1
            sw2 = s.writes; s.writes = set()
            try:
                stb = st.copy(); stb.pc += cand
                os_ = s.region(stb, dict(env), f, H, prev, H, body, first=True)
            finally:
                nw = s.writes; s.writes = sw2; s.quiet -= 1
            extraw = [q for q in nw if q[0] in st0.objs and ((q[1] is None and q[0] not in havoc_ar) or (q[1] is not None and q not in havoc_cells))]
            if extraw:
                for q in extraw:
                    (havoc_ar.add(q[0]) if q[1] is None else havoc_cells.add(q))
                break
            backs = [o for o in os_ if o[0] == 'back']
            n0 = len(cand)
            subs = []
            for o in backs:
                sub = [(x, back_value(s, o, f, H, x, h, phis, havoc_cells, havoc_g)) for x, ev in h]
                sub += [(x, o[1].objs[wt.arena].readbyte(wt.addr)) for x, wt, ev in w if x is not ev]
                subs.append((o[1].pc, sub))
            ch = True
            while ch:
                ch = False
                for pc, sub in subs:
                    # pc contains the candidate assumptions of this round; rebuild with the current set
                    base = [p for p in pc if not any(p is c for c in dropped_ids(pc, cand, st))]
                    while True:
                        s.tick()
                        goal = [z3.simplify(z3.substitute(c, *sub)) for c in cand]
                        idx = [i for i, g in enumerate(goal) if not z3.is_true(g)]
                        if not idx: break
                        if any(z3.is_false(goal[i]) for i in idx):
                            r = z3.sat; m = None
                            bad = {i for i in idx if z3.is_false(goal[i])}
                            # a false goal only matters when the path is feasible
                            rr, _ = check(s.light(pc))
                            if rr == z3.unsat: break
                        else:
                            r, m = check(s.light(pc) + [z3.Not(z3.And([goal[i] for i in idx]))], s.hto)
                            if r == z3.unsat: break
                            if r == z3.sat:
                                bad = {i for i in idx if not z3.is_true(m.eval(goal[i], model_completion=True))}
                            else:
                                bad = set()
                                for i in idx:
                                    r2, _ = check(s.light(pc) + [z3.Not(goal[i])], s.hto * 3 // 4)
                                    if r2 != z3.unsat: bad.add(i)
                                    if r2 == z3.unknown: s.tainted = True
                        if not bad: break
                        cand = [c for i, c in enumerate(cand) if i not in bad]; ch = True
                if ch: break      # the assumptions in pc changed: re-execute
            if len(cand) == n0: ok = True; break
        else:
            raise EngineLimit('houdini did not converge in %s %s' % (f.name, H))
        if not ok: continue
        # ---- final run, recording obligations
        stf = st.copy(); stf.pc += cand
        if 'kept' in s.hooks: s.hooks['kept'](s, stf, cand, h, w)
        os_ = s.region(stf, dict(env), f, H, prev, H, body, first=True)
        if not s.quiet: s.loop_stats.append((f.name, H, 'invariants', len(cand)))
        if os.environ.get('RVC_INV'): print('INV', f.name, H, len(cand)); [print('   ', z3.simplify(c)) for c in cand]
        return [o for o in os_ if o[0] != 'back']
    raise EngineLimit('loop analysis did not stabilise in %s %s' % (f.name, H))

def dropped_ids(pc, cand, st): return []

def keep_simple(h):
    c = []
    for x, ev in h:
        c.append(x == ev)
        if z3.is_bool(x): continue
        c += [z3.UGE(x, ev), x >= ev, z3.ULE(x, ev), x <= ev]
    return c

def entry_ok(s, st0, c, sub_e):
    g = z3.simplify(z3.substitute(c, *sub_e))
    return z3.is_true(g)

def filter_entry(s, st0, cand, sub_e):
    out = cand
    while True:
        goal = [z3.simplify(z3.substitute(c, *sub_e)) for c in out]
        keep = [i for i, g in enumerate(goal) if not z3.is_false(g)]
        out = [out[i] for i in keep]; goal = [goal[i] for i in keep]
        idx = [i for i, g in enumerate(goal) if not z3.is_true(g)]
        if not idx: break
        r, m = check(s.light(st0.pc) + [z3.Not(z3.And([goal[i] for i in idx]))], s.hto)
        if r == z3.unsat: break
        if r == z3.sat: bad = {i for i in idx if not z3.is_true(m.eval(goal[i], model_completion=True))}
        else:
            bad = set()
            for i in idx:
                r2, _ = check(s.light(st0.pc) + [z3.Not(goal[i])], s.hto * 3 // 4)
                if r2 != z3.unsat: bad.add(i)
                if r2 == z3.unknown: s.tainted = True
        if not bad: break
        out = [c for i, c in enumerate(out) if i not in bad]
    # dedupe
    seen = set(); res = []
    for c in out:
        c = z3.simplify(c)
        if z3.is_true(c) or c.get_id() in seen: continue
        seen.add(c.get_id()); res.append(c)
    return res

def back_value(s, o, f, H, x, h, phis, cells, gs):
    """value of header symbol x at back-edge outcome o"""
    i = next(i for i, (y, _) in enumerate(h) if y.get_id() == x.get_id())
    if i < len(phis):
        t, inc = phis[i].a
        for v, b in inc:
            if b == o[3]: return s.val(o[2], o[1], t, v)
        raise Unsupported('phi back edge')
    i -= len(phis)
    cs = [c for c in sorted(cells)]
    cs2 = [c for c in cs if c[0] in o[1].objs]
    if i < len(cs2):
        on, off, n = cs2[i]; return o[1].objs[on].read(off, n)
    i -= len(cs2)
    return o[1].g[sorted(gs)[i]]
