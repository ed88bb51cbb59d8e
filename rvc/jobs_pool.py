"""Verification jobs of the pool allocator."""
import time
from . import frontend, sched, pool, pool_ops, pool_leaf
from .sched import job
_M = {}
def mod(src='src/rseq-mempool.c'):
    if src not in _M:
        m = frontend.compile_ir(src, pool.extra_c()); _M[src] = (m, frontend.consts(m))
    return _M[src]

ENTRY = {'plain': 'rseq_mempool_percpu_malloc', 'zero': 'rseq_mempool_percpu_zmalloc', 'init': 'rseq_mempool_percpu_malloc_init'}

def j_leaf(name):
    m, C = mod(); f = m.funcs.get(name); c, v, sig = pool_leaf.LEAF[name]
    from .engine import STATS
    if f is None: return dict(leaf=name, ok=False, why='no such function', obligs=[])
    if [repr(t) for t, _ in f.params] != sig: return dict(leaf=name, ok=False, why='signature changed', obligs=[])
    try: o = v(m, time.time() + 60)
    except Exception as e: return dict(leaf=name, ok=False, why=repr(e), obligs=[])
    ok = bool(o) and all(x.status == 'proved' for x in o)
    return dict(leaf=name, ok=ok, why='' if ok else '; '.join(sorted({x.name for x in o if x.status != 'proved'})), queries=STATS.queries, solver_s=STATS.time,
                obligs=[dict(name=x.name, func='contract of ' + name, status=x.status, tags=['LEAF'], where=x.where, time=x.time, model=None) for x in o] if ok else [])
def leaf_jobs(): return [job('leaf ' + n, 'rvc.jobs_pool:j_leaf', 70, name=n) for n in pool_leaf.LEAF]

def j_malloc(cfg, kind, scenario, leaf, decide=None):
    m, C = mod()
    ex, w = pool_ops.run_malloc(m, C, cfg, kind, ENTRY[kind], scenario, decide=decide, leaf={n: pool_leaf.LEAF[n][0] for n in leaf})
    return sched.pack(ex)
def j_setmalloc(cfg, kind, leaf, decide=None):
    from . import pset
    m, C = mod(); n = pset.alloc_fn(m)
    if n is None: from .llir import Unsupported; raise Unsupported('no common allocation function')
    ex, w = pool_ops.run_malloc(m, C, cfg, kind, n, 'ok', decide=decide, leaf={n: pool_leaf.LEAF[n][0] for n in leaf}, as_set=True)
    return sched.pack(ex)
def j_set(what, kind=None, decide=None):
    from . import pset
    m, C = mod(); return sched.pack(getattr(pset, 'run_' + what)(m, C, *([kind] if kind else []), decide=decide))
def set_jobs(leaf, decide):
    js = [job('set %s' % n, 'rvc.jobs_pool:j_set', 200, what=n, decide=decide) for n in ('create', 'add', 'destroy')]
    js += [job('set allocation %s' % k, 'rvc.jobs_pool:j_set', 240, what='malloc', kind=k, decide=decide) for k in ('plain', 'zero', 'init')]
    for ci in (0, 2, 3, 5):
        for k in ('zero', 'init'):
            for head in (0, 1, 2): js.append(job('allocation as a set asks for it, %s %s head%d' % (k, pool.cfgname(pool.CFGS[ci]), head), 'rvc.jobs_pool:j_setmalloc', 200, cfg=dict(pool.CFGS[ci], head=head), kind=k, leaf=leaf, decide=decide))
    return js
def j_free(cfg, scenario, leaf, decide=None):
    m, C = mod()
    ex, w = pool_ops.run_free(m, C, cfg, scenario, decide=decide, leaf={n: pool_leaf.LEAF[n][0] for n in leaf})
    return sched.pack(ex)

def op_jobs(kinds, leaf, scen=('ok',), cfgs=range(6), timeout=200, decide=None):
    out = []
    for ci in cfgs:
        base = pool.CFGS[ci]
        for kind in kinds:
            for sc in scen:
                if sc != 'ok' and not base['robust']: continue
                for head in (0, 1, 2):
                    if sc != 'ok' and head == 0: continue
                    if kind == 'free':
                        if sc == 'corrupt': continue
                        for pr in (0, 1):
                            c = dict(base, head=head, prange=pr)
                            out.append(job('free %s %s head%d r%d' % (pool.cfgname(base), sc, head, pr), 'rvc.jobs_pool:j_free', timeout, cfg=c, scenario=sc, leaf=leaf, decide=decide))
                    else:
                        if sc == 'double': continue
                        for ic in ((0, 1) if sc == 'corrupt' and base['cow'] else (0,)):
                            c = dict(base, head=head)
                            if ic: c['initcopy'] = 1
                            out.append(job('%s %s %s head%d%s' % (kind, pool.cfgname(base), sc, head, ' init copy' if ic else ''), 'rvc.jobs_pool:j_malloc', timeout, cfg=c, kind=kind, scenario=sc, leaf=leaf, decide=decide))
    return out

# ------------------------------------------------------------------ creation
from . import poolcreate
def j_aligned(decide=None):
    m, C = mod(); f = m.funcs.get('aligned_mmap_anonymous')
    if f is None or [repr(t) for t, _ in f.params] != poolcreate.SIG_ALIGNED: return dict(leaf='aligned_mmap_anonymous', ok=False, why='no such function', obligs=[])
    try: ex = poolcreate.run_aligned(m, C, deadline=time.time() + 100)
    except Exception as e: return dict(leaf='aligned_mmap_anonymous', ok=False, why=repr(e), obligs=[])
    ok = bool(ex.obligs) and all(o.status == 'proved' for o in ex.obligs)
    r = sched.pack(ex, leaf='aligned_mmap_anonymous', ok=ok, why='' if ok else '; '.join(sorted({o.name for o in ex.obligs if o.status != 'proved'})))
    if not ok: r['obligs'] = []
    for o in r['obligs']: o['tags'] = ['LEAF']
    return r
def j_range(cfg, aligned, decide=None):
    m, C = mod(); return sched.pack(poolcreate.run_range(m, C, cfg, decide=decide, aligned=aligned))
def j_create(cfg, ranges, decide=None):
    m, C = mod(); return sched.pack(poolcreate.run_create(m, C, cfg, decide=decide, ranges=ranges))
def range_jobs(aligned, tier, decide):
    o = []
    for t in ('percpu', 'global'):
        for cow in (True, False):
            if t == 'global' and cow: continue
            for rob in (False, True):
                for ini in (False, True):
                    o.append(dict(type=t, cow=cow, robust=rob, init=ini))
    o.append(dict(type='percpu', cow=True, robust=False, init=False, name=0))
    if tier == 'thorough': o += [dict(c, closefail=1) for c in o if c['cow']]
    return [job('range ' + ' '.join('%s=%s' % q for q in sorted(c.items())), 'rvc.jobs_pool:j_range', 300, cfg=c, aligned=aligned, decide=decide) for c in o]
def create_jobs(ranges, tier, decide):
    o = [dict(attr=False, cow=True, robust=False, init=False, type='percpu')]
    for t in ('percpu', 'global'):
        for cow in (True, False):
            for rob, ini in ((False, False), (True, True)) + (((False, True), (True, False)) if tier == 'thorough' else ()):
                for nm in (0, 1):
                    for au in ((0, 1) if t == 'percpu' else (0,)): o.append(dict(attr=True, type=t, cow=cow, robust=rob, init=ini, name=nm, auto=au))
    o.append(dict(attr=True, type='percpu', cow=None, robust=False, init=False))
    o.append(dict(attr=True, type='percpu', cow=True, robust=False, init=False, stride='other'))
    o.append(dict(attr=True, type='global', cow=False, robust=False, init=False, stride='other'))
    o.append(dict(attr=True, type='percpu', cow=True, robust=False, init=False, stride='default'))
    return [job('create ' + ' '.join('%s=%s' % q for q in sorted(c.items())), 'rvc.jobs_pool:j_create', 300, cfg=c, ranges=ranges, decide=decide) for c in o]

# ------------------------------------------------------------------ destruction
SIG_INPOOL = ['ptr', 'ptr']
def j_inpool():
    from . import pdestroy as D
    m, C = mod(); n = D.INPOOL; f = m.funcs.get(n)
    if f is None or [repr(t) for t, _ in f.params] != SIG_INPOOL: return dict(leaf=n, ok=False, why='no such function', obligs=[])
    try: exs = [D.run(m, C, pool.CFGS[ci], 'inpool', tlimit=50) for ci in (2, 5)]
    except Exception as e: return dict(leaf=n, ok=False, why=repr(e), obligs=[])
    obs = [o for ex in exs for o in ex.obligs]; ok = bool(obs) and all(o.status == 'proved' for o in obs)
    exs[0].obligs = obs; r = sched.pack(exs[0], leaf=n, ok=ok, why='' if ok else '; '.join(sorted({o.name for o in obs if o.status != 'proved'})))
    if not ok: r['obligs'] = []
    for o in r['obligs']: o['tags'] = ['LEAF']
    return r
def inpool_job(): return job('contract of percpu_addr_in_pool', 'rvc.jobs_pool:j_inpool', 110)
def j_destroy(cfg, scenario, leaf, decide=None):
    from . import pdestroy as D
    m, C = mod(); return sched.pack(D.run(m, C, cfg, scenario, decide=decide, leaf={n: pool_leaf.LEAF[n][0] for n in leaf if n in pool_leaf.LEAF}, inpool=D.INPOOL in leaf))
def destroy_jobs(scen, cfgs, leaf, decide):
    """scen: ok, leak, corrupt (robust pools), retry (pools whose robust checks are off)"""
    o = []
    for ci in cfgs:
        for sc in scen:
            if sc in ('leak', 'corrupt') and not pool.CFGS[ci]['robust'] or sc == 'retry' and pool.CFGS[ci]['robust']: continue
            o.append(job('destroy %s %s' % (pool.cfgname(pool.CFGS[ci]), sc), 'rvc.jobs_pool:j_destroy', 420, cfg=pool.CFGS[ci], scenario=sc, leaf=leaf, decide=decide))
    return o

def j_attr(decide=None):
    from . import poolattr
    m, C = mod(); return sched.pack(poolattr.run(m, C, decide=decide))
def attr_jobs(decide): return [job('attribute functions', 'rvc.jobs_pool:j_attr', 80, decide=decide)]
def j_hdr(decide=None):
    from . import poolhdr
    return sched.pack(poolhdr.run(decide=decide))
def hdr_jobs(decide): return [job('inline functions and macros of rseq/mempool.h', 'rvc.jobs_pool:j_hdr', 80, decide=decide)]
