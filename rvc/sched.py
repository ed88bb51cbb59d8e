"""Parallel runner for verification jobs: one process per job (z3 state is not shared), killed at its
time limit, result passed back as plain data."""
import os, sys, time, traceback, importlib, multiprocessing as mp, multiprocessing.connection as mpc, collections

Job = collections.namedtuple('Job', 'name fn kw timeout')
def job(jname, fn, timeout=240, **kw): return Job(jname, fn, kw, timeout)

def pack(ex, **more):
    """Engine -> plain result"""
    from . import engine as E
    r = dict(func=ex.func, obligs=[dict(name=o.name, func=o.func, status=o.status, tags=sorted(o.props), where=o.where, time=round(o.time, 3),
                                        model=(model_str(o.model) if o.status == 'failed' else None)) for o in ex.obligs],
             tainted=ex.tainted, inlined=sorted(ex.inlined), contracts=sorted(ex.used_contracts), models=sorted(ex.used_models),
             loops=[[str(y) for y in x] for x in ex.loop_stats], nret=getattr(ex, 'nret', 0), naborts=getattr(ex, 'naborts', 0),
             queries=E.STATS.queries, solver_s=round(E.STATS.time, 2), cvc5=E.CVC5_USED[0], vac=getattr(ex, 'vac', None))
    r.update(more); return r
def model_str(m):
    if m is None: return None
    try: return '; '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:3000]
    except Exception: return None

def _run(j, conn):
    t = time.time()
    try:
        mod, f = j.fn.split(':')
        r = getattr(importlib.import_module(mod), f)(**j.kw)
    except BaseException as e:
        from .llir import Unsupported
        from .engine import EngineLimit
        kind = 'unsupported' if isinstance(e, (Unsupported, EngineLimit)) else 'error'
        r = dict(error='%s: %s' % (kind, e), trace=traceback.format_exc()[-3000:] if kind == 'error' else '')
    r['wall'] = round(time.time() - t, 2); r['job'] = j.name
    try: conn.send(r)
    except Exception as e: conn.send(dict(error='send: %r' % e, job=j.name, wall=r['wall']))
    conn.close()

def run_jobs(jobs, nproc=8, deadline=None, on_result=None):
    """-> list of results in job order"""
    ctx = mp.get_context('fork'); res = [None] * len(jobs); run = {}
    todo = collections.deque(sorted(range(len(jobs)), key=lambda i: -jobs[i].timeout))
    while todo or run:
        while todo and len(run) < nproc:
            i = todo.popleft()
            if deadline and time.time() > deadline:
                res[i] = dict(error='unsupported: check time budget exhausted before this job', job=jobs[i].name, wall=0); continue
            a, b = ctx.Pipe(False); p = ctx.Process(target=_run, args=(jobs[i], b), daemon=True)
            p.start(); b.close(); run[a] = (i, p, time.time() + jobs[i].timeout)
        if not run: break
        nearest = min(x[2] for x in run.values())
        if deadline: nearest = min(nearest, deadline)
        for c in mpc.wait(list(run), max(0.05, nearest - time.time())):
            i, p, _ = run.pop(c)
            try: res[i] = c.recv()
            except EOFError: res[i] = dict(error='error: worker died (out of memory?)', job=jobs[i].name, wall=0)
            p.join(5); c.close()
            if p.is_alive(): p.kill()
            if on_result: on_result(res[i])
        now = time.time()
        for c in [c for c, x in run.items() if now > x[2] or (deadline and now > deadline)]:
            i, p, _ = run.pop(c); p.kill(); p.join(); c.close()
            res[i] = dict(error='unsupported: time limit of %ds' % jobs[i].timeout, job=jobs[i].name, wall=jobs[i].timeout)
            if on_result: on_result(res[i])
    return res
