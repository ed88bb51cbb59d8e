"""Verification jobs of the per-CPU operations."""
from . import percpu, sched, frontend
from .sched import job
_M = {}
def mod(twice):
    if twice not in _M: _M[twice] = percpu.build(['-DRSEQ_COMPARE_TWICE'] if twice else [])
    return _M[twice]
def j_static(twice=False): return sched.pack(percpu.run_static(mod(twice)))
def j_op(op, twice=False, case=None, fix=None, decide=None):
    return sched.pack(percpu.run_op(mod(twice), op, decide=decide, case=case, fix=fix))
def jobs(tier, tags):
    out = []
    for tw in ((False, True)):
        out.append(job('asm statements%s' % (' compare-twice' if tw else ''), 'rvc.jobs_percpu:j_static', 60, twice=tw))
        for op in percpu.OPS:
            if op != 'load_cbne_memcpy_store':
                out.append(job('rseq_%s__ptr%s' % (op, ' compare-twice' if tw else ''), 'rvc.jobs_percpu:j_op', 200, op=op, twice=tw, decide=tags)); continue
            if tw and tier == 'quick': continue
            for mo in (percpu.RELAXED, percpu.RELEASE):
                for md in (0, 1):
                    for case in ('srcafter', 'dstafter', 'out'):
                        out.append(job('rseq_%s__ptr mo=%d mode=%d %s%s' % (op, mo, md, case, ' compare-twice' if tw else ''), 'rvc.jobs_percpu:j_op', 250, op=op, twice=tw, case=case, fix=(mo, md), decide=tags))
            out.append(job('rseq_%s__ptr unsupported' % op, 'rvc.jobs_percpu:j_op', 250, op=op, twice=tw, case='other', decide=tags))
    return out
