"""Verification jobs of the possible-CPU count and NUMA placement."""
from . import frontend, sched, smp, numa, pool
from .sched import job
_M = {}
def mod():
    if 'm' not in _M: m = frontend.compile_ir(smp.SRC, smp.EXTRA); _M['m'] = (m, frontend.consts(m))
    return _M['m']
def j_smp(scen, decide=None):
    m, C = mod(); return sched.pack(smp.run(m, C, scen, decide=decide))
def j_max(decide=None):
    from . import jobs_reg as R
    m, C = R.mod()
    from . import reg
    return sched.pack(reg.run(m, C, 'owns', 'queries', decide=decide))
def jobs(decide): return [job('possible CPUs, mask ' + s, 'rvc.jobs_smp:j_smp', 250, scen=s, decide=decide) for s in ('ok', 'unreadable', 'empty', 'malformed', 'huge')] + [job('rseq_get_max_nr_cpus', 'rvc.jobs_smp:j_max', 60, decide=decide)]
def j_numa(decide=None):
    m = frontend.compile_ir('src/rseq-mempool.c', pool.extra_c()); C = frontend.consts(m)
    return sched.pack(numa.run(m, C, decide=decide, tlimit=380))
