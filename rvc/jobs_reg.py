"""Verification jobs of registration and queries."""
from . import frontend, sched, reg
from .sched import job
_M = {}
def mod():
    if 'm' not in _M: m = frontend.compile_ir(reg.SRC, reg.EXTRA); _M['m'] = (m, frontend.consts(m))
    return _M['m']
def j_reg(libc, scenario, decide=None):
    m, C = mod(); return sched.pack(reg.run(m, C, libc, scenario, decide=decide))
def jobs(scen, decide):
    return [job('%s, C library %s' % (s, l), 'rvc.jobs_reg:j_reg', 200, libc=l, scenario=s, decide=decide) for s in scen for l in ('owns', 'zero', 'none')]
