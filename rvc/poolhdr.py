"""Contracts of the inline functions and macros of rseq/mempool.h: the address of a CPU's copy, the default stride, the
wrappers for global pools."""
import time, z3
from .engine import *
from . import models as MD, frontend
from .models import ret
EXTRA = '''
char *rvcw_ptr(char *p, int cpu, size_t stride) { return rseq_percpu_ptr(p, cpu, stride); }
struct rvcw_s { long a[7]; };
struct rvcw_s *rvcw_ptr_s(struct rvcw_s *p, int cpu, size_t stride) { return rseq_percpu_ptr(p, cpu, stride); }
char *rvcw_ptr_default(char *p, int cpu) { return rseq_percpu_ptr(p, cpu); }
void rvcw_free(void *p, size_t stride) { rseq_mempool_percpu_free(p, stride); }
void rvcw_free_default(void *p) { rseq_mempool_percpu_free(p); }
unsigned long rvcw_stride(void) { return RSEQ_MEMPOOL_STRIDE; }
void *rvcw_malloc(struct rseq_mempool *p) { return rseq_mempool_malloc(p); }
void *rvcw_zmalloc(struct rseq_mempool *p) { return rseq_mempool_zmalloc(p); }
void *rvcw_malloc_init(struct rseq_mempool *p, void *i, size_t l) { return rseq_mempool_malloc_init(p, i, l); }
void *rvcw_set_malloc(struct rseq_mempool_set *p, size_t l) { return rseq_mempool_set_malloc(p, l); }
void *rvcw_set_zmalloc(struct rseq_mempool_set *p, size_t l) { return rseq_mempool_set_zmalloc(p, l); }
void *rvcw_set_malloc_init(struct rseq_mempool_set *p, void *i, size_t l) { return rseq_mempool_set_malloc_init(p, i, l); }
'''
FREE2 = '''
void rvcw_gfree(void *p, size_t stride) { rseq_mempool_free(p, stride); }
void rvcw_gfree_default(void *p) { rseq_mempool_free(p); }
'''
def run(decide=None, tlimit=60):
    try: m = frontend.compile_ir('src/rseq-mempool.c', EXTRA + FREE2); free2 = True
    except Exception: m = frontend.compile_ir('src/rseq-mempool.c', EXTRA); free2 = False
    ex = Engine(m, dict(MD.BASE)); ex.decide = set(decide) if decide else None; ex.deadline = time.time() + tlimit; ends = []
    def rec(n):
        def f(ex, st, a, rt):
            st.g['calls'] = st.g.get('calls', ()) + ((n, tuple(a)),); st.g['res'] = z3.BitVec('result_of_call', 64); return ret(st, st.g['res'])
        return f
    names = ['librseq_mempool_percpu_free'] + ['rseq_mempool_%spercpu_%s' % (s, k) for s in ('', 'set_') for k in ('malloc', 'zmalloc', 'malloc_init')]
    for n in names: ex.contracts[n] = rec(n)
    p, q, x, S = z3.BitVec('p', 64), z3.BitVec('q', 64), z3.BitVec('len', 64), z3.BitVec('stride', 64); cpu = z3.BitVec('cpu', 32)
    def go(fn, args, tags):
        ex.func = fn.replace('rvcw_', 'use of ')
        for k, s, v in ex.call_func(State(), m.funcs[fn], args):
            s.trace = [ex.func]
            if k != 'ret': ex.oblige(s, 'does not stop the program', FALSE, tags, cont=False); continue
            ends.append(s); yield s, v
    A = ('EXCL', 'CONTENT', 'LAYOUT', 'ADDR'); dflt = None
    for s, v in go('rvcw_stride', [], A): dflt = z3.simplify(v)
    for fn, args, st in (('rvcw_ptr', [p, cpu, S], S), ('rvcw_ptr_s', [p, cpu, S], S), ('rvcw_ptr_default', [p, cpu], dflt)):
        for s, v in go(fn, args, A):
            ex.oblige(s, 'the copy of CPU n lies n strides above the copy of CPU 0', z3.Implies(cpu >= 0, v == p + z3.ZeroExt(32, cpu) * st), A, cont=False)
    def one(fn, args, n, want, tags, result=True):
        for s, v in go(fn, args, tags):
            cs = s.g.get('calls', ())
            ok = len(cs) == 1 and cs[0][0] == n
            ex.oblige(s, 'calls the per-CPU function exactly once', z3.BoolVal(ok), tags, cont=False)
            if ok:
                ex.oblige(s, 'passes its arguments on', z3.And([a == b for a, b in zip(cs[0][1], want)]), tags, cont=False)
                if result: ex.oblige(s, 'returns what the per-CPU function returns', v == s.g['res'], tags, cont=False)
    F = ('EXCL', 'POISON', 'CAP')
    one('rvcw_free', [p, S], names[0], [p, S], F, False); one('rvcw_free_default', [p], names[0], [p, dflt], F, False)
    if free2: one('rvcw_gfree', [p, S], names[0], [p, S], F, False); one('rvcw_gfree_default', [p], names[0], [p, dflt], F, False)
    for s, extra, tg in (('', [], ('CONTENT', 'EXCL')), ('set_', [x], ('C14',))):
        one('rvcw_%smalloc' % s, [p] + extra, 'rseq_mempool_%spercpu_malloc' % s, [p] + extra, tg)
        one('rvcw_%szmalloc' % s, [p] + extra, 'rseq_mempool_%spercpu_zmalloc' % s, [p] + extra, tg)
        one('rvcw_%smalloc_init' % s, [p, q, x], 'rseq_mempool_%spercpu_malloc_init' % s, [p, q, x], tg)
    ex.func = 'rseq/mempool.h'; ex.nret = len(ends); ex.naborts = 0; ex.vacuity(ends[-6:]); return ex
