"""Property registry: which jobs and which obligation tags decide which property."""
import os, json
from . import pool_leaf, percpu
from .sched import job
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known(prop):
    out = []
    try:
        for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    except FileNotFoundError: pass
    return out

LIBC = ['z3 4.x/cvc5 soundness', 'clang -O0 IR generation and the opt passes sroa, early-cse, simplifycfg, loop-simplify', 'rvc engine (LLVM-IR semantics, loop cutting, /verif/rvc)',
        'models of libc/kernel calls in rvc/models.py and the jobs (see assumed_external_contracts)']
POOLASM = ['pthread mutexes give mutual exclusion; the pool lock serializes allocations and frees (ownership transfer at lock/unlock)',
           'items are freed only by their owner with the pool stride (documented caller obligation); robust pools relax this for double free',
           'page size 4096; sizes below 2^45 bytes; integer arithmetic is exact 64-bit machine arithmetic',
           'memory ranges of different pools/ranges are disjoint (kernel mmap contract)']

def pool_stages(kinds, scen=('ok',), cfgs=range(6), destroy=None):
    def st(tier, ctx, tags):
        from . import jobs_pool as J
        J.mod()
        yield J.leaf_jobs() + ([J.inpool_job()] if destroy else [])
        ok = [r['leaf'] for r in ctx['last'] if r.get('ok')]; ctx['withdrawn'] = {r.get('leaf', r['job']): r.get('why', r.get('error')) for r in ctx['last'] if not r.get('ok')}
        yield (J.destroy_jobs(destroy, cfgs, ok, tags) if destroy else []) + (J.hdr_jobs(tags) if set(tags) & {'EXCL', 'CONTENT', 'POISON', 'CAP'} else []) + J.op_jobs(kinds, [n for n in ok if n in LEAFF], scen, cfgs, decide=tags)
    return st
DESTF = ['rseq_mempool_destroy (check_free_list, check_pool_poison, destroy_alloc_bitmap, pool_mappings_accessible, rseq_mempool_range_destroy inlined)', 'percpu_addr_in_pool']
DESTASM = ['destruction: the range list is a well-formed doubly linked list of n ranges (any n), each range keeps its layout from creation; the pool is destroyed when nobody uses it any more',
           'destruction: the free list is a chain of N nodes below the frontiers of the ranges and N + live items = items below the frontiers (the representation invariant which C05 proves every allocation and free keeps; its counting form is a ghost argument, not an obligation)']
MALLOCF = ['rseq_mempool_percpu_malloc', 'rseq_mempool_percpu_zmalloc', 'rseq_mempool_percpu_malloc_init']; FREEF = ['librseq_mempool_percpu_free']
LEAFF = list(pool_leaf.LEAF); HDRF = ['rseq_percpu_ptr, rseq_mempool_percpu_free, rseq_mempool_free, rseq_mempool_malloc/zmalloc/malloc_init (mempool.h)']

def bat(*specs):
    """specs: (prog, mode, base iterations)"""
    def f(prop): return lambda seed, mul: [(p, [prop, m, seed, it * mul], dict(timeout=100)) for p, m, it in specs]
    return f
PROPS = {}
def add(pid, **k):
    k.setdefault('trusted', LIBC); k.setdefault('assumptions', []); k['battery'] = k['battery'](pid) if 'battery' in k else (lambda s, m: [])
    k['tags'] = set(k['tags']); PROPS[pid] = k

add('C05', stages=pool_stages(['plain', 'free']), tags=['EXCL', 'INV', 'LOCK', 'MEM', 'LIST', 'ARITH'], functions=MALLOCF[:1] + FREEF + LEAFF + HDRF, assumptions=POOLASM,
    battery=bat(('pool', 'history', 150), ('pool', 'threads', 12)))
add('C06', stages=pool_stages(['zero', 'init']), tags=['CONTENT'], functions=MALLOCF[1:] + LEAFF + HDRF, assumptions=POOLASM, battery=bat(('pool', 'history', 200)))
add('C07', stages=pool_stages(['zero', 'init', 'free']), tags=['FRAME'], functions=MALLOCF[1:] + FREEF + LEAFF, assumptions=POOLASM, battery=bat(('pool', 'history', 200), ('pool', 'threads', 8)))
add('C08', stages=pool_stages(['plain', 'init', 'free']), tags=['CAP'], functions=MALLOCF + FREEF + LEAFF + HDRF, assumptions=POOLASM, battery=bat(('pool', 'history', 200), ('pool', 'threads', 30)))
add('C09', stages=pool_stages(['plain', 'zero', 'free'], ('ok', 'corrupt', 'double'), (2, 5), destroy=('ok', 'leak', 'corrupt')), tags=['ROBUST', 'NOABORT'], functions=MALLOCF + FREEF + LEAFF + DESTF, assumptions=POOLASM + DESTASM,
    battery=bat(('pool', 'robust', 2000), ('pool', 'history', 60), ('pool', 'threads', 60)))
add('C13', stages=pool_stages(['free'], ('ok',), (1, 2, 4, 5)), tags=['POISON'], functions=FREEF + LEAFF + HDRF, assumptions=POOLASM, battery=bat(('pool', 'history', 200)))
def set_stages(tier, ctx, tags):
    from . import jobs_pool as J
    J.mod()
    yield J.leaf_jobs()
    ok = [r['leaf'] for r in ctx['last'] if r.get('ok')]; ctx['withdrawn'] = {r.get('leaf', r['job']): r.get('why', r.get('error')) for r in ctx['last'] if not r.get('ok')}
    yield J.set_jobs(ok, tags) + J.hdr_jobs(tags)
add('C14', stages=set_stages, tags=['C14', 'CONTENT'], functions=['rseq_mempool_set_create', 'rseq_mempool_set_add_pool', 'rseq_mempool_set_percpu_malloc', 'rseq_mempool_set_percpu_zmalloc', 'rseq_mempool_set_percpu_malloc_init', '__rseq_mempool_set_malloc', 'rseq_mempool_set_destroy', '__rseq_percpu_malloc', 'rseq_mempool_set_malloc/zmalloc/malloc_init (mempool.h)'] + LEAFF,
    assumptions=POOLASM + ['set lock gives mutual exclusion; other threads may add pools to the set whenever it is not held', 'the set is destroyed when nobody uses it any more', 'rseq_mempool_destroy returns 0 when the pool is gone and nonzero when it still exists (C11)'],
    battery=bat(('pool', 'set', 300), ('pool', 'threads', 60)))
def percpu_stages(tier, ctx, tags):
    from . import jobs_percpu as J
    J.mod(False); J.mod(True)
    yield J.jobs(tier, tags)
PCF = ['rseq_%s__ptr (relaxed/release x cpu_id/mm_cid) and the asm goto statement behind each' % o for o in percpu.OPS]
PCASM = ['x86-64 only (the architecture which is built and run here); the other architecture headers are not covered',
         'the assembler template is translated instruction by instruction (rvc/asmx.py); operands follow the GCC/LLVM constraint contract: inputs may share registers when their values are equal',
         'kernel rseq contract: an interruption at an instruction inside [start_ip, start_ip+post_commit_offset) of the announced descriptor continues at abort_ip; outside, the announcement is dropped',
         'user memory does not overlap the thread area; memcpy source and destination are disjoint; lengths below 2^47',
         'x86-64 TSO: program order of stores is their visibility order (release variants)']
PCBAT = lambda *modes: bat(*[(p, m, it) for m, it in modes for p in ('percpu', 'percpu_clang', 'percpu_O0')])
add('C01', stages=percpu_stages, tags=['C01'], functions=PCF, assumptions=PCASM, battery=PCBAT(('ops', 60000)))
add('C02', stages=percpu_stages, tags=['C02'], functions=PCF, assumptions=PCASM, battery=PCBAT(('abort', 6)))
add('C03', stages=percpu_stages, tags=['C03'], functions=PCF, assumptions=PCASM, battery=PCBAT(('ops', 60000)))
add('C04', stages=percpu_stages, tags=['C04'], functions=PCF, assumptions=PCASM, battery=PCBAT(('ops', 20000), ('abort', 6)))
NA = {}
def create_stages(*kinds, destroy=None):
    def st(tier, ctx, tags):
        from . import jobs_pool as J
        J.mod()
        yield [job('contract of aligned_mmap_anonymous', 'rvc.jobs_pool:j_aligned', 120)] + ([J.inpool_job()] + J.leaf_jobs() if destroy else [])
        al = bool(ctx['last'][0].get('ok')); ok = [r['leaf'] for r in ctx['last'] if r.get('ok')]
        ctx['withdrawn'] = {r.get('leaf', r['job']): r.get('why', r.get('error')) for r in ctx['last'] if not r.get('ok')}
        jobs = J.destroy_jobs(destroy, (0, 2, 3, 5), ok, tags) if destroy else []
        if 'attr' in kinds: jobs += J.attr_jobs(tags) + J.hdr_jobs(tags)
        if 'range' in kinds: jobs += J.range_jobs(al, tier, tags)
        if 'create' in kinds: jobs += J.create_jobs(True, tier, tags)
        yield jobs
    return st
CRASM = ['mmap returns page-aligned memory which overlaps nothing the process uses, below 2^47; a failing mmap(MAP_FIXED) leaves the addresses owned',
         'callbacks write only the memory they are given', 'page size 4096', 'close() releases the descriptor whatever it returns (its failure is explored in the thorough tier)']
CRF = ['rseq_mempool_create', 'rseq_mempool_range_create', 'aligned_mmap_anonymous', 'rseq_memfd_create_init', 'create_alloc_bitmap', 'rseq_mempool_destroy (failure path of creation)']
add('C10', stages=create_stages('range', 'create', 'attr'), tags=['ACCEPT', 'LAYOUT', 'INIT', 'MAP', 'NOABORT', 'MEM', 'ARITH'], functions=CRF + ['rseq_mempool_attr_create, rseq_mempool_attr_set_* (7 setters), rseq_mempool_get_max_nr_cpus'], assumptions=CRASM, battery=bat(('pool', 'create', 300)))
add('C11', stages=create_stages('range', 'create', destroy=('ok', 'retry')), tags=['RES', 'DRES'], functions=CRF + DESTF, assumptions=CRASM + DESTASM, battery=bat(('pool', 'life', 300)))
add('C12', stages=create_stages('range', destroy=('ok',)), tags=['FORKISO', 'DFORK'], functions=CRF[1:] + DESTF, assumptions=CRASM + DESTASM, battery=bat(('pool', 'fork', 60)))
def reg_stages(*scen):
    def st(tier, ctx, tags):
        from . import jobs_reg as J
        J.mod(); yield J.jobs(scen, tags)
    return st
REGASM = ['kernel rseq(2) contract: registration succeeds or fails without effect; a successful registration writes the CPU number; unregistration needs the registered address, length and signature',
          'aux vector: feature size 0 or 20..1024, alignment 0 or a power of two 32..1024 (larger values stop the program by design, an assertion)',
          'the C library, when it owns registration, publishes truthful __rseq_offset/__rseq_size/__rseq_flags', 'pthread mutexes give mutual exclusion; x86-64 TSO makes the release store of the initialization flag visible last',
          'x86-64 thread pointer (mov %fs:0)']
REGF = ['rseq_init (constructor)', 'rseq_exit (destructor)', 'rseq_register_current_thread', 'rseq_unregister_current_thread', 'rseq_available', 'rseq_fallback_current_cpu', 'rseq_fallback_current_node', 'rseq_get_max_nr_cpus']
REGQ = ['rseq_current_cpu_raw', 'rseq_cpu_start', 'rseq_current_cpu', 'rseq_node_id_available', 'rseq_current_node_id', 'rseq_mm_cid_available', 'rseq_current_mm_cid', 'rseq_prepare_unload']
add('C15', stages=reg_stages('init', 'calls'), tags=['C15', 'MEM'], functions=REGF[:4], assumptions=REGASM, battery=bat(('reg', 'reg', 600)))
add('C16', stages=reg_stages('init', 'calls', 'queries'), tags=['C16', 'MEM'], functions=REGF + REGQ, assumptions=REGASM, battery=bat(('reg', 'reg', 600)))
def smp_stages(tier, ctx, tags):
    from . import jobs_smp as J
    J.mod(); yield J.jobs(tags)
add('C17', stages=smp_stages, tags=['C17', 'MEM', 'ARITH'], functions=['get_possible_cpus_array_len', 'update_possible_cpus_array_len_cache', 'get_cpu_mask_from_sysfs', 'get_max_cpuid_from_mask', 'get_num_possible_cpus_fallback', '_get_max_cpuid_from_sysfs', 'rseq_get_max_nr_cpus'],
    assumptions=['the mask file holds a kernel CPU list (ascending numbers and ranges) of less than 4096 bytes whose last number is the highest CPU', 'strtoul/strtol/strncmp/readdir follow the C library contract; the directory does not change during one pass',
                 'configured CPU count between -1 and INT_MAX'], battery=bat(('smp', 'smp', 6000)))
def numa_stages(tier, ctx, tags):
    from . import jobs_smp as J
    yield [job('rseq_mempool_range_init_numa', 'rvc.jobs_smp:j_numa', 400, decide=tags)]
add('C18', stages=numa_stages, tags=['C18', 'MEM', 'ARITH'], functions=['rseq_mempool_range_init_numa', 'rseq_get_count_order_ulong (inlined)'],
    assumptions=['HAVE_LIBNUMA build (as configured here); numa_node_of_cpu and move_pages follow their manual pages', 'page size 4096, length below 2^45', 'a request is a run of consecutive pages (otherwise the check gives up and only the battery decides)'], battery=bat(('numa', 'numa', 20000)))
NA = {}
