#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
MP = 'src/rseq-mempool.c'; MH = 'include/rseq/mempool.h'
X = 'include/rseq/arch/x86/bits.h'; TPL = 'include/rseq/arch/templates/bits.tpl.h'
def P(id, title, st, over, qt, why, files, mech, state=()):
    return dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state]))
OPS = 'load_cbne_store, load_add_store, load_cbeq_store_add_load_store, load_add_load_load_add_store, load_cbne_store_store, load_cbne_load_cbne_store, load_cbne_memcpy_store'
PROPS = [
P('C01', 'Per-CPU operations do exactly what their documented pseudo-code says',
  'An undisturbed per-CPU operation leaves memory and its return value exactly as its documented sequence of loads, compares and stores prescribes: success performs every listed store with the right values, a failed comparison returns 1 and stores nothing, and nothing else is modified. Combinations of memory ordering and per-CPU index mode which are not supported return -1 and have no effect.',
  ['inputs', 'programs', 'configurations'], 'every operation, every supported ordering and index mode, all operand values, all memory contents, copy lengths of any size',
  'The tests run a few counters and lists with one set of operands; they never compare all of memory before and after, nor cover all operand values, offsets, lengths and orderings.',
  ['include/rseq/rseq.h', 'include/rseq/pseudocode.h', X, 'include/rseq/arch/x86/rseq-x86.h' if False else 'include/rseq/arch/x86.h'],
  [('per-architecture assembly of each operation', X), ('dispatch on ordering and index mode', 'include/rseq/rseq.h')]),
P('C02', 'An aborted per-CPU operation has no committed effect and can be restarted',
  'If a thread is preempted, migrated or receives a signal at any instruction of a per-CPU operation before its final store, the operation returns -1 and its committing store has not happened; only the documented preparatory stores (the speculative store or the copy destination) may have been made. Once the committing store has happened the operation reports success and is never undone or repeated.',
  ['schedules', 'crash_points', 'inputs'], 'every interruption point of every operation, all operand values and memory contents, every iteration of the copy loops',
  'A test can only interrupt at the points where a timer happens to fire; each instruction boundary, each copy iteration and each operand value has to be considered.',
  ['include/rseq/rseq.h', X, 'include/rseq/arch/x86.h'],
  [('restartable sequence with a single committing store as last instruction', X), ('abort handler returning -1', 'include/rseq/arch/x86.h')]),
P('C03', 'A per-CPU operation only takes effect on the requested CPU or concurrency id',
  'A per-CPU operation given a CPU number (or memory-map concurrency id) different from the one the thread is running on returns -1 without storing anything, and the number is compared inside the restartable sequence. The index mode chosen by the caller decides which of the two numbers is compared.',
  ['schedules', 'inputs', 'configurations'], 'every operation, mode, requested and actual CPU number, and any migration between reading the number and the operation',
  'Tests always pass the current CPU; a mismatch needs a migration in a window of a few instructions.',
  ['include/rseq/rseq.h', X, 'include/rseq/arch/x86.h'], [('cpu comparison inside the critical section', 'include/rseq/arch/x86.h')]),
P('C04', 'Every restartable sequence is described to the kernel correctly',
  'Each per-CPU operation announces to the kernel, before its first guarded instruction, a descriptor whose range covers exactly the instructions from that point up to and including the committing store, whose abort target lies outside the range and is preceded by the registered signature. The announcement is cleared or superseded such that the kernel never aborts to the wrong sequence.',
  ['programs', 'configurations', 'schedules'], 'every operation in every ordering and mode, as compiled (both compilers, several optimisation levels)',
  'A wrong range, signature or alignment only shows when the kernel aborts at exactly the uncovered instruction.',
  ['include/rseq/arch/x86.h', X, 'include/rseq/rseq-abi.h'] if False else ['include/rseq/arch/x86.h', X], [('descriptor tables and signature emission', 'include/rseq/arch/x86.h')]),
P('C05', 'An allocated item is never handed out twice',
  'Memory returned by a pool allocation does not overlap, on any CPU, the memory of any other item which is currently allocated, lies entirely inside the pool and is aligned on the item size. This holds for any number of threads allocating and freeing concurrently.',
  ['histories', 'schedules', 'configurations'], 'every history of allocations and frees by any number of threads, all pool parameters',
  'The tests exercise short single-threaded histories with two item sizes; recycling across several memory ranges, unusual item/stride ratios and races are not sampled.',
  [MP, MH], [('free list and next-unused frontier under the pool lock', MP + ': malloc and free paths'), ('allocation bitmap of robust pools', MP)],
  [('free list', 'items freed and not yet handed out again', MP), ('frontier of the newest range', 'items never handed out', MP)]),
P('C06', 'Zeroed and initialized allocations have the promised content on every CPU',
  'After a zeroed allocation every byte of the item is zero on every possible CPU; after an initialized allocation every CPU sees the given initial content. This holds for first use and for recycled items under both populate policies.',
  ['histories', 'inputs', 'configurations'], 'all item sizes, strides, CPU counts, init lengths, histories of earlier use, both populate policies, robust or not',
  'Tests check a few sizes; stale content needs specific recycling histories, copy-on-write page states and CPU counts.',
  [MP, MH], [('zeroing and initialisation of all copies, shared init values and copy-on-write', MP)]),
P('C07', 'Allocating and freeing never change the content of other live items',
  'Allocating or freeing an item writes only to memory of that item (on any CPU) and to memory owned by the allocator itself. The content of every other allocated item on every CPU is unchanged, and an item is not touched any more once it has been released.',
  ['histories', 'inputs', 'configurations', 'schedules'], 'all histories, parameters and items',
  'Overruns into a neighbour show only for particular sizes, CPU counts and layouts, and only if the neighbour is live and inspected.',
  [MP], [('confinement of zero/init/poison/free-list writes to the item', MP)]),
P('C08', 'Pool capacity: nothing is lost, exhaustion is reported',
  'An allocation succeeds as long as some item of the pool is not allocated or another memory range may be created; freed items are reused before the pool grows, and no freed item is ever lost. Otherwise it returns NULL with the documented error and changes nothing.',
  ['histories', 'configurations', 'fault_sequences'], 'all histories, range limits and failures to create a range',
  'Tests fill a pool once; lost items show only after particular orders of free and allocate over several ranges.',
  [MP], [('free list first, then frontier, then new range', MP)]),
P('C09', 'Robust pools detect misuse and never accuse correct programs',
  'A pool created robust stops the program on a double free, on handing out an item modified while free, and on destruction with items still allocated or modified while free. A program which uses the pool correctly is never stopped.',
  ['histories', 'inputs', 'configurations'], 'all histories, positions and values of the corruption, all parameters',
  'The tests corrupt one byte at one place; detection must hold for each byte of each copy and correct histories must all pass.',
  [MP, MH], [('poison check on allocation and destroy, allocation bitmap, free list check', MP)]),
P('C10', 'Pool creation validates its parameters and lays memory out as documented',
  'Creation refuses with an error item sizes, strides and CPU counts which cannot be represented or violate the documented constraints, and otherwise creates a pool whose items are the requested size rounded up to a power of two (at least a pointer). The optional init callback is called once per CPU (or once with -1 for global pools) on each new range with exactly the memory of that CPU, and attribute setters record exactly what they are given.',
  ['inputs', 'configurations'], 'all sizes, strides, CPU counts, policies and attribute combinations, including extreme values',
  'Tests use valid, small parameters only.',
  [MP, MH], [('parameter validation and range layout', MP)]),
P('C11', 'Pool resources are released exactly once and failures leak nothing',
  'When creating a pool or extending it fails at any step, every mapping, descriptor and heap block obtained so far is released and nothing the pool does not own is unmapped, replaced or freed. Destroying a pool releases everything it owns exactly once and returns an error if something could not be released.',
  ['fault_sequences', 'histories', 'configurations'], 'a failure of any system or library call at any point, all parameters, any number of ranges',
  'Tests never inject failures of system calls.',
  [MP], [('error paths of creation, range creation and destroy', MP)]),
P('C12', 'Pools do not leak writes between parent and child after fork',
  'After fork, nothing a child does with a pool of its parent changes what the parent sees in its items, and the reverse. The child can still destroy its copy of the pool to release its resources, without effect on the parent.',
  ['histories', 'configurations', 'schedules'], 'all pool configurations and histories before the fork',
  'Isolation depends on the mapping attributes of each page of each range; tests look at one pool with one range.',
  [MP, MH], [('mapping flags, fork advice and wiped header marker', MP)]),
P('C13', 'Freed items are poisoned on every CPU',
  'After an item of a pool with poisoning is freed, every byte of it on every CPU holds the configured poison value, except the free-list link which a non-robust pool keeps in the item itself.',
  ['histories', 'inputs', 'configurations'], 'all item sizes, CPU counts, poison values, copy-on-write page states',
  'Tests check one poison value for one size.',
  [MP, MH], [('poisoning on free', MP)]),
P('C14', 'A pool set serves each request from the smallest fitting pool with space',
  'An allocation from a set uses the smallest pool whose items are large enough and which has space, falls back to larger pools only when smaller ones are exhausted, and reports lack of memory only when none fits; zeroed and initialized allocations keep their promises through a set. Adding a second pool of the same size is refused without effect, and destroying the set destroys each of its pools once.',
  ['histories', 'inputs', 'schedules'], 'all sets of pools, request sizes and exhaustion patterns',
  'Tests use one set with ample space.',
  [MP, MH], [('search by size order and retry on exhaustion', MP)]),
P('C15', 'Registration with the kernel is done by one owner with consistent arguments',
  'A thread area is registered and unregistered with the same address, length and signature, only when this library owns registration, and never both by the library and the C library. Registering or unregistering reports an error instead of changing state when it is not possible; a refusal by the kernel after another thread has been registered successfully is a broken environment and stops the program, as documented in the code.',
  ['histories', 'configurations', 'fault_sequences'], 'all sequences of register/unregister on any threads, all kernel feature sizes and alignments, with and without C-library support',
  'Tests run on one kernel and C library, where registration belongs to the C library.',
  ['src/rseq.c', 'include/rseq/rseq.h'], [('ownership decision and registration system call', 'src/rseq.c')]),
P('C16', 'Advertised rseq features, sizes and CPU queries are truthful',
  'The reported feature size never exceeds what the kernel supports and the thread area holds, availability is reported exactly when the requested kind is usable, and the current CPU, NUMA node and concurrency id queries return the registered value or the documented fallback.',
  ['configurations', 'inputs', 'histories'], 'all kernel feature sizes, alignments, C-library versions and registration states',
  'Tests see one kernel and C library.',
  ['src/rseq.c', 'include/rseq/rseq.h', 'include/rseq/inject.h'] if False else ['src/rseq.c', 'include/rseq/rseq.h'], [('initialisation and feature queries', 'src/rseq.c')]),
P('C17', 'The possible-CPU count covers every CPU the kernel may report',
  'The number of possible CPUs returned is one more than the highest CPU number in the kernel\'s possible mask, or the number found in the CPU directories or configured when that is not available, and never too small or overflowed. It does not change after the first call.',
  ['inputs', 'configurations', 'fault_sequences'], 'all contents of the mask (a kernel CPU list shorter than 4096 bytes) and directory listing, read failures at any point',
  'Tests use a handful of mask strings.',
  ['src/smp.c', 'src/smp.h', MP], [('mask parsing and fallbacks', 'src/smp.c')]),
P('C18', 'NUMA placement touches exactly the requested range and reports failures',
  'Placing the memory of a CPU asks the kernel to move exactly the whole pages of the given range, each of them once, to that CPU\'s node with the caller\'s flags, and nothing else. Missing flags are refused with -1 and EINVAL; an unknown CPU and a failed request are reported with -1.',
  ['inputs', 'configurations', 'fault_sequences'], 'all range lengths, CPU numbers, call failures',
  'The tests do not check placement, and the sandbox has a single node.',
  [MP, MH], [('NUMA helper', MP)]),
]
NOTE = 'deductive: LLVM IR of the current sources, obligations discharged by z3 (cvc5 second); loop invariants inferred and proved; assumptions listed in the evidence'
if __name__ == '__main__':
    from rvc import props
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    checks = []; na = []
    for p in PROPS:
        q = props.PROPS.get(p['id'])
        if q is None: na.append(dict(property=p['id'], reason=props.NA.get(p['id'], 'no check yet'))); continue
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                           technique=q.get('technique', 'contract-based deductive verification of the compiled C functions (own VC generator on LLVM IR, z3/cvc5)'),
                           level='proof', level_note=q.get('level_note', NOTE)))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())" && clang --version | head -1', checks=checks, not_applicable=na,
             notes='Known and fixed findings: KNOWN_FINDINGS.txt. Design: DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
