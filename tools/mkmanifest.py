#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/tools')
from configs import PROPS
TECH = 'deterministic simulation with fault injection: seeded search over %s'
T = {
 'C01': ('random LIR programs and failing heap / executable allocations', 'fault-free twin, allocation balance and red zones, retry, execution results'),
 'C02': ('allocation histories and failing system calls', 'shadow map of all blocks and mappings, content patterns, resource balance'),
 'C03': ('thread interleavings at every memory access and lock operation', 'vector-clock race detection, results of the solo run, allocator shadow, deadlock detection'),
 'C04': ('crash/restart points of a compilation with allocation faults', 'uninterrupted twin: enumeration order, relative addresses, code execution'),
 'C05': ('torn and foreign buffers of random programs', 'NULL result, unmapped pages around the buffer, allocation balance'),
 'C06': ('stack operation histories with refused memory and advice', 'byte-exact reference model of the stack, reservation balance'),
 'C07': ('patch / execute histories and stale instruction caches', 'reference model of the last value written to every site'),
 'C08': ('instruction-level interleavings of two simulated CPUs', 'linearizability of each load/store pair, neighbouring bytes, progress'),
 'C09': ('interrupt points at every instruction of random programs', 'uninterrupted run, stack pointer range, preserved registers'),
 'C10': ('placements of code, data and targets, and buffer sizes', 'execution at a reference placement, red zones, reported addresses'),
 'C11': ('simulated CPU models with optional features removed', 'identical result digests on all models, no illegal instruction'),
 'C12': ('fragmentations and interleavings of matches with allocation faults', 'one-shot match on a fresh machine'),
 'C13': ('code generation / patch histories with refused permission changes', 'page protection model of the simulated operating system'),
  'C18': ('process histories and contents of uninitialised and recycled memory', 'the first compilation of the same program: bytes, layout, results'),
 'C14': ('switching points and failures of the trace stream', 'untraced twin: return values, code, memory'),
}
NOTE = 'Seeded sampling, not exhaustive: %s. Trusts the simulator in /verif/sim, gcc and qemu-user; the library and the generated code are real.'
NA = {
 'C15': 'Whether an operation computes its documented value is a pure function of operands and program: no schedule, clock, I/O, fault or second party is involved, so simulation has nothing to decide (the simulations of C01, C04, C07, C10, C11 and C14 only compare executions with each other).',
 'C16': 'Argument checking is a pure function of the arguments of one call; nothing nondeterministic for a simulator to control.',
 'C17': 'The match that a pattern defines is a pure function of pattern and input; the schedule-dependent part (fragments, interleaving, faults) is C12.',
}
TMP_NA = {'C03': 'in construction', 'C08': 'in construction', 'C09': 'in construction', 'C11': 'in construction'}
checks = []
for p in sorted(T):
    if p not in PROPS: NA[p] = TMP_NA[p]; continue
    q = PROPS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p, evidence_file='evidence/%s.json' % p,
        technique=TECH % T[p][0], level=q.get('level', 'exploration'), level_note=NOTE % ('oracle: ' + T[p][1])))
m = dict(version=1, setup_cmd='python3 check.py build', hooks=dict(guard='SLJIT_HAVE_CONFIG_PRE', enable='the configuration seam sljit already has: checks compile /repo with -DSLJIT_HAVE_CONFIG_PRE=1 and -I/verif/sim/cfg, whose sljitConfigPre.h redirects malloc/free, cache flush and assertions to the simulator; system calls are redirected by the linker (--wrap). No hook was added to /repo.', source_commits=[]),
    checks=checks, not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
    notes='See DESIGN.md. known-findings.txt lists findings and the defects repaired in /repo.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); print(len(checks))
