#!/usr/bin/env python3
"""Writes MANIFEST.json.  BUILT lists the properties whose check exists."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))

BUILT = {
    'C01': 'bounded search over seeded histories, failures and instruction-level schedules; no claim beyond them',
    'C02': 'bounded search over seeded histories and failures; no claim beyond them',
    'C03': 'instruction-level scheduling on the host CPU; bounded search over seeds, no claim beyond them',
    'C05': 'instruction-level scheduling on the host CPU; bounded search over seeds, no claim beyond them',
    'C06': 'bounded search over seeded stream failures and instruction-level schedules; no claim beyond them',
    'C12': 'bounded search over seeded options and environments; no claim beyond them',
    'C13': 'bounded search over seeded histories of disk faults, crashes and power loss; no claim beyond them',
    'C14': 'bounded search over seeded histories of network and disk faults, crashes and power loss; no claim beyond them',
    'C07': 'bounded search over seeded programs, sizes and device schedules on simulated runtimes; no claim beyond them, nor about a real device',
    'C08': 'bounded search over seeded programs, sizes and device schedules on simulated runtimes; no claim beyond them, nor about a real device',
    'C09': 'bounded search over seeded programs, sizes and device schedules on simulated runtimes; no claim beyond them, nor about a real device',
    'C11': 'bounded search over seeded programs, sizes and device schedules on simulated runtimes; no claim beyond them, nor about a real device',
    'C10': 'bounded search over seeded histories of failing allocators and devices on simulated runtimes; no claim beyond them, nor about a real device',
    'C04': 'instruction-level scheduling on the host CPU; bounded search over seeds, no claim beyond them',
}
TECH = 'deterministic simulation with fault injection: '
TECHN = {
    'C01': 'seeded multi-thread allocation histories with failing system allocator, instruction-level pre-emption, ledger model',
    'C02': 'seeded container histories with failing system allocator, reference container model, leak ledger',
    'C03': 'instruction-level interleaving of masked accesses with owners of the other lanes, closed pages as faults',
    'C04': 'instruction-level interleaving of vector accesses with owners of neighbouring elements, closed pages as faults',
    'C05': 'instruction-level interleaving of operators on several threads against their solo results, control-register invariant',
    'C06': 'simulated streams failing at any byte under the real printing code',
    'C07': 'simulated CPU/CUDA/ROCm/oneAPI runtimes with seeded thread schedules under the real launch code',
    'C08': 'seeded divergent programs on simulated runtimes against a per-item sequential model, bounded-progress liveness',
    'C09': 'simulated devices and streams with seeded schedules under real array expressions against a scalar model',
    'C10': 'failing device and host allocators under the real memory module, ledger model',
    'C11': 'simulated backends with seeded schedules, cross-backend agreement of exactly specified operations',
    'C12': 'generator run under a simulated environment (hash seed, directory order, clock, locale, umask), tree comparison',
    'C13': 'generator run under an interposed file system injecting errors, torn writes and crashes, recovery comparison',
    'C14': 'fetcher run against a simulated network and interposed file system, recovery comparison',
}
NA = {
    'N01': 'pure function of its operands: no schedule, clock, I/O or fault for a simulator to decide (the exactly specified operators are still cross-checked between simulated backends by C11)',
    'N02': 'pure numerical accuracy claim over an input domain; nothing nondeterministic to simulate',
    'N03': 'pure bit-level conversion; an input-space question, not a schedule or fault question',
    'N04': 'pure lane movement; an input-space question, not a schedule or fault question',
    'N05': 'counter-based generators keep no state, hence no history, schedule or fault influences them',
    'N06': 'pure integer arithmetic; an input-space question',
    'N07': 'equality of pure wrappers; nothing nondeterministic to simulate',
    'N08': 'pure function of two numbers',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in BUILT:
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique=TECH + TECHN[i], level='exploration',
            level_note=BUILT[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i) or 'check not built yet'))
m = dict(version=1, setup_cmd='python3 setup.py',
         hooks=dict(guard='none', enable='no hook was needed in /repo: every '
                    'seam is a header, symbol, library or system-call '
                    'boundary the harnesses supply', source_commits=[]),
         checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
