"""Checks C01 and C02 over sim/allocsim.cpp."""
import json
import time
import allocsim
import simrun


def main(chk, which, nruns):
    bins = allocsim.build()
    if chk.args.replay:
        simrun.replay_file(chk, bins, json.load(open(chk.args.replay)))
    quick = chk.tier == 'quick'
    budget = chk.args.budget or (70 if quick else 2400)
    runs = nruns if quick else nruns * 60
    t1 = time.time()
    st, samples, info, viol = simrun.explore(
        chk, bins, ['--which', which], runs, budget, chunk=max(1, runs // 4))
    simrun.report(chk, bins, viol, 'allocsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    what = ('1-3 simulated threads, 2-14 allocation / release operations each, '
            'pre-empted at any machine instruction of the library'
            if which == 'C01' else
            '3-30 container, allocator and scoped-buffer operations')
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history: %s, over a simulated '
             'system heap with exact bounds, minimal alignment, canaries and '
             'seeded failures; non-trivial if at least one underlying call '
             'failed%s; distinct by hash of (operations, failures, outcomes%s)'
             % (what, ' or two threads interleaved' if which == 'C01' else '',
                ', switches' if which == 'C01' else ''),
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d steps' % st.get('steps', 0),
        faults_injected=dict(failing_system_allocation=st.get('faults', 0),
                             preemption=st.get('switches', 0)),
        interleavings=st.get('distinct:histories', 0), per_standard=info,
        stats=st, determinism_pairs=st.get('determinism_pairs', 0),
        components=dict(
            real='src/memory.cpp, include/nsimd/nsimd.h (allocators, scoped '
                 'buffer), libstdc++ containers, C++98/11/17/20',
            stub='the system heap (malloc, posix_memalign, aligned_alloc, '
                 'free, operator new/delete) and thread scheduling')),
        assumptions=['libstdc++ containers; types are the 11 nsimd element types',
                     'the MSVC branch of src/memory.cpp is not compiled here'])
