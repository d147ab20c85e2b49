"""Building and running sim/memsim.cpp for every SIMD level of this host."""
import json
import os
import time
import simrun
import vp

SRC = os.path.join(vp.SIM, 'memsim.cpp')


def build(exts):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    jobs, objs = vp.lib_jobs(st, exts, sleef=False)
    vp.parallel(jobs)

    def one(e):
        return vp.cc('memsim_' + e, ['g++', '-std=c++17'] + vp.BASE + vp.FLAGS[e] +
                     ['-I' + st + '/include', '-I' + vp.SIM, SRC, '-static'] +
                     objs[e], [SRC] + vp.sim_headers(), obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: one(e)) for e in exts])))


def main(chk, which, nruns, assumptions):
    exts = vp.host_exts()
    t0 = time.time()
    bins = build(exts)
    build_s = time.time() - t0
    if chk.args.replay:
        simrun.replay_file(chk, bins, json.load(open(chk.args.replay)))
    quick = chk.tier == 'quick'
    budget = chk.args.budget or (60 if quick else 3000)
    runs = nruns if quick else nruns * 60
    t1 = time.time()
    st, samples, info, viol = simrun.explore(
        chk, bins, ['--which', which], runs, budget,
        chunk=(nruns + 1) // 2 if quick else nruns * 2)
    simrun.report(chk, bins, viol, 'memsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated run: 1-2 threads executing 1-3 '
             'real library operations each and 1-2 neighbour threads owning '
             'every other element of the arena, interleaved by the seeded '
             'scheduler at single machine instructions; non-trivial if at '
             'least two context switches fell inside a run that completed an '
             'operation; distinct by the hash of the sequence of (thread, '
             'step, next thread) decisions',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600),
        seeds=n, simulated_time='%d machine instructions of library code '
        '(the only clock of these runs)' % st.get('steps', 0),
        faults_injected=dict(
            preemption_at_instruction=st.get('switches', 0),
            concurrent_neighbour_write=st.get('neighbour_writes', 0),
            inaccessible_page_inside_vector=st.get('closed_page_runs', 0),
            inaccessible_page_at_buffer_end='place 1 and 2: half of the runs'),
        interleavings=st.get('distinct:interleavings', 0),
        cases_per_level=st.get('distinct:cases', 0) // max(1, len(exts)),
        levels=exts, per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0),
        components=dict(real='all generated nsimd operators, all x86 levels of '
                        'this host, gcc -O2, executed on the host CPU',
                        stub='threads are coroutines of one OS thread switched '
                             'by the single-step trap; the other elements are '
                             'written by neighbour coroutines'),
        build_s=round(build_s, 1)), assumptions=assumptions)
