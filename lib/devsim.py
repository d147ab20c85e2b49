"""Building and running sim/devsim.cpp (C10)."""
import json
import os
import time
import gpubuild
import simrun
import vp

SRC = os.path.join(vp.SIM, 'devsim.cpp')


def build(exts):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    jobs, objs = vp.lib_jobs(st, [e for e in exts if e not in gpubuild.BACKENDS], sleef=False)
    vp.parallel(jobs)

    def one(e):
        o = 'devsim_%s.o' % e
        if e in gpubuild.BACKENDS:
            objs[e] = gpubuild.lib(st, e, obj)
            gpubuild.compile(st, e, SRC, o, obj)
        else:
            vp.cc(o, ['g++', '-std=c++17', '-O1', '-w', '-DNDEBUG'] + vp.FLAGS[e] +
                  ['-I' + vp.SIM, '-I' + st + '/include', '-c', SRC],
                  [SRC] + vp.sim_headers(), obj)
        ins = [os.path.join(obj, o)] + objs[e]
        return vp.cc('devsim_' + e, ['g++', '-Wl,--wrap=exit'] + ins, ins, obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: one(e)) for e in exts])))


def main(chk):
    exts = ['cpu'] + gpubuild.BACKENDS
    replay = json.load(open(chk.args.replay)) if chk.args.replay else None
    bins = simrun.programs(chk, lambda: build(exts), ('devsim_',), replay, {})
    if replay:
        simrun.replay_file(chk, bins, replay)
    quick = chk.tier == 'quick'
    budget = chk.args.budget or (60 if quick else 1200)
    runs = 30000 if quick else 3000000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(chk, bins, [], runs, budget,
                                             chunk=(runs + 3) // 4)
    simrun.report(chk, bins, viol, 'devsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history of 4-14 allocations, '
             'fills, host writes, copies and frees of one element type; '
             'non-trivial if an allocation or clearing step failed or the '
             'device did more than one piece of work; distinct by hash of '
             'results, device events and type',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d device threads, %d device copies' % (
            st.get('device_threads', 0), st.get('device_copies', 0)),
        faults_injected={k: v for k, v in st.items() if k.startswith('failed ')},
        interleavings=st.get('distinct:histories', 0), levels=exts,
        per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0),
        components=dict(
            real='memory_management.hpp for CPU, CUDA, ROCm and oneAPI, '
                 'src/gpu.cpp, the fill kernels',
            stub='CUDA, HIP and SYCL runtimes (sim/gpu), the host heap, '
                 'exit()')),
        assumptions=['a device call either succeeds or fails without effect',
                     'copies themselves do not fail: the interface has no '
                     'way to say so', 'CUDA: fewer than 2^31 elements'])
