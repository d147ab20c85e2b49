"""Building and running sim/printsim.cpp (C06)."""
import json
import os
import time
import simrun
import vp

SRC = os.path.join(vp.SIM, 'printsim.cpp')


def build(exts):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    jobs, objs = vp.lib_jobs(st, exts, sleef=False)
    vp.parallel(jobs)

    def one(e):
        return vp.cc('printsim_' + e, ['g++', '-std=c++17'] + vp.BASE + vp.FLAGS[e] +
                     ['-I' + st + '/include', '-I' + vp.SIM, SRC, '-static'] +
                     objs[e], [SRC] + vp.sim_headers(), obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: one(e)) for e in exts])))


def main(chk):
    exts = vp.host_exts()
    bins = build(exts)
    if chk.args.replay:
        simrun.replay_file(chk, bins, json.load(open(chk.args.replay)))
    quick = chk.tier == 'quick'
    budget = chk.args.budget or (60 if quick else 1200)
    runs = 20000 if quick else 2000000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(chk, bins, [], runs, budget,
                                             chunk=(runs + 1) // 2)
    simrun.report(chk, bins, viol, 'printsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history of 1-8 prints by 1-2 '
             'threads to streams over a simulated device; non-trivial if the '
             'device failed, took a short write, or two threads interleaved '
             'at device writes; distinct by hash of device events, switches '
             'and case',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d device writes' % st.get('device_writes', 0),
        faults_injected=dict(device_error=st.get('device_errors', 0),
                             short_write=st.get('short_writes', 0),
                             thread_switch_at_device_write=st.get('switches', 0)),
        interleavings=st.get('distinct:histories', 0), levels=exts,
        per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0),
        components=dict(
            real='nsimd_put_* and nsimd_put_l* of every type and level, '
                 'operator<< of packs, logical packs, unrolled packs and '
                 'fixed-point packs, glibc stdio and libstdc++ streams',
            stub='the device below the stream (fopencookie callbacks, a '
                 'streambuf), and thread scheduling at device writes')),
        assumptions=['glibc stdio: an error met while flushing a buffer later '
                     'is the stream\'s to report, not the print\'s',
                     'default formats are checked by parsing the text back '
                     '(1e-4 relative), caller formats exactly'])
