"""Building and running sim/spmdsim.cpp (C07, C08)."""
import json
import os
import time
import gpubuild
import simrun
import spmdgen
import vp

SRC = os.path.join(vp.SIM, 'spmdsim.cpp')
PER = 12                            # programs per translation unit


def build(exts, seed, count, straight):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    tag = 's' if straight else 'd'
    cpu = [e for e in exts if e not in gpubuild.BACKENDS]
    gpu = [e for e in exts if e in gpubuild.BACKENDS]
    jobs, objs = vp.lib_jobs(st, cpu, sleef=False)
    for g in gpu:
        jobs.append(lambda g=g: objs.__setitem__(g, gpubuild.lib(st, g, obj)))
    mine = {e: [] for e in exts}
    gens = [os.path.join(vp.VERIF, 'lib', 'spmdgen.py')]
    work = []
    n = (count + PER - 1) // PER
    for e in exts:
        tab = os.path.join(obj, 'spmd%s_tab_%s_%d_%d.cpp' % (tag, 'gpu' if e in gpu else 'cpu', seed, n))
        write(tab, '#include "spmdsim.hpp"\nextern const SpmdCase %s;\n'
              'extern const SpmdCase *const spmd_all[];\n'
              'const SpmdCase *const spmd_all[] = {%s, 0};\n'
              'extern const int spmd_is_gpu;\nconst int spmd_is_gpu = %d;\n' % (
                  ', '.join('spmd_cases_%d[]' % i for i in range(n)),
                  ', '.join('spmd_cases_%d' % i for i in range(n)), e in gpu))
        for i in range(n):
            s = os.path.join(obj, 'spmd%s_%s_%d_%d.cpp' % (tag, e, seed, i))
            write(s, spmdgen.emit(seed, i * PER, min(PER, count - i * PER), e,
                                  'spmd_cases_%d' % i, straight))
            o = os.path.basename(s)[:-4] + '.o'
            if e in gpu:
                work.append(lambda e=e, s=s, o=o: gpubuild.compile(st, e, s, o, obj, inputs=gens))
            else:
                work.append(lambda e=e, s=s, o=o: vp.cc(
                    o, ['g++', '-std=c++17', '-O1', '-w', '-DNDEBUG', '-fPIC'] +
                    vp.FLAGS[e] + ['-I' + st + '/include', '-I' + vp.SIM, '-c', s],
                    [s, os.path.join(vp.SIM, 'spmdsim.hpp')], obj))
            mine[e].append(os.path.join(obj, o))
        core = 'spmdsim_core.o'
        o = os.path.basename(tab)[:-4] + '.o'
        mine[e] += [os.path.join(obj, core), os.path.join(obj, o)]
        if o not in [x for x, _ in jobs_named]:
            jobs_named.append((o, lambda tab=tab, o=o: vp.cc(
                o, ['g++', '-std=c++17', '-O1', '-I' + vp.SIM, '-c', tab], [tab], obj)))
    jobs.append(lambda: vp.cc('spmdsim_core.o', ['g++', '-std=c++17'] + vp.BASE +
                              ['-I' + vp.SIM, '-c', SRC], [SRC] + vp.sim_headers(), obj))
    vp.parallel(work + jobs + [j for _, j in jobs_named])
    del jobs_named[:]

    def link(e):
        ins = mine[e] + objs[e]
        return vp.cc('spmdsim%s_%s' % (tag, e), ['g++', '-static'] + ins, ins, obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: link(e)) for e in exts])))


jobs_named = []


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def main(chk, straight):
    exts = vp.host_exts() + gpubuild.BACKENDS
    quick = chk.tier == 'quick'
    replay = json.load(open(chk.args.replay)) if chk.args.replay else None
    seed = replay['program_seed'] if replay else chk.seed
    count = replay['programs'] if replay else \
        (88 if straight else 84) if quick else (264 if straight else 480)
    t0 = time.time()
    only = [replay['binary']] if replay and 'binary' in replay else exts
    bins = simrun.programs(chk, lambda: build(only, seed, count, straight),
                           ('spmd',), replay,
                           dict(program_seed=seed, programs=count))
    if replay:
        simrun.replay_file(chk, bins, replay)
    build_s = time.time() - t0
    budget = chk.args.budget or (40 if quick else 1500)
    runs = 6000 if quick else 200000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(chk, bins, [], runs, budget,
                                             chunk=(runs + 1) // 2)
    wr = chk.write_replay
    chk.write_replay = lambda tag, d: wr(tag, dict(d, program_seed=seed, programs=count))
    simrun.report(chk, bins, viol, 'spmdsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history of 1-4 launches of one '
             'generated kernel over guarded arrays, all elements compared with '
             'the one-item-at-a-time reference; non-trivial if a device ran it '
             '(seeded thread order and overlap), threads were switched at '
             'instructions, or launches followed one another; distinct by the '
             'hash of device events, switches and kernel',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d items, %d conditions, %d device threads' % (
            st.get('items', 0), st.get('conditions', 0), st.get('device_threads', 0)),
        faults_injected=dict(
            preemption_at_instruction=st.get('instruction_switches', 0),
            concurrent_writes_beside_the_launch=st.get('owner_writes', 0),
            delayed_and_overlapping_device_work=st.get('device_overlaps', 0),
            seeded_thread_orders=st.get('device_launches', 0)),
        interleavings=st.get('distinct:histories', 0),
        programs=count, levels=exts, per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0), build_s=round(build_s, 1),
        components=dict(
            real='spmd.hpp and its generated functions, the operators below '
                 'it, the launch macros of all backends, nsimd_kernel_param',
            stub='CUDA, HIP and SYCL runtimes and headers (sim/gpu): memory, '
                 'streams, queues, order of device threads; the CUDA launch '
                 'syntax is rewritten to a call; thread scheduling on CPUs')),
        assumptions=['x86-64 host, code generated by g++ -O1',
                     'CUDA: fewer than 2^31 items',
                     'values are small integers, exact in every type',
                     'device code is compiled by the host compiler'])
