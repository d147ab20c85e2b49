"""Building and running sim/tetsim.cpp (C09)."""
import json
import os
import time
import gpubuild
import simrun
import tetgen
import vp

SRC = os.path.join(vp.SIM, 'tetsim.cpp')
PER = 22                            # programs per translation unit

STREAMS = '''#include "tetsim.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/tet1d.hpp>
%s
#if defined(NSIMD_CUDA)
#define GPU(x) cuda##x
#elif defined(NSIMD_ROCM)
#define GPU(x) hip##x
#endif
#ifdef GPU
static GPU(Stream_t) s[8];
void tet_streams(void **out, int n) { for (int i = 0; i < n; i++) { GPU(StreamCreate)(&s[i]); out[i] = &s[i]; } }
void tet_wait(void *p) { if (p) GPU(StreamSynchronize)(*(GPU(Stream_t) *)p); else GPU(DeviceSynchronize)(); }
#else
void tet_streams(void **, int) {}
void tet_wait(void *) {}
#endif
'''


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def build(exts, seed, count):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    cpu = [e for e in exts if e not in gpubuild.BACKENDS]
    gpu = [e for e in exts if e in gpubuild.BACKENDS]
    jobs, objs = vp.lib_jobs(st, cpu, sleef=False)
    for g in gpu:
        jobs.append(lambda g=g: objs.__setitem__(g, gpubuild.lib(st, g, obj)))
    mine = {e: [os.path.join(obj, 'tetsim_core.o')] for e in exts}
    n = (count + PER - 1) // PER
    work, srcs = [], []
    for i in range(n):
        s = os.path.join(obj, 'tet_%d_%d_%d.cpp' % (seed, count, i))
        write(s, tetgen.emit(seed, i * PER, min(PER, count - i * PER), 'tet_cases_%d' % i))
        srcs.append(s)
    for kind in ['cpu', 'gpu']:
        s = os.path.join(obj, 'tet_%s_%d_%d_tab.cpp' % (kind, seed, count))
        write(s, STREAMS % ('extern const TetCase %s;\nextern const TetCase *const tet_all[];\n'
                            'const TetCase *const tet_all[] = {%s, 0};\n'
                            'extern const int tet_is_gpu;\nconst int tet_is_gpu = %d;\n' % (
                                ', '.join('tet_cases_%d[]' % i for i in range(n)),
                                ', '.join('tet_cases_%d' % i for i in range(n)), kind == 'gpu')))
        srcs.append(s)
    for s in srcs:
        for e in exts:
            b = os.path.basename(s)[:-4]
            if b.endswith('_tab') and ('_gpu_' in b) != (e in gpu):
                continue
            o = '%s_%s.o' % (b, e)
            # the library's assertions are part of what is checked
            if e in gpu:
                work.append(lambda e=e, s=s, o=o: gpubuild.compile(st, e, s, o, obj, ['-UNDEBUG']))
            else:
                work.append(lambda e=e, s=s, o=o: vp.cc(
                    o, ['g++', '-std=c++17', '-O1', '-w', '-fPIC'] + vp.FLAGS[e] +
                    ['-I' + st + '/include', '-I' + vp.SIM, '-c', s],
                    [s, os.path.join(vp.SIM, 'tetsim.hpp')], obj))
            mine[e].append(os.path.join(obj, o))
    jobs.append(lambda: vp.cc('tetsim_core.o', ['g++', '-std=c++17'] + vp.BASE +
                              ['-I' + vp.SIM, '-c', SRC], [SRC] + vp.sim_headers(), obj))
    vp.parallel(work + jobs)

    def link(e):
        ins = mine[e] + objs[e]
        return vp.cc('tetsim_' + e, ['g++', '-static'] + ins, ins, obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: link(e)) for e in exts])))


def main(chk):
    exts = vp.host_exts() + gpubuild.BACKENDS
    quick = chk.tier == 'quick'
    replay = json.load(open(chk.args.replay)) if chk.args.replay else None
    seed = replay['program_seed'] if replay else chk.seed
    count = replay['programs'] if replay else 132 if quick else 660
    t0 = time.time()
    only = [replay['binary']] if replay and 'binary' in replay else exts
    bins = simrun.programs(chk, lambda: build(only, seed, count),
                           ('tet_', 'tetsim_'), replay,
                           dict(program_seed=seed, programs=count))
    if replay:
        simrun.replay_file(chk, bins, replay)
    build_s = time.time() - t0
    budget = chk.args.budget or (30 if quick else 1500)
    runs = 8000 if quick else 400000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(chk, bins, [], runs, budget,
                                             chunk=(runs + 1) // 2)
    wr = chk.write_replay
    chk.write_replay = lambda tag, d: wr(tag, dict(d, program_seed=seed, programs=count))
    simrun.report(chk, bins, viol, 'tetsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history of 1-5 launches of '
             'generated assignments over 1-3 groups of guarded arrays, each '
             'with a stream of its own, all elements compared with the '
             'reference; non-trivial if a device ran it, threads were switched '
             'at instructions, or launches followed one another; distinct by '
             'the hash of device events, switches and program',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d elements, %d device threads' % (
            st.get('items', 0), st.get('device_threads', 0)),
        faults_injected=dict(
            preemption_at_instruction=st.get('instruction_switches', 0),
            concurrent_writes_beside_the_assignment=st.get('owner_writes', 0),
            delayed_and_overlapping_device_work=st.get('device_overlaps', 0),
            waits_for_a_single_stream=st.get('streams_waited_for', 0),
            seeded_thread_orders=st.get('device_launches', 0)),
        interleavings=st.get('distinct:histories', 0),
        programs=count, levels=exts, per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0), build_s=round(build_s, 1),
        components=dict(
            real='tet1d.hpp and its generated functions, the operators below '
                 'it, launches of all backends, nsimd_kernel_param; assertions on',
            stub='CUDA, HIP and SYCL runtimes and headers (sim/gpu): memory, '
                 'streams, queues, order of device threads; the CUDA launch '
                 'syntax is rewritten to a call; thread scheduling on CPUs')),
        assumptions=['x86-64 host, code generated by g++ -O1',
                     'fewer than 2^31 elements on devices',
                     'values are small integers, exact in every type',
                     'an output is read only at the element being written',
                     'device code is compiled by the host compiler'])
