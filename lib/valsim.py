"""Building and running sim/valsim.cpp (C11)."""
import json
import os
import time
import gpubuild
import simrun
import valgen
import vp

SRC = os.path.join(vp.SIM, 'valsim.cpp')
DEV = gpubuild.BACKENDS[:1] + ['cuda70'] + gpubuild.BACKENDS[1:]


def build(exts, seed, trees, all_ops):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    cpu = [e for e in exts if e not in DEV]
    gpu = [e for e in exts if e in DEV]
    jobs, objs = vp.lib_jobs(st, cpu, sleef=False)
    for g in gpu:
        jobs.append(lambda g=g: objs.__setitem__(g, gpubuild.lib(st, g, obj)))
    mine = {e: [] for e in exts}
    tag = '%d_%d_%d' % (seed, trees, all_ops)
    work = []
    for t in valgen.TYPES:
        s = os.path.join(obj, 'val_%s_%s.cpp' % (t, tag))
        write(s, valgen.emit(seed, t, trees, 'val_cases_' + t, all_ops))
        for e in exts:
            o = 'val_%s_%s_%s.o' % (e, t, tag)
            if e in gpu:
                work.append(lambda e=e, s=s, o=o: gpubuild.compile(st, e, s, o, obj))
            else:
                work.append(lambda e=e, s=s, o=o: vp.cc(
                    o, ['g++', '-std=c++17', '-O1', '-w', '-DNDEBUG', '-fPIC'] +
                    vp.FLAGS[e] + ['-I' + st + '/include', '-I' + vp.SIM, '-c', s],
                    [s, os.path.join(vp.SIM, 'valsim.hpp')], obj))
            mine[e].append(os.path.join(obj, o))
    for kind in (['cpu'] if cpu else []) + (['gpu'] if gpu else []):
        tab = os.path.join(obj, 'val_tab_%s.cpp' % kind)
        write(tab, '#include "valsim.hpp"\nextern const ValCase %s;\n'
              'extern const ValCase *const val_all[];\n'
              'const ValCase *const val_all[] = {%s, 0};\n'
              'extern const int val_is_gpu;\nconst int val_is_gpu = %d;\n' % (
                  ', '.join('val_cases_%s[]' % t for t in valgen.TYPES),
                  ', '.join('val_cases_%s' % t for t in valgen.TYPES), kind == 'gpu'))
        o = 'val_tab_%s.o' % kind
        jobs.append(lambda tab=tab, o=o: vp.cc(
            o, ['g++', '-std=c++17', '-O1', '-I' + vp.SIM, '-c', tab], [tab], obj))
        for e in (gpu if kind == 'gpu' else cpu):
            mine[e] += [os.path.join(obj, o), os.path.join(obj, 'valsim_core.o')]
    jobs.append(lambda: vp.cc('valsim_core.o', ['g++', '-std=c++17'] + vp.BASE +
                              ['-I' + vp.SIM, '-c', SRC], [SRC] + vp.sim_headers(), obj))
    vp.parallel(work + jobs)

    def link(e):
        ins = mine[e] + objs[e]
        return vp.cc('valsim_' + e, ['g++', '-static'] + ins, ins, obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: link(e)) for e in exts])))


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def main(chk):
    exts = vp.host_exts() + DEV
    quick = chk.tier == 'quick'
    replay = json.load(open(chk.args.replay)) if chk.args.replay else None
    seed = replay['program_seed'] if replay else chk.seed
    trees, all_ops = replay['programs'] if replay else (6, 1) if quick else (60, 1)
    t0 = time.time()
    only = [replay['binary']] if replay and 'binary' in replay else exts
    bins = simrun.programs(chk, lambda: build(only, seed, trees, all_ops),
                           ('val_', 'valsim_'), replay,
                           dict(program_seed=seed, programs=[trees, all_ops]))
    if replay:
        simrun.replay_file(chk, bins, replay)
    build_s = time.time() - t0
    budget = chk.args.budget or (60 if quick else 1500)
    runs = 12000 if quick else 600000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(chk, bins, [], runs, budget,
                                             chunk=(runs + 1) // 2)
    wr = chk.write_replay
    chk.write_replay = lambda tag, d: wr(tag, dict(d, program_seed=seed, programs=[trees, all_ops]))
    simrun.report(chk, bins, viol, 'valsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated history of 1-3 launches of one '
             'generated kernel or array expression over the same items in '
             'different positions, every item compared with the engine\'s own '
             'arithmetic; non-trivial if a simulated device ran it (seeded '
             'thread order and overlap) or items changed position between '
             'launches; distinct by the hash of device events and program',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d items, %d device threads' % (
            st.get('items', 0), st.get('device_threads', 0)),
        faults_injected=dict(
            items_moved_between_vector_part_and_remainder=st.get('launches', 0),
            delayed_and_overlapping_device_work=st.get('device_overlaps', 0),
            seeded_thread_orders=st.get('device_launches', 0)),
        interleavings=st.get('distinct:histories', 0),
        items_without_specified_value=st.get('items_without_specified_value', 0),
        trees_per_type_and_dsl=trees, levels=exts, per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0), build_s=round(build_s, 1),
        components=dict(
            real='operators and scalar functions of every backend, spmd.hpp, '
                 'tet1d.hpp and their generated functions, the launch macros',
            stub='CUDA, HIP and SYCL runtimes and headers (sim/gpu): memory, '
                 'streams, queues, order of device threads, device maths '
                 'intrinsics; the CUDA launch syntax is rewritten to a call')),
        assumptions=['x86-64 host, code generated by g++ -O1',
                     'device intrinsics behave as the vendors document them',
                     'device code is compiled by the host compiler'])
