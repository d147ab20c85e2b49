"""Building and running sim/opsim.cpp (C05)."""
import json
import os
import subprocess
import sys
import time
import simrun
import vp

NP = 4


def build(exts):
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    hdr = vp.sim_headers()
    jobs, objs = vp.lib_jobs(st, exts)
    gen = os.path.join(vp.VERIF, 'lib', 'opgen.py')
    core = os.path.join(vp.SIM, 'opsim.cpp')
    extra = os.path.join(vp.SIM, 'opsim_extra.cpp')
    env = dict(os.environ, PYTHONHASHSEED='0')
    for e in exts:
        p = subprocess.run([sys.executable, '-B', gen, st, e, obj, str(NP)],
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            raise vp.CheckError('opgen: ' + p.stdout.decode()[-2000:])
    jobs.append(lambda: vp.cc('opsim_core.o', ['g++', '-std=c++17'] + vp.BASE +
                              ['-I' + vp.SIM, '-c', core], [core] + hdr, obj))
    mine = {e: [os.path.join(obj, 'opsim_core.o')] for e in exts}
    for e in exts:
        inc = ['g++', '-std=c++17'] + vp.BASE + vp.FLAGS[e] + [
            '-I' + st + '/include', '-I' + vp.SIM, '-c']
        for i in range(NP):
            s = os.path.join(obj, 'ops_%s_%d.cpp' % (e, i))
            n = 'ops_%s_%d.o' % (e, i)
            jobs.insert(0, lambda n=n, inc=inc, s=s: vp.cc(
                n, inc + [s], [s] + hdr, obj))
            mine[e].append(os.path.join(obj, n))
        n = 'opextra_%s.o' % e
        jobs.append(lambda n=n, inc=inc: vp.cc(n, inc + [extra],
                                               [extra] + hdr, obj))
        mine[e].append(os.path.join(obj, n))
    vp.parallel(jobs)

    def link(e):
        ins = mine[e] + objs[e]
        return vp.cc('opsim_' + e, ['g++', '-static'] + ins + ['-lm'], ins, obj)
    return dict(zip(exts, vp.parallel([(lambda e=e: link(e)) for e in exts])))


def main(chk):
    exts = vp.host_exts()
    t0 = time.time()
    bins = build(exts)
    build_s = time.time() - t0
    if chk.args.replay:
        simrun.replay_file(chk, bins, json.load(open(chk.args.replay)))
    quick = chk.tier == 'quick'
    budget = chk.args.budget or (60 if quick else 3000)
    runs = 6000 if quick else 150000
    t1 = time.time()
    st, samples, info, viol = simrun.explore(
        chk, bins, [], runs, budget, chunk=runs // 4)
    simrun.report(chk, bins, viol, 'opsim')
    w = time.time() - t1
    n = st.get('runs', 0)
    chk.finish(dict(
        evaluations=n, distinct_nontrivial=st.get('distinct:nontrivial', 0),
        rule='one evaluation is one simulated run: 2-3 threads calling 1-3 '
             'operators each (60 % of them the same operator), pre-empted at '
             'machine instructions, every result compared bit for bit with '
             'the result of the same call alone in a fresh process; '
             'non-trivial if at least four switches happened; distinct by the '
             'hash of the switch sequence and the operator',
        samples=samples, runs_per_hour=int(n / max(w, .001) * 3600), seeds=n,
        simulated_time='%d machine instructions of library code' %
                       st.get('steps', 0),
        faults_injected=dict(preemption_at_instruction=st.get('switches', 0),
                             unusual_rounding_or_denormal_mode='half of the threads'),
        interleavings=st.get('distinct:histories', 0),
        operator_wrappers=sum(i.get('cases') or 0 for i in info.values()), levels=exts,
        per_level=info, stats=st,
        determinism_pairs=st.get('determinism_pairs', 0), build_s=round(build_s, 1),
        components=dict(
            real='all operators but loads and stores (those are C03/C04) on '
                 'all x86 levels of this host including Sleef, scalar '
                 'functions, half-precision conversions, ufp, random and '
                 'fixed-point modules',
            stub='thread scheduling (coroutines switched by single-step traps)')),
        assumptions=['x86-64 host, code generated by g++ -O2',
                     'a single machine instruction is the unit of pre-emption',
                     'sticky exception flags may be raised; only control bits '
                     'must be preserved'])
