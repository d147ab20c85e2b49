"""Building and running sim/allocsim.cpp for several language standards."""
import os
import vp

STDS = ['98', '11', '17', '20']


def build():
    st = vp.stage()
    obj = os.path.join(st, 'obj')
    hdr = vp.sim_headers()
    core = os.path.join(vp.SIM, 'allocsim.cpp')
    ops = os.path.join(vp.SIM, 'alloc_ops.cpp')
    jobs, objs = vp.lib_jobs(st, ['cpu'], sleef=False)

    jobs.append(lambda: vp.cc('allocsim_core.o', ['g++', '-std=c++17'] + vp.BASE + [
        '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free',
        '-I' + vp.SIM, '-c', core], [core] + hdr, obj))
    for s in STDS:
        jobs.append(lambda s=s: vp.cc(
            'allocsim_ops_%s.o' % s, ['g++', '-std=c++' + s] + vp.BASE +
            ['-DCPU', '-I' + st + '/include', '-I' + vp.SIM, '-c', ops],
            [ops] + hdr, obj))
    vp.parallel(jobs)
    bins = {}
    for s in STDS:
        p = [os.path.join(obj, 'allocsim_core.o'),
             os.path.join(obj, 'allocsim_ops_%s.o' % s)] + objs['cpu']
        bins['cxx' + s] = vp.cc('allocsim_' + s, ['g++'] + p, p, obj)
    return bins
