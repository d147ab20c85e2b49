"""Compiling code under test for the simulated CUDA, ROCm and oneAPI devices.

CUDA's only syntax outside C++ is name<<<grid, block>>>(args); it is rewritten
after preprocessing into a call of the simulator.  Everything else comes from
the headers in sim/gpu."""
import os
import re
import subprocess
import vp

GPU = os.path.join(vp.SIM, 'gpu')
BACKENDS = ['cuda', 'rocm', 'oneapi']
FLAGS = {
    'cuda': ['-DCPU', '-DCUDA', '-include', GPU + '/cuda/cuda_sim.h',
             '-I' + GPU + '/cuda'],
    # the half precision operators have a second implementation from sm_53 on
    'cuda70': ['-DCPU', '-DCUDA', '-D__CUDA_ARCH__=700', '-include',
               GPU + '/cuda/cuda_sim.h', '-I' + GPU + '/cuda'],
    'rocm': ['-DCPU', '-DROCM', '-I' + GPU + '/hip'],
    'oneapi': ['-DCPU', '-DONEAPI', '-I' + GPU + '/sycl'],
}


def launches(text):
    """name<targs><<<cfg>>>(args)  ->  vsim_launch(vsim_cfg(cfg), lambda)(args)"""
    out, pos = [], 0
    while True:
        at = text.find('<<<', pos)
        if at < 0:
            out.append(text[pos:])
            return ''.join(out)
        close = text.index('>>>', at)
        # the statement up to here, without line markers
        beg = max(text.rfind(c, pos, at) for c in ';{}') + 1
        t = '\n'.join(x for x in text[max(pos, beg):at].split('\n')
                      if not x.startswith('#')).rstrip()
        b = len(t)
        if t[-1] == '>':
            d = 0
            while True:
                b -= 1
                d += (t[b] == '>') - (t[b] == '<')
                if d == 0:
                    break
            while t[b - 1].isspace():
                b -= 1
        b -= len(re.search(r'[A-Za-z_][\w:]*$', t[:b]).group(0))
        out.append(text[pos:max(pos, beg)] + t[:b])
        out.append('vsim_launch(vsim_cfg(%s), [](auto... vsim_a) { %s(vsim_a...); })'
                   % (' '.join(x for x in text[at + 3:close].split('\n')
                               if not x.startswith('#')), ' '.join(t[b:].split())))
        pos = close + 3


def compile(st, backend, src, name, outdir, extra=(), opt='-O1', inputs=(), std='-std=c++17'):
    """src -> object file; returns its path"""
    fl = [std, opt, '-w', '-DNDEBUG', '-fPIC'] + FLAGS[backend] + \
        ['-I' + vp.SIM, '-I' + GPU, '-I' + st + '/include'] + list(extra)
    ins = [src] + list(inputs) + vp.sim_headers() + [os.path.abspath(__file__)]
    if not backend.startswith('cuda'):
        return vp.cc(name, ['g++'] + fl + ['-c', src], ins, outdir)
    wrap = [os.environ.get('PYTHON', 'python3'), os.path.abspath(__file__), 'g++'] + fl + ['-c', src]
    return vp.cc(name, wrap, ins, outdir)


def lib(st, backend, outdir):
    """the library's own sources for this backend"""
    def one(n):
        return compile(st, backend, os.path.join(st, 'src', n + '.cpp'),
                       '%s_%s.o' % (n, backend), outdir)
    return [one(n) for n in ('gpu', 'fp16', 'memory', 'ufp', 'api_cpu')]


def _wrapper(argv):
    """g++ ... -c src -o out with launches rewritten in between"""
    src, out = argv[argv.index('-c') + 1], argv[argv.index('-o') + 1]
    pre = [a for i, a in enumerate(argv) if a not in ('-c', '-o') and
           (i == 0 or argv[i - 1] not in ('-c', '-o'))]
    p = subprocess.run(pre + ['-E', src], stdout=subprocess.PIPE)
    if p.returncode:
        return p.returncode
    ii = out + '.ii'
    with open(ii, 'w') as f:
        f.write(launches(p.stdout.decode()))
    # -include is already expanded
    post, skip = [], False
    for a in pre:
        if skip:
            skip = False
        elif a == '-include':
            skip = True
        else:
            post.append(a)
    r = subprocess.run(post + ['-c', ii, '-o', out]).returncode
    if r == 0:
        os.remove(ii)
    return r


if __name__ == '__main__':
    import sys
    sys.exit(_wrapper(sys.argv[1:]))
