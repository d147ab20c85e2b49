"""Shared plumbing of the checks: staging /repo, compiling harnesses, running
simulation workers in parallel, gating violations, writing evidence.

Nothing here writes inside /repo.  Scratch output goes to /verif/.work (ignored
by git), keyed by the content of the sources it was built from, so that a stale
build can never be used for a changed tree."""

import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
SIM = os.path.join(VERIF, 'sim')
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()


def repo_files(subdirs):
    """Files of /repo's working tree, ignored (generated) ones excluded."""
    cmd = ['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z',
           '-c', '-o', '--exclude-standard', '--'] + list(subdirs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise CheckError('git ls-files failed: ' + p.stderr.decode()[-500:])
    out = []
    for f in sorted(set(p.stdout.decode().split('\0'))):
        if f and os.path.isfile(os.path.join(REPO, f)) \
                and not f.endswith('.pyc'):
            out.append(f)
    return out


_key_cache = {}


def tree_key(subdirs=('egg', 'include', 'src')):
    subdirs = tuple(subdirs)
    if subdirs not in _key_cache:
        h = hashlib.sha256()
        for f in repo_files(subdirs):
            with open(os.path.join(REPO, f), 'rb') as fin:
                data = fin.read()
            h.update(('%s\0%d\0' % (f, len(data))).encode())
            h.update(data)
        _key_cache[subdirs] = h.hexdigest()[:20]
    return _key_cache[subdirs]


def copy_tree(dst, subdirs):
    for f in repo_files(subdirs):
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, f), d)


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def stage():
    """A scratch copy of egg/, include/, src/ with the library generated in it
    by the repository's own generator.  Returns its path."""
    key = tree_key()
    dst = os.path.join(WORK, 'stage-' + key)
    with Lock('stage'):
        if os.path.exists(os.path.join(dst, '.done')):
            os.utime(dst)
            return dst
        # forget old stages (keep the most recent three)
        old = sorted((d for d in os.listdir(WORK) if d.startswith('stage-')
                      and os.path.isdir(os.path.join(WORK, d))),
                     key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        copy_tree(dst, ('egg', 'include', 'src'))
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        env.pop('LD_PRELOAD', None)
        p = subprocess.run([sys.executable, '-B', 'egg/hatch.py', '-lf'],
                           cwd=dst, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('generator failed:\n' +
                             p.stdout.decode(errors='replace')[-3000:])
        open(os.path.join(dst, '.done'), 'w').close()
        os.makedirs(os.path.join(dst, 'obj'), exist_ok=True)
    return dst


# ---------------------------------------------------------------------------
# SIMD levels

M = {
    'cpu': '',
    'sse2': '-msse2',
    'sse42': '-msse4.2',
    'avx': '-mavx -mno-avx256-split-unaligned-load'
           ' -mno-avx256-split-unaligned-store',
    'avx2': '-mavx2 -mno-avx256-split-unaligned-load'
            ' -mno-avx256-split-unaligned-store',
    'avx512_knl': '-mavx512f -mavx512pf -mavx512er -mavx512cd',
    'avx512_skylake': '-mavx512f -mavx512dq -mavx512cd -mavx512bw -mavx512vl',
}
EXTS = list(M)
FLAGS = {s: ('-D%s %s' % (s.upper(), m)).split() for s, m in M.items()}
for _s in ('avx2', 'avx512_knl', 'avx512_skylake'):
    FLAGS[_s] += ['-mfma', '-DFP16', '-mf16c']
FLAGS['avx2'] += ['-DFMA']
SLEEF = {
    'sse2': '-DNSIMD_SSE2 -DENABLE_SSE2=1 ' + M['sse2'],
    'sse42': '-DNSIMD_SSE42 -DENABLE_SSE4=1 ' + M['sse42'],
    'avx': '-DNSIMD_AVX -DENABLE_AVX=1 ' + M['avx'],
    'avx2': '-DNSIMD_AVX2 -DENABLE_AVX2=1 -mfma ' + M['avx2'],
    'avx512_knl': '-DNSIMD_AVX512_KNL -DENABLE_AVX512F=1 ' + M['avx512_knl'],
    'avx512_skylake': '-DNSIMD_AVX512_SKYLAKE -DENABLE_AVX512F=1 ' +
                      M['avx512_knl'],
}
CHAIN = {'cpu': ['cpu'], 'sse2': ['cpu', 'sse2'],
         'sse42': ['cpu', 'sse2', 'sse42'],
         'avx': ['cpu', 'sse2', 'sse42', 'avx'],
         'avx2': ['cpu', 'sse2', 'sse42', 'avx', 'avx2']}
CHAIN['avx512_knl'] = CHAIN['avx2'] + ['avx512_knl']
CHAIN['avx512_skylake'] = CHAIN['avx2'] + ['avx512_skylake']

NEEDS = {'cpu': [], 'sse2': ['sse2'], 'sse42': ['sse4_2'], 'avx': ['avx'],
         'avx2': ['avx2', 'fma', 'f16c'],
         'avx512_knl': ['avx512f', 'avx512cd', 'fma', 'f16c', 'avx2'],
         'avx512_skylake': ['avx512f', 'avx512dq', 'avx512cd', 'avx512bw',
                            'avx512vl', 'fma', 'f16c', 'avx2']}


def host_exts():
    flags = set()
    with open('/proc/cpuinfo') as f:
        for line in f:
            if line.startswith('flags'):
                flags = set(line.split(':', 1)[1].split())
                break
    return [e for e in EXTS if all(n in flags for n in NEEDS[e])]


# ---------------------------------------------------------------------------
# compilation (parallel, cached by content)

def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


class CompileError(CheckError):
    def __init__(self, name, cmd, out):
        CheckError.__init__(self, 'compilation of %s failed: %s\n%s' % (
            name, ' '.join(cmd), out[:3000]))
        self.name, self.out = name, out


def cc(name, cmd, inputs, outdir, key_extra='', ok_fail=False):
    """Run one compiler command producing outdir/<name>; cached on the command,
    the content of `inputs` and the staged tree."""
    h = [json.dumps(cmd), tree_key(), key_extra]
    for i in inputs:
        with open(i, 'rb') as f:
            h.append(f.read())
    key = sha(*h)
    out = os.path.join(outdir, name)
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and \
            open(stamp).read() == key:
        return out
    for f in (out, stamp):
        if os.path.exists(f):
            os.remove(f)
    p = subprocess.run(cmd + ['-o', out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, preexec_fn=limit_mem(12))
    if p.returncode:
        if ok_fail:
            return None
        raise CompileError(name, cmd, p.stdout.decode(errors='replace'))
    with open(stamp, 'w') as f:
        f.write(key)
    return out


def sim_headers():
    out = []
    for b, d, fs in os.walk(SIM):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h')):
                out.append(os.path.join(b, f))
    return sorted(out)


def parallel(jobs):
    """jobs: callables. Returns results in order; raises the first error."""
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(j) for j in jobs]
        return [f.result() for f in futs]


BASE = ['-O2', '-DNDEBUG', '-w', '-fPIC']


def lib_jobs(st, exts, sleef=True):
    """Compile jobs for the library objects needed by the given SIMD levels.
    Returns (jobs, {ext: [object paths]})."""
    obj = os.path.join(st, 'obj')
    jobs, objs = {}, {e: [] for e in exts}

    def add(e, name, cmd, src):
        if name not in jobs:
            jobs[name] = lambda: cc(name, cmd, [src], obj)
        objs[e].append(os.path.join(obj, name))
    for e in exts:
        for n in ('gpu', 'ufp', 'fp16', 'memory'):
            s = os.path.join(st, 'src', n + '.cpp')
            add(e, n + '.o', ['g++', '-std=c++98'] + BASE +
                ['-I' + st + '/include', '-DCPU', '-c', s], s)
        if sleef:
            for n in ('rempitab', 'sleefsp', 'sleefdp'):
                s = os.path.join(st, 'src', n + '.c')
                add(e, n + '.o', ['gcc'] + BASE +
                    ['-I' + st + '/src', '-DDORENAME=1', '-c', s], s)
        for x in CHAIN[e]:
            s = os.path.join(st, 'src', 'api_%s.cpp' % x)
            add(e, 'api_%s.o' % x, ['g++', '-std=c++98'] + BASE + FLAGS[x] +
                ['-I' + st + '/include', '-c', s], s)
            if sleef and x in SLEEF:
                for t, n in (('f32', 'sleefsimdsp.c'), ('f64', 'sleefsimddp.c')):
                    s = os.path.join(st, 'src', n)
                    add(e, 'sleef_%s_%s.o' % (x, t), ['gcc'] + BASE +
                        ['-I' + st + '/src', '-DDORENAME=1'] +
                        SLEEF[x].split() + ['-c', s], s)
    return list(jobs.values()), objs


# ---------------------------------------------------------------------------
# running workers

def run_worker(cmd, timeout=600, env=None, mem_gb=6, cwd=None):
    """Run one simulation worker; returns (rc, stdout, stderr)."""
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return -9999, out.decode(errors='replace'), err.decode(errors='replace')
    return p.returncode, out.decode(errors='replace'), \
        err.decode(errors='replace')


# ---------------------------------------------------------------------------
# check frame

class Check:
    def __init__(self, prop, argv=None):
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', choices=('quick', 'thorough'),
                        default=os.environ.get('VERIF_TIER') or 'quick')
        ap.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED') or 1))
        ap.add_argument('--replay')
        ap.add_argument('--budget', type=float, help='seconds of simulation')
        self.args = ap.parse_args(argv)
        self.prop = prop
        self.tier, self.seed = self.args.tier, self.args.seed
        self.t0 = time.time()
        self.violations = []          # (message, replay path)
        self.known_hits = []
        self.known = load_known(prop)
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)

    def replay(self, mod):
        if not os.path.exists(self.args.replay):
            raise CheckError('no such replay file: ' + self.args.replay)

    def elapsed(self):
        return time.time() - self.t0

    def write_replay(self, tag, data):
        path = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, tag))
        data = dict(data, property=self.prop)
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
            f.write('\n')
        return path

    def violation(self, message, replay_data, tag, known_key=None):
        for k in self.known:
            if known_key is not None and k['key'] == known_key:
                if k['key'] not in [x['key'] for x in self.known_hits]:
                    self.known_hits.append(k)
                return
        path = self.write_replay(tag, dict(replay_data, message=message))
        self.violations.append((message, path))

    def finish(self, coverage, level='exploration', assumptions=()):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=level, coverage=coverage,
                  assumptions=list(assumptions),
                  wall_s=round(self.elapsed(), 2),
                  violations=len(self.violations))
        path = os.path.join(EVID, self.prop + '.json')
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, path)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for m, r in self.violations:
            print(m)
            print('VIOLATION property=%s replay=%s' % (self.prop, r))
        if not self.violations:
            print('%s: held on everything explored (%s, seed %d, %.1f s, '
                  '%s evaluations)' % (self.prop, self.tier, self.seed,
                                       self.elapsed(),
                                       coverage.get('evaluations')))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_known(prop):
    """known_findings.jsonl: {"status": "known"|"fixed", "property", "key",
    "what", ...}.  Only "known" entries suppress, and only their own key."""
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main(fn):
    try:
        fn()
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR: the check itself failed')
        sys.exit(2)
