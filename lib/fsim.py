"""A simulated machine for the code generator and the Sleef fetcher: the real
Python programs of /repo/egg run unmodified on a scratch tree, under a preloaded
shim (sim/simfs.c) through which every file-system operation, clock reading,
random number, identity query and large memory placement passes."""
import hashlib
import mmap
import os
import random
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import vp

HDR = struct.Struct('<IIQqqIIiIII')
FLT = struct.Struct('<IIII')
NF = 32
# struct ctl: header (56, padded to 8), faults, root, results, log
OFF_F = (HDR.size)
OFF_ROOT = OFF_F + NF * FLT.size
OFF_RES = OFF_ROOT + 512
KIND = dict(error=1, short=2, crash_before=3, crash_after=4, torn_crash=5,
            torn_error=6, full=7, sigint=8)
O_SHUFFLE, O_CLOCK, O_PLACE, O_RANDOM, O_IDENT = 1, 2, 4, 8, 16
NOBODY = 65534


def scratch_base():
    for d in ('/dev/shm', vp.WORK):
        try:
            os.makedirs(d, exist_ok=True)
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return vp.WORK


def build_shim(outdir):
    src = os.path.join(vp.SIM, 'simfs.c')
    os.makedirs(outdir, exist_ok=True)
    return vp.cc('simfs.so', ['gcc', '-O1', '-w', '-shared', '-fPIC', src, '-ldl'],
                 [src], outdir)


class Result:
    __slots__ = ('rc', 'ops', 'log', 'hash', 'fired', 'crashed', 'out',
                 'counts', 'outside')


class Machine:
    """Scratch area of one check process: shim, base tree, worlds."""

    def __init__(self, with_src=True, subs=None):
        self.top = tempfile.mkdtemp(prefix='vsim-', dir=scratch_base())
        os.chmod(self.top, 0o711)
        try:
            pers = __import__('ctypes').CDLL(None).personality
            pers(0x0040000)  # ADDR_NO_RANDOMIZE for the processes started here
        except Exception:
            pass
        shim = build_shim(os.path.join(vp.WORK, 'fsim'))
        self.shim = os.path.join(self.top, 'simfs.so')
        shutil.copy(shim, self.shim)
        os.chmod(self.shim, 0o755)
        self.bin = os.path.join(self.top, 'bin')
        os.mkdir(self.bin)
        with open(os.path.join(self.bin, 'make'), 'w') as f:
            f.write('#!/bin/sh\nexit 0\n')
        os.chmod(os.path.join(self.bin, 'make'), 0o755)
        self.base = os.path.join(self.top, 'base')
        os.mkdir(self.base)
        if subs is None:
            subs = ['egg', 'doc', 'README.md', 'CONTRIBUTING.md']
            if with_src:
                subs += ['include', 'src']
        vp.copy_tree(self.base, subs)
        for b, ds, fs in os.walk(self.base):
            if os.path.relpath(b, self.base).startswith('doc/html/'):
                for f in fs:            # pictures and scripts: not touched
                    os.remove(os.path.join(b, f))
        # compiled modules, valid whatever the time stamps
        for o in ([], ['-O'], ['-OO']):
            subprocess.run([sys.executable] + o + [
                '-m', 'compileall', '-q', '--invalidation-mode',
                'unchecked-hash', os.path.join(self.base, 'egg')],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.root = os.getuid() == 0
        if self.root:
            subprocess.run(['chown', '-R', '%d:%d' % (NOBODY, NOBODY),
                            self.base], check=True)
        subprocess.run(['chmod', '-R', 'u+rwX,go+rX', self.base], check=True)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class World:
    def __init__(self, m, name='nsimd', base=None):
        self.m = m
        self.dir = tempfile.mkdtemp(prefix='w-', dir=m.top)
        os.chmod(self.dir, 0o755)
        self.tmp = os.path.join(self.dir, 'tmp')
        os.mkdir(self.tmp)
        self.tree = os.path.join(self.dir, name)
        if m.root:
            os.chown(self.dir, NOBODY, NOBODY)
            os.chown(self.tmp, NOBODY, NOBODY)
        subprocess.run(['cp', '-a', base or m.base, self.tree], check=True)
        self.ctl = os.path.join(self.dir, 'ctl')
        with open(self.ctl, 'wb') as f:
            f.truncate(OFF_RES + 64 + (4 << 20) + 4096)
        os.chmod(self.ctl, 0o666)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, args, env=None, faults=(), seed=0, path=None, cpu=60,
            script='egg/hatch.py', pypath=None):
        """env: environment plan (see gensim.plan).  faults: [(ord, kind, arg)]."""
        env = env or {}
        opts = 0
        for k, b in (('order', O_SHUFFLE), ('clock', O_CLOCK),
                     ('place', O_PLACE), ('random', O_RANDOM),
                     ('ident', O_IDENT)):
            if k in env:
                opts |= b
        clock = env.get('clock', (0, 0))
        blob = bytearray(OFF_RES + 64)
        HDR.pack_into(blob, 0, 0x5653494d, opts, (env.get('seed', seed)) & (2**64 - 1),
                      clock[0], clock[1], len(faults), 0, os.getsid(0),
                      env.get('umask', 0xffff), cpu, env.get('cpus', 0))
        for i, (o, k, a) in enumerate(faults):
            FLT.pack_into(blob, OFF_F + i * FLT.size, o, KIND[k], a, 0)
        r = os.path.realpath(self.tree).encode()
        blob[OFF_ROOT:OFF_ROOT + len(r)] = r
        with open(self.ctl, 'r+b') as f:
            f.write(blob)
        e = dict(PATH=self.m.bin + ':/usr/local/bin:/usr/bin:/bin',
                 HOME=self.tmp, TMPDIR=self.tmp, LANG='C.UTF-8',
                 LD_PRELOAD=self.m.shim, VSIM_CTL=self.ctl,
                 PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
                 PYTHONHASHSEED=str(env.get('hashseed', 0)))
        if pypath:
            e['PYTHONPATH'] = pypath
        e.update(env.get('env', {}))
        for k in [k for k, v in e.items() if v is None]:
            del e[k]
        cwd, prog = self.tree, script
        how = env.get('cwd', 'root')
        if how == 'abs':
            cwd, prog = '/', os.path.join(self.tree, script)
        elif how == 'egg':
            cwd = os.path.join(self.tree, os.path.dirname(script))
            prog = os.path.basename(script)
        elif how == 'up':
            cwd = self.dir
            prog = os.path.join(os.path.basename(self.tree), script)
        outp = os.path.join(self.dir, 'out')
        kw = {}
        if self.m.root:
            kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        with open(outp, 'wb') as fo:
            p = subprocess.Popen(
                [sys.executable] + env.get('pyargs', []) + [prog] + list(args),
                cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL if env.get('stdout') == 'null' else fo,
                stderr=fo, start_new_session=True, **kw)
            try:
                p.wait(timeout=cpu * 4 + 30)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        res = Result()
        res.rc = p.returncode
        with open(self.ctl, 'rb') as f:
            b = f.read(OFF_RES + 64)
            res.fired = []
            for i in range(len(faults)):
                o, k, a, fi = FLT.unpack_from(b, OFF_F + i * FLT.size)
                if fi:
                    res.fired.append(faults[i])
            ops, crashed, h, loglen, procs, rnd, dirs, clocks, rands, places = \
                struct.unpack_from('<IIQIIQQQQQ', b, OFF_RES)
            f.seek(OFF_RES + 64)
            raw = f.read(loglen).decode(errors='replace')
        res.ops, res.crashed, res.hash = ops, crashed, h
        log = raw.split('\n')[:-1]
        res.outside = [x[2:] for x in log if x[0] == 'E' and not
                       ('/' + x[2:]).startswith(os.path.realpath(self.dir) + '/')]
        res.log = [x for x in log if x[0] != 'E']
        res.counts = dict(dirs=dirs, clocks=clocks, randoms=rands,
                          places=places, procs=procs)
        with open(outp, errors='replace') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 6000))
            res.out = f.read()
        return res


def snapshot(tree, dirs=False):
    out = {}
    n = len(tree) + 1
    for b, ds, fs in os.walk(tree):
        if '__pycache__' in ds:
            ds.remove('__pycache__')
        if dirs:
            for d in ds:
                out[os.path.join(b, d)[n:] + '/'] = 'dir'
        for f in fs:
            p = os.path.join(b, f)
            if os.path.islink(p):
                out[p[n:]] = 'link:' + os.readlink(p)
                continue
            with open(p, 'rb') as fi:
                out[p[n:]] = hashlib.blake2b(fi.read(), digest_size=16).hexdigest()
    return out


def digest(snap):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(snap):
        h.update(('%s\0%s\n' % (k, snap[k])).encode(errors='surrogateescape'))
    return h.hexdigest()


def pool(fn, n, workers=None, budget=None):
    """fn(i) for i in range(n) in forked processes; results in order of i;
    stops handing out work after `budget` seconds."""
    import multiprocessing as mp
    import time
    ctx = mp.get_context('fork')
    w = workers or vp.NPROC
    nxt, q = ctx.Value('l', 0), ctx.Queue()
    t0 = time.time()

    def work():
        try:
            while budget is None or time.time() - t0 < budget:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= n:
                    break
                q.put((i, True, fn(i)))
        except BaseException as e:
            import traceback
            q.put((-1, False, traceback.format_exc()))
        q.put((-1, True, None))
    ps = [ctx.Process(target=work) for _ in range(w)]
    for p in ps:
        p.start()
    res, left = {}, w
    while left:
        try:
            i, ok, r = q.get(timeout=600)
        except Exception:
            for p in ps:
                p.kill()
            raise vp.CheckError('a worker died')
        if not ok:
            for p in ps:
                p.kill()
            raise vp.CheckError('worker failed: ' + r)
        if i < 0:
            left -= 1
        else:
            res[i] = r
    for p in ps:
        p.join()
    return [res[i] for i in sorted(res)]
