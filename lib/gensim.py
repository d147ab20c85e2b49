"""C12 and C13: the code generator (egg/hatch.py) on a simulated machine."""
import json
import os
import random
import re
import shutil
import subprocess
import time
import fsim
import vp

LOCALES = [dict(LANG='C'), dict(LC_ALL='C'), dict(LC_ALL='POSIX'),
           dict(LC_ALL='C.UTF-8'), dict(LANG='tr_TR.UTF-8', LC_ALL=None),
           dict(LANG='en_US.ISO-8859-1'), dict(LC_ALL='C', PYTHONCOERCECLOCALE='0'),
           dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')]
CLOCKS = [0, 951782400, 1293839999, 1577836799, 1609459199, 1709164800,
          2147483647, 4102444799]
NOISE = [('COLUMNS', ['1', '40', '200']), ('LINES', ['3', '100']),
         ('TERM', ['dumb', 'xterm-256color', '']), ('USER', ['alice', 'root']),
         ('LOGNAME', ['bob']), ('TZ', ['UTC', 'Pacific/Kiritimati', 'EST5EDT']),
         ('PYTHONOPTIMIZE', ['1', '2']), ('PYTHONUTF8', ['1', '0']),
         ('PYTHONIOENCODING', ['ascii:replace', 'latin-1', 'utf-16']),
         ('PYTHONUNBUFFERED', ['1']), ('PYTHONDEVMODE', ['1']),
         ('PYTHONMALLOC', ['malloc', 'pymalloc_debug']),
         ('SOURCE_DATE_EPOCH', ['0', '1700000000']), ('CC', ['clang', 'icc']),
         ('CXX', ['clang++']), ('CFLAGS', ['-mavx512f']), ('LANGUAGE', ['fr']),
         ('EDITOR', ['vi']), ('SHELL', ['/bin/bash']), ('DEBUG', ['1']),
         ('VERBOSE', ['1']), ('NSIMD', ['1']), ('HOSTNAME', ['build7']),
         ('CI', ['true']), ('NO_COLOR', ['1']), ('MAKEFLAGS', ['-j8'])]


def facts(m):
    """Operator and SIMD names, asked from the tree itself."""
    code = ("import sys, json; sys.path.insert(0, 'egg'); import common, operators;"
            "print(json.dumps([sorted(operators.operators), common.simds]))")
    p = subprocess.run(['python3', '-B', '-W', 'ignore', '-c', code], cwd=m.base,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise vp.CheckError('cannot list the operators: ' +
                            p.stderr.decode(errors='replace')[-1500:])
    return json.loads(p.stdout.decode().strip().splitlines()[-1])


def machine():
    m = fsim.Machine()
    out = os.path.join(m.base, 'doc', 'md2html')
    p = subprocess.run(['gcc', '-O1', '-w', '-o', out,
                        os.path.join(vp.SIM, 'md2html_stub.c')])
    if p.returncode:
        m.close()
        raise vp.CheckError('cannot build the converter stub')
    fmt = os.path.join(m.bin, 'clang-format')
    p = subprocess.run(['gcc', '-O1', '-w', '-o', fmt,
                        os.path.join(vp.SIM, 'clang_format_stub.c')])
    if p.returncode:
        m.close()
        raise vp.CheckError('cannot build the formatter stub')
    os.chmod(fmt, 0o755)
    # the real program that makes the pages of wrapped intrinsics, with the few
    # functions of nstools it uses
    exe = os.path.join(m.base, 'doc', 'what_is_wrapped')
    p = subprocess.run(['g++', '-O2', '-w', '-std=c++11', '-I',
                        os.path.join(vp.SIM, 'ns2'), '-o', exe,
                        os.path.join(m.base, 'doc', 'what_is_wrapped.cpp')],
                       stderr=subprocess.PIPE)
    # it may come to need other parts of nstools; then it is absent, as it is
    # for a user without nstools
    m.wrapped = p.returncode == 0
    for f in [out] + [exe] * m.wrapped:
        if m.root:
            os.chown(f, fsim.NOBODY, fsim.NOBODY)
        os.chmod(f, 0o755)
    # a few files of the user's own, which no run may touch
    for rel in ('include/nsimd/mine.hpp', 'tests/notes.txt', 'src/local.cpp',
                'include/nsimd/x86/extra.h', 'tests/c_base/own.c', '.keep'):
        p = os.path.join(m.base, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('/* not generated: %s */\n' % rel)
    if m.root:
        subprocess.run(['chown', '-R', '%d:%d' % (fsim.NOBODY, fsim.NOBODY),
                        m.base])
    m.sources = fsim.snapshot(m.base)
    return m


# ---------------------------------------------------------------------------
# C12

def gen_options(r, ops, simds):
    """(flags that change contents, the remaining options)."""
    flags = [f for f, p in (('--simple-license', .15), ('--sve-emulate-bool', .15))
             if r.random() < p]
    if r.random() < .05:
        return flags, ['-ltf'] + (['-d'] if r.random() < .5 else [])
    o = []
    parts = r.choice(['l', 'l', 'l', 't', 't', 'lt', 'lt', 'd', 'd', 'ld', 'ltd'])
    o.append('-' + parts + 'f')
    if 'd' not in parts and r.random() < .75:
        if r.random() < .25:
            o += ['-D', r.choice(['x86', 'arm', 'ppc', 'all'])]
        else:
            o += ['-D', ','.join(r.sample(simds, r.randint(1, 4)))]
    if r.random() < .85:
        if r.random() < .6:
            o += ['-m', '^(%s)$' % '|'.join(r.sample(ops, r.randint(1, 5)))]
        else:
            a = r.choice(ops)
            o += ['-m', a[:r.randint(1, 3)]]
    if r.random() < .2:
        o.append('-v')
    return flags, o


def gen_env(r):
    """A seeded environment: which dimensions deviate, and how."""
    e = {}

    def maybe(p):
        return r.random() < p
    if maybe(.85):
        e['hashseed'] = r.randrange(1 << 32)
    if maybe(.8):
        e['order'] = 1
    if maybe(.5):
        e['place'] = 1
    if maybe(.6):
        e['clock'] = [r.choice(CLOCKS) * 10**9 + r.randrange(10**9),
                      r.choice([1, 1000, 10**6, 10**9, 3600 * 10**9, -10**9,
                                -7 * 10**12])]
    if maybe(.5):
        e['random'] = 1
    if maybe(.5):
        e['ident'] = 1
    if maybe(.4):
        e['umask'] = r.choice([0o77, 0o22, 0o2, 0, 0o27])
    if maybe(.3):
        e['cpus'] = r.choice([1, 2, 3])
    if maybe(.5):
        e['cwd'] = r.choice(['abs', 'egg', 'up'])
    if maybe(.3):
        e['stdout'] = 'null'
    if maybe(.4):
        e['name'] = r.choice(['n', 'nsimd-' + 'x' * 60, 'build', 'cpu', 'tests',
                              'x86'])
    if maybe(.2):
        e['pre'] = r.choice(['full', 'damaged', 'other'])
    if maybe(.4):
        e['mtimes'] = r.choice(['old', 'future', 'mixed'])
    env = {}
    if maybe(.5):
        env.update(r.choice(LOCALES))
    if maybe(.6):
        for k, vs in r.sample(NOISE, r.randint(1, 6)):
            env[k] = r.choice(vs)
    if maybe(.3):
        env['PAD_' + 'Z' * r.randint(1, 40)] = 'y' * r.choice([1, 100, 4000])
    if env:
        e['env'] = env
    e['seed'] = r.randrange(1 << 62)
    return e


DIMS = ('hashseed', 'order', 'place', 'clock', 'random', 'ident', 'umask',
        'cpus', 'cwd', 'stdout', 'name', 'pre', 'mtimes', 'env')


def damage(r, tree, files, how):
    """Alter some generated files: what an older or interrupted run leaves."""
    for f in files:
        if r.random() < .5:
            continue
        p = os.path.join(tree, f)
        k = r.choice(['trunc', 'zero', 'gone', 'text', 'empty'])
        if k == 'gone':
            os.remove(p)
            continue
        n = os.path.getsize(p)
        with open(p, 'r+b') as fo:
            if k == 'trunc':
                fo.truncate(r.randrange(n + 1))
            elif k == 'empty':
                fo.truncate(0)
            elif k == 'zero':
                a = r.randrange(n + 1)
                fo.seek(a)
                fo.write(b'\0' * min(n - a, 4096))
            else:
                fo.seek(0, 2)
                fo.write(b'/* old */\n')


def set_mtimes(r, tree, how):
    for b, ds, fs in os.walk(tree):
        for f in fs:
            t = dict(old=0, future=4102444800).get(
                how, r.choice([0, 10**9, 4102444800]))
            os.utime(os.path.join(b, f), (t, t))


def wrapped(k):
    """A page of wrapped intrinsics: made from the headers that exist."""
    return k.startswith('doc/') and \
        os.path.basename(k).startswith('wrapped_intrinsics')


def own(m, tree):
    if m.root:
        subprocess.run(['chown', '-R', '%d:%d' % (fsim.NOBODY, fsim.NOBODY),
                        tree], check=True)


def gen_once(m, opts, env, refs, seed):
    """One generation under one environment.  Returns (rc, generated snapshot,
    result)."""
    with fsim.World(m, env.get('name', 'nsimd')) as w:
        r = random.Random(env.get('seed', 0) ^ 0x5eed)
        pre = env.get('pre')
        if pre:
            w0 = w.run(opts, {}, seed=0)
            if w0.rc != 0:
                return w0.rc, {}, w0
            if pre != 'full':
                new = [f for f in sorted(fsim.snapshot(w.tree)) if f not in m.sources]
                damage(r, w.tree, new, pre)
        if env.get('mtimes'):
            set_mtimes(r, w.tree, env['mtimes'])
        res = w.run(opts, env, seed=seed)
        s = fsim.snapshot(w.tree)
        gen = {k: v for k, v in s.items() if m.sources.get(k) != v}
        for k in m.sources:
            if k not in s:
                gen[k] = 'missing'
        return res.rc, gen, res


def diff(a, b, n=3):
    d = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    return d


def compare12(flags, opts, gen, rc, out, refs, canon):
    """None, or (kind, text)."""
    if rc != 0:
        return ('FAIL', 'the generator ended with status %d: %s' %
                (rc, out.strip()[-300:]))
    ref = refs[tuple(flags)]
    d = sorted(k for k in gen if gen[k] != ref.get(k) and not
               (wrapped(k) and k in ref))
    if d:
        k = d[0]
        return ('EXTRA' if k not in ref else 'CONTENT',
                '%d file(s) differ from the reference generation, first %s' %
                (len(d), k))
    want = canon if canon is not None else None
    if want is not None and set(want) != set(gen):
        d = sorted(set(want) ^ set(gen))
        return ('SET', '%d file(s) are not in both sets, first %s' % (len(d), d[0]))
    if want is not None:
        # the same options, hence the same headers
        d = sorted(k for k in gen if wrapped(k) and gen[k] != want[k])
        if d:
            return ('CONTENT', '%d file(s) differ from the reference generation, '
                    'first %s' % (len(d), d[0]))
    return None


class C12:
    def __init__(self, chk, m):
        self.chk, self.m = chk, m
        self.ops, self.simds = facts(m)
        combos = [(), ('--simple-license',), ('--sve-emulate-bool',),
                  ('--simple-license', '--sve-emulate-bool')]
        self.refs = {}

        def ref(i):
            rc, gen, res = gen_once(m, ['-ltdf'] + list(combos[i]), {}, None, 0)
            return rc, gen, res.out
        for i, (rc, gen, out) in enumerate(fsim.pool(ref, len(combos))):
            if rc != 0:
                raise vp.CheckError('the generator fails: ' + out[-1500:])
            self.refs[combos[i]] = gen

    def plan(self, i):
        r = random.Random('%d/c12/%d' % (self.chk.seed, i))
        flags, o = gen_options(r, self.ops, self.simds)
        return flags, o, gen_env(r), r.random()

    def judge(self, flags, o, env, want_canon):
        rc, gen, res = gen_once(self.m, o + list(flags), env, self.refs, 0)
        canon = None
        full = set(o) <= {'-ltf', '-d', '-v'}
        if full:
            canon = {k: v for k, v in self.refs[tuple(flags)].items()
                     if '-d' in o or not k.startswith('doc/')}
        elif want_canon:
            rc0, canon, _ = gen_once(self.m, o + list(flags), {}, self.refs, 0)
            if rc0 != 0:
                canon = None
        bad = compare12(flags, o, gen, rc, res.out, self.refs, canon)
        return bad, gen, res, canon

    def one(self, i):
        flags, o, env, x = self.plan(i)
        t = time.time()
        bad, gen, res, canon = self.judge(flags, o, env, x < .35)
        rec = dict(i=i, flags=list(flags), opts=o, env=env, files=len(gen),
                   ops=res.ops, counts=res.counts, digest=fsim.digest(gen),
                   hash=res.hash, bad=bad, canon=canon is not None, pair=None)
        if i % 12 == 3 or bad:
            b2, g2, r2, _ = self.judge(flags, o, env, x < .35)
            rec['pair'] = (fsim.digest(g2) == rec['digest'],
                           r2.hash == res.hash and r2.ops == res.ops)
            if bad and not b2:
                rec['bad'] = None
                rec['flaky'] = bad
        rec['wall'] = time.time() - t
        return rec

    def minimise(self, rec):
        flags, o, env = rec['flags'], rec['opts'], dict(rec['env'])

        def still(f, oo, e):
            b = self.judge(f, oo, e, True)[0]
            return b and b[0] == rec['bad'][0]
        for d in DIMS:
            if d in env:
                e = {k: v for k, v in env.items() if k != d}
                if still(flags, o, e):
                    env = e
        if 'env' in env:
            for k in sorted(env['env']):
                ev = {a: b for a, b in env['env'].items() if a != k}
                if still(flags, o, dict(env, env=ev)):
                    env = dict(env, env=ev)
        return env

    def replay(self, d):
        return self.judge(d['flags'], d['opts'], d['env'], True)


def main12(chk):
    with machine() as m:
        c = C12(chk, m)
        if chk.args.replay:
            d = json.load(open(chk.args.replay))
            bad, gen, res, _ = c.replay(d)
            print('replayed: %s, tree %s (recorded %s)' % (
                bad, fsim.digest(gen), d['expect']['digest']))
            if bad:
                print('VIOLATION property=%s replay=%s' % (chk.prop, chk.args.replay))
                raise SystemExit(1)
            raise SystemExit(0)
        quick = chk.tier == 'quick'
        budget = chk.args.budget or (50 if quick else 1500)
        n = 700 if quick else 40000
        t = time.time()
        recs = fsim.pool(c.one, n, budget=budget)
        wall = time.time() - t
        seen, flaky, done = set(), [x for x in recs if x.get('flaky')], 0
        for rec in recs:
            if not rec['bad'] or done >= 4:
                continue
            key = '%s/%s' % (rec['bad'][0], re.sub(r'.*first ', '', rec['bad'][1])[:80])
            if key in seen:
                continue
            seen.add(key)
            done += 1
            env = c.minimise(rec)
            bad, gen, res, _ = c.judge(rec['flags'], rec['opts'], env, True)
            if not bad:
                env = rec['env']
                bad, gen, res, _ = c.judge(rec['flags'], rec['opts'], env, True)
            if not bad:
                raise vp.CheckError('a violation does not replay: %r' % rec)
            dims = sorted(set(env) - {'seed'})
            chk.violation(
                'hatch.py %s: %s; environment that matters: %s' % (
                    ' '.join(rec['opts'] + rec['flags']), bad[1],
                    ', '.join(dims) or 'none (plain run)'),
                dict(engine='gensim', flags=rec['flags'], opts=rec['opts'],
                     env=env, expect=dict(bad=list(bad), digest=fsim.digest(gen)),
                     before=dict(env=rec['env'], run=rec['i'])),
                vp.sha(key)[:10], known_key=key)
        if flaky and not chk.violations:
            raise vp.CheckError('generation is not repeatable under one '
                                'environment: %r' % flaky[0])
        if any(r['pair'] and not r['pair'][0] for r in recs) and not chk.violations:
            raise vp.CheckError('two runs with one seed gave different trees')
        full = [r for r in recs if not r['bad']]
        dims = {}
        for r in recs:
            for k in r['env']:
                dims[k] = dims.get(k, 0) + 1
        chk.finish(dict(
            evaluations=len(recs),
            distinct_nontrivial=len(set((json.dumps(r['env'], sort_keys=True),
                                         tuple(r['opts'])) for r in recs
                                        if len(r['env']) > 2 and r['files'])),
            rule='one evaluation is one run of the generator with seeded options '
                 'in a seeded environment, compared byte for byte with the '
                 'reference generation; non-trivial if it wrote files and at '
                 'least two environment dimensions deviate; distinct by options '
                 'and environment',
            samples=[dict(options=r['opts'] + r['flags'], files=r['files'],
                          environment=r['env'], tree=r['digest'])
                     for r in recs[:40:8]],
            runs_per_hour=int(len(recs) / max(wall, .001) * 3600),
            seeds=len(recs),
            simulated_time='%d clock readings' % sum(
                r['counts']['clocks'] for r in recs),
            faults_injected=dims,
            interleavings=len(set(r['hash'] for r in recs)),
            files_compared=sum(r['files'] for r in recs),
            file_operations=sum(r['ops'] for r in recs),
            directories_shuffled=sum(r['counts']['dirs'] for r in recs),
            random_draws_served=sum(r['counts']['randoms'] for r in recs),
            wrapped_pages_program=m.wrapped,
            full_generations=sum(1 for r in recs if '-ltf' in r['opts']),
            set_comparisons=sum(1 for r in recs if r['canon']),
            determinism_pairs=sum(1 for r in recs if r['pair']),
            same_event_log=sum(1 for r in recs if r['pair'] and r['pair'][1]),
            components=dict(
                real='egg/hatch.py with all generators and modules, '
                     'doc/what_is_wrapped, Python, the shell',
                stub='directory order, clock, random numbers, process identity, '
                     'placement of large memory blocks, make and doc/md2html '
                     '(its library, nstools, is not in the repository) and '
                     'the nstools functions of doc/what_is_wrapped')),
            assumptions=['documentation depends on the selected SIMD units by '
                         'design and is compared only for full SIMD lists',
                         'pages of wrapped intrinsics depend on the headers that '
                         'exist and are compared between runs with the same '
                         'options'])


# ---------------------------------------------------------------------------
# C13

ERRNO = dict(EIO=5, ENOSPC=28, EACCES=13, EROFS=30, EDQUOT=122, EMFILE=24,
             ENFILE=23, EINTR=4, ENAMETOOLONG=36, EPERM=1, ESTALE=116)
FAULTS = [('error', 'EIO'), ('error', 'ENOSPC'), ('error', 'EACCES'),
          ('error', 'EROFS'), ('error', 'EDQUOT'), ('error', 'EMFILE'),
          ('error', 'EPERM'), ('full', None), ('full', None),
          ('short', None), ('torn_error', None), ('torn_crash', None),
          ('torn_crash', None), ('crash_before', None), ('crash_before', None),
          ('crash_after', None), ('sigint', None)]


def menu13(r, ops, simds, n):
    """Option sets for this check run, small ones first."""
    out = []
    for i in range(n):
        parts = ['l', 't', 'd', 'lt', 'l', 't', 'ld', 'ltd'][i % 8]
        o = ['-' + parts]
        if 'd' not in parts or r.random() < .5:
            o += ['-D', ','.join(r.sample(simds, r.randint(1, 2)))]
        k = r.random()
        if k < .7:
            o += ['-m', '^(%s)$' % '|'.join(r.sample(ops, r.randint(1, 3)))]
        elif 'd' not in parts:
            o += ['-m', '^' + r.choice(ops)[:3]]
        if r.random() < .15:
            o.append('--simple-license')
        if i % 4 == 1 or i % 8 == 4:
            o.append('-F')      # generated sources are formatted
        out.append(o)
    out.append(['-ltd'])
    return out


class C13:
    def __init__(self, chk, m, nopt):
        self.chk, self.m = chk, m
        self.ops, self.simds = facts(m)
        r = random.Random('%d/c13' % chk.seed)
        self.menu = menu13(r, self.ops, self.simds, nopt)

        def ref(i):
            with fsim.World(m) as w:
                res = w.run(self.menu[i] + ['-f'])
                s = fsim.snapshot(w.tree)
                gen = {k: v for k, v in s.items() if m.sources.get(k) != v}
                changed = [k for k in m.sources if s.get(k) != m.sources[k]]
                keep = os.path.join(m.top, 'exp%d' % i)
                os.rename(w.tree, keep)
            return res.rc, res.out, gen, res.log, changed, res.outside
        self.exp, self.log = [], []
        self.early = None
        for i, (rc, out, gen, log, changed, outside) in enumerate(
                fsim.pool(ref, len(self.menu))):
            if rc != 0:
                self.early = (i, 'FAIL: the fault-free run ended with status %d: %s'
                              % (rc, out.strip()[-200:]))
            if changed:
                self.early = (i, 'TOUCHED: a fault-free run changed %s, which it '
                              'does not generate' % changed[0])
            if outside:
                self.early = (i, 'OUTSIDE: a fault-free run wrote /%s' % outside[0])
            self.exp.append(gen)
            self.log.append(log)
        # operations on the pages that another program appends to
        self.pages = [[k for k, x in enumerate(log) if x[0] in 'AW' and
                       wrapped(x[2:]) and x.endswith('.md') and
                       (x[0] == 'A' or log[k - 1][0] in 'AW')]
                      for log in self.log]
        self.classes = []
        for log in self.log:
            d = {}
            for k, x in enumerate(log):
                c, p = x.split(' ', 1)
                # what is hit: kind of operation, directory, and the name for
                # directories that hold few files
                q = os.path.dirname(p)
                d.setdefault((c, q), []).append(k)
            self.classes.append(d)

    def plan(self, i):
        r = random.Random('%d/c13/%d' % (self.chk.seed, i))
        o = r.randrange(len(self.menu)) if r.random() < .97 else len(self.menu) - 1
        if o == len(self.menu) - 1 and r.random() < .8:
            o = r.randrange(len(self.menu) - 1)
        init = r.choice(['empty', 'empty', 'full', 'damaged', 'damaged', 'other'])
        steps = []
        for s in range(r.choice([1, 1, 1, 2, 2, 3])):
            mode = r.choice(['force', 'force', 'force', 'keep', 'list'])
            nf = r.choice([0, 1, 1, 1, 1, 2, 3]) if mode != 'list' else r.choice([0, 0, 1])
            fs = []
            for _ in range(nf):
                kind, a = r.choice(FAULTS)
                if r.random() < .6:
                    ks = self.classes[o]
                    k = r.choice(ks[r.choice(sorted(ks))])
                else:
                    k = r.randrange(max(1, len(self.log[o])))
                if self.pages[o] and r.random() < .4:
                    k = r.choice(self.pages[o])
                    if r.random() < .7:     # passing trouble, nothing later fails
                        kind, a = 'error', r.choice(['EIO', 'ENOSPC', 'EDQUOT'])
                if kind == 'short' or kind.startswith('torn'):
                    wr = [j for j in range(max(0, k - 3), min(len(self.log[o]), k + 12))
                          if self.log[o][j][0] == 'W']
                    if wr:
                        k = r.choice(wr)
                fs.append((k, kind, ERRNO[a] if a else r.randrange(256)))
            steps.append(dict(mode=mode, faults=fs,
                              power=r.random() < .3, seed=r.randrange(1 << 40),
                              order=r.random() < .5))
        return dict(o=o, init=init, seed=r.randrange(1 << 40), steps=steps)

    # the initial tree
    def prepare(self, w, plan):
        r = random.Random(plan['seed'])
        if plan['init'] == 'empty':
            return
        src = os.path.join(self.m.top, 'exp%d' % plan['o'])
        if plan['init'] == 'other':
            small = [k for k in range(len(self.menu) - 1)]
            src = os.path.join(self.m.top, 'exp%d' % r.choice(small))
        shutil.rmtree(w.tree)
        subprocess.run(['cp', '-a', src, w.tree], check=True)
        if plan['init'] == 'damaged':
            damage(r, w.tree, sorted(self.exp[plan['o']]), 'damaged')
        if r.random() < .5:
            set_mtimes(r, w.tree, r.choice(['old', 'future', 'mixed']))

    def lose_power(self, r, w, before):
        """Only what reached the disk survives: files written since the last
        run may be cut, zeroed or gone."""
        n = 0
        now = fsim.snapshot(w.tree)
        for f in sorted(now):
            if before.get(f) == now[f] or r.random() < .6:
                continue
            n += 1
            p = os.path.join(w.tree, f)
            k = r.choice(['cut', 'zero', 'gone', 'empty'])
            size = os.path.getsize(p)
            if k == 'gone':
                os.remove(p)
            elif k == 'empty':
                os.truncate(p, 0)
            elif k == 'cut':
                os.truncate(p, r.randrange(size + 1))
            else:
                with open(p, 'r+b') as fo:
                    a = r.randrange(size + 1)
                    fo.seek(a)
                    fo.write(b'\0' * (size - a))
        return n

    def history(self, plan):
        """Runs one history; returns (violation or None, facts)."""
        m, exp = self.m, self.exp[plan['o']]
        opts = self.menu[plan['o']]
        info = dict(fired=[], ops=0, hash=0, lost=0, runs=0, rcs=[])
        with fsim.World(m) as w:
            self.prepare(w, plan)

            def bad(k, t):
                return (k, 'hatch.py %s, initial tree %s: %s' % (
                    ' '.join(opts), plan['init'], t)), info

            def step(mode, faults, st, final=False):
                before = fsim.snapshot(w.tree, dirs=True)
                flag = dict(force=['-f'], keep=[], list=['-L'])[mode]
                if mode == 'list' and st['seed'] % 3 == 0:
                    flag = ['-L', '-s']   # nothing is fetched either
                env = dict(order=1) if st.get('order') else {}
                res = w.run(opts + flag, env, faults, seed=st['seed'])
                info['runs'] += 1
                info['ops'] += res.ops
                info['fired'] += [f[1] for f in res.fired]
                info['hash'] = hash_mix(info['hash'], res.hash, res.rc)
                info['rcs'].append(res.rc)
                after = fsim.snapshot(w.tree, dirs=True)
                what = '%s run%s' % (dict(force='forced', keep='non-forced',
                                          list='list-only')[mode],
                                     ' struck by ' + ', '.join(
                                         '%s(%d) at operation %d [%s]' % (
                                             f[1], f[2], f[0], name_op(res.log, f[0]))
                                         for f in res.fired) if res.fired
                                     else ' after the faults' if final else '')
                if res.rc in (-24, -9) and not res.crashed:
                    return ('HANG', what + ' did not end')
                if res.outside:
                    return ('OUTSIDE', '%s wrote /%s' % (what, res.outside[0]))
                for k in m.sources:
                    if after.get(k) != m.sources[k]:
                        return ('TOUCHED', '%s %s %s, which is not generated' % (
                            what, 'changed' if k in after else 'removed', k))
                if mode == 'list':
                    d = sorted(k for k in set(before) | set(after)
                               if before.get(k) != after.get(k))
                    if d:
                        return ('LIST', '%s changed the tree: %s' % (what, d[0]))
                    if res.rc != 0 and not res.fired:
                        return ('FAIL', '%s ended with status %d: %s' % (
                            what, res.rc, res.out.strip()[-200:]))
                    return None
                for k in before:
                    if k in m.sources or k.endswith('/') or k == 'doc/tmp.html':
                        continue
                    if mode == 'keep' and k in after and after[k] == before[k]:
                        continue
                    if mode == 'keep':
                        cpp = k[:-3] + '.cpp'
                        if k.endswith('.cu') and cpp not in before:
                            continue   # a .cu file is the copy of its .cpp
                        return ('KEEP', '%s %s the existing %s' % (
                            what, 'changed' if k in after else 'removed', k))
                    if k not in exp and after.get(k) != before[k]:
                        if plan['init'] == 'other' and k.startswith('doc/html/') \
                                and k.endswith('.html'):
                            continue   # made from a page of the other options
                        return ('TOUCHED', '%s changed %s, which these options do '
                                'not generate' % (what, k))
                if res.rc == 0:
                    for k in sorted(exp):
                        kept = mode == 'keep' and k in before
                        if wrapped(k) and k in after and (
                                mode == 'keep' or plan['init'] == 'other'):
                            continue  # made from headers that were there
                        if not kept and after.get(k) != exp[k]:
                            if mode == 'keep' and k.endswith('.html') and \
                                    k.startswith('doc/'):
                                continue  # made from a page that was kept
                            if mode == 'keep' and k.endswith('.cu'):
                                continue
                            return ('SILENT' if res.fired else 'WRONG',
                                    '%s ended with success but %s is %s' % (
                                        what, k, 'missing' if k not in after else
                                        'not what a fault-free run writes'))
                    extra = [k for k in sorted(after) if k not in exp and
                             k not in before and not k.endswith('/')]
                    if mode == 'keep':
                        extra = [k for k in extra if not
                                 (k.startswith('doc/html') and k.endswith('.html'))]
                    elif plan['init'] == 'other':
                        extra = [k for k in extra if not k.startswith('doc/html/')]
                    if extra:
                        return ('EXTRA', '%s created %s, which is not a generated '
                                'file' % (what, extra[0]))
                elif not res.fired:
                    return ('FAIL', '%s ended with status %d: %s' % (
                        what, res.rc, res.out.strip()[-200:]))
                return None

            for st in plan['steps']:
                pre = fsim.snapshot(w.tree) if st['power'] else None
                b = step(st['mode'], [tuple(f) for f in st['faults']], st)
                if b:
                    return bad(*b)
                if st['power'] and st['mode'] != 'list':
                    info['lost'] += self.lose_power(random.Random(st['seed']), w, pre)
            start = fsim.snapshot(w.tree)
            b = step('force', [], dict(seed=plan['seed'], order=plan['seed'] & 1),
                     final=True)
            if b:
                return bad(*b)
            end = fsim.snapshot(w.tree)
            left = [k for k in sorted(end) if k not in exp and k not in m.sources
                    and plan['init'] != 'other']
            if left:
                return bad('LEFTOVER', 'after faults and a forced run the tree '
                           'holds %s, which a fault-free run does not leave' % left[0])
        return None, info

    def one(self, i):
        plan = self.plan(i)
        bad, info = self.history(plan)
        rec = dict(i=i, plan=plan, bad=bad, info=info, pair=None, opts=self.menu[plan['o']])
        if i % 16 == 5 or bad:
            b2, i2 = self.history(plan)
            rec['pair'] = (b2 == bad, i2['hash'] == info['hash'])
            if bad and not b2:
                rec['flaky'], rec['bad'] = bad, None
        return rec

    def minimise(self, plan, kind):
        def still(p):
            b, _ = self.history(p)
            return b is not None and b[0] == kind
        t = time.time()
        p = json.loads(json.dumps(plan))
        k = 0
        while k < len(p['steps']) and time.time() - t < 120:
            q = dict(p, steps=p['steps'][:k] + p['steps'][k + 1:])
            if still(q):
                p = q
            else:
                k += 1
        for st in range(len(p['steps'])):
            j = 0
            while j < len(p['steps'][st]['faults']) and time.time() - t < 180:
                q = json.loads(json.dumps(p))
                del q['steps'][st]['faults'][j]
                if still(q):
                    p = q
                else:
                    j += 1
            if p['steps'][st]['power']:
                q = json.loads(json.dumps(p))
                q['steps'][st]['power'] = False
                if still(q):
                    p = q
        for init in ('empty', 'full'):
            if p['init'] not in ('empty', init):
                q = dict(p, init=init)
                if still(q):
                    p = q
        return p


def hash_mix(*a):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(),
                          'little')


def name_op(log, k):
    return log[k] if k < len(log) else '?'


def main13(chk):
    with machine() as m:
        quick = chk.tier == 'quick'
        if chk.args.replay:
            d = json.load(open(chk.args.replay))
            chk.seed = d['seed']
        c = C13(chk, m, 16 if quick or chk.args.replay and d['menu'] == 16 else 40)
        if chk.args.replay:
            if c.early or d.get('early'):
                print('replayed: %r' % (c.early,))
                bad = c.early
            else:
                bad, info = c.history(d['plan'])
                print('replayed: %r, event hash %s (recorded %s)' % (
                    bad, info['hash'], d['expect']['hash']))
            if bad:
                print('VIOLATION property=%s replay=%s' % (chk.prop, chk.args.replay))
                raise SystemExit(1)
            raise SystemExit(0)
        budget = chk.args.budget or (60 if quick else 1500)
        n = 1200 if quick else 60000
        t = time.time()
        recs = []
        if c.early:
            chk.violation('hatch.py %s: %s' % (' '.join(c.menu[c.early[0]]), c.early[1]),
                          dict(engine='gensim', seed=chk.seed, menu=len(c.menu) - 1,
                               early=True, what=c.early[1]), 'plain')
        else:
            recs = fsim.pool(c.one, n, budget=budget)
        wall = time.time() - t
        seen, flaky = set(), [r for r in recs if r.get('flaky')]
        for rec in recs:
            if not rec['bad']:
                continue
            key = '%s/%s' % (rec['bad'][0], ' '.join(rec['opts'][:1]))
            if key in seen or len(seen) >= 4:
                continue
            seen.add(key)
            p = c.minimise(rec['plan'], rec['bad'][0])
            b1, i1 = c.history(p)
            b2, i2 = c.history(p)
            if b1 is None or b1 != b2:
                p = rec['plan']
                b1, i1 = c.history(p)
            if b1 is None:
                raise vp.CheckError('a violation does not replay: %r' % rec)
            chk.violation(b1[1], dict(engine='gensim', seed=chk.seed, plan=p,
                                      menu=len(c.menu) - 1,
                                      options=c.menu[p['o']],
                                      expect=dict(bad=list(b1), hash=i1['hash']),
                                      before=rec['plan']),
                          vp.sha(key)[:10], known_key=key)
        if flaky and not chk.violations:
            raise vp.CheckError('history not repeatable: %r' % flaky[0])
        if any(r['pair'] and not r['pair'][1] for r in recs) and not chk.violations:
            raise vp.CheckError('two runs with one seed gave different event logs')
        fk = {}
        for r in recs:
            for f in r['info']['fired']:
                fk[f] = fk.get(f, 0) + 1
        fk['power_loss_files'] = sum(r['info']['lost'] for r in recs)
        runs = sum(r['info']['runs'] for r in recs)
        chk.finish(dict(
            evaluations=len(recs),
            distinct_nontrivial=len(set(r['info']['hash'] for r in recs
                                        if r['info']['fired'] or r['info']['lost'])),
            rule='one evaluation is one history: an initial tree, 1-3 generator '
                 'runs (forced, non-forced, list-only) under disk faults, crashes '
                 'and power loss, then a fault-free forced run; non-trivial if a '
                 'fault fired or data was lost; distinct by hash of all file '
                 'operations and exit states',
            samples=[dict(options=r['opts'], plan=r['plan'], exits=r['info']['rcs'],
                          fired=r['info']['fired']) for r in recs[:60:12]],
            runs_per_hour=int(len(recs) / max(wall, .001) * 3600), seeds=len(recs),
            simulated_time='%d file operations' % sum(r['info']['ops'] for r in recs),
            generator_runs=runs, faults_injected=fk,
            wrapped_pages_program=m.wrapped,
            interleavings=len(set(r['info']['hash'] for r in recs)),
            option_sets=[' '.join(o) for o in c.menu],
            determinism_pairs=sum(1 for r in recs if r['pair']),
            components=dict(
                real='egg/hatch.py with all generators and modules, '
                     'doc/what_is_wrapped, Python, the shell, the kernel file '
                     'system below the shim',
                stub='failures and crashes of the file system (sim/simfs.c), '
                     'power loss (files altered between runs), make, '
                     'clang-format, doc/md2html and the nstools functions of '
                     'doc/what_is_wrapped')),
            assumptions=['a .cu test is the copy of its .cpp and a HTML page is '
                         'made from its Markdown page: without --force they '
                         'follow the file they are made from',
                         'doc/tmp.html, scratch of the HTML conversion left by a '
                         'crash, may be removed by a later run',
                         'removing a failed write from the disk is not required: '
                         'only the exit status and the next forced run count'])
