"""C14: fetching the Sleef sources (egg/hatch.py -s) on a simulated machine with
a simulated network."""
import hashlib
import io
import json
import os
import random
import shutil
import time
import zipfile
import fsim
import gensim
import vp

NET = os.path.join(vp.SIM, 'net')
PLAIN = ['src/libm/sleefdp.c', 'src/libm/sleefsp.c', 'src/libm/estrin.h',
         'src/libm/dd.h', 'src/libm/df.h', 'src/libm/rempitab.c',
         'src/arch/helperneon32.h', 'src/arch/helperadvsimd.h',
         'src/arch/helperpower_128.h', 'src/arch/helpersve.h']
ALIAS = ['src/libm/sleefsimddp.c', 'src/libm/sleefsimdsp.c']
CPUID = ['src/arch/helpersse2.h', 'src/arch/helperavx.h',
         'src/arch/helperavx2.h', 'src/arch/helperavx512f.h']
MISC = 'src/common/misc.h'
PROTO = 'src/libm/funcproto.h'
EXTS = {'': ['scalar'], 'sse2': ['sse2'], 'sse4': ['sse42'], 'avx': ['avx'],
        'avx2': ['avx2'], 'avx512f': ['avx512_knl', 'avx512_skylake'],
        'neon32': ['neon128'], 'advsimd': ['aarch64'],
        'sve': ['sve128', 'sve256', 'sve512', 'sve1024', 'sve2048'],
        'vsx': ['vmx', 'vsx']}
SUFFIX = {0: '', 1: '_u1', 2: '_u05', 3: '_u35', 4: '_u15', 5: '_u3500'}
OUT = ['src/' + os.path.basename(p) for p in PLAIN + ALIAS + CPUID + [MISC]] + \
      ['src/rename%s.h' % e for e in EXTS]
FUNCS = [('sin', 35, 0), ('cos', 35, 0), ('sincos', 35, 0), ('tan', 35, 0),
         ('asin', 35, 0), ('atan2', 35, 0), ('log', 35, 0), ('cbrt', 35, 0),
         ('sin', 10, 1), ('cos', 10, 1), ('tan', 10, 1), ('exp', 10, 0),
         ('pow', 10, 0), ('sinh', 10, 0), ('exp2', 10, 0), ('exp10', 10, 0),
         ('expm1', 10, 0), ('log1p', 10, 0), ('sincospi', 5, 2),
         ('sinpi', 5, 2), ('ldexp', -1, 0), ('ilogb', -1, 0), ('fma', -1, 0),
         ('sqrt', -1, 0), ('sqrt', 5, 2), ('sqrt', 35, 3), ('hypot', 5, 2),
         ('hypot', 35, 3), ('fabs', -1, 0), ('fmod', -1, 0), ('lgamma', 10, 1),
         ('tgamma', 10, 1), ('erf', 10, 1), ('erfc', 15, 4), ('exp2', 35, 3),
         ('log2', 35, 3), ('fastsin', 3500, 5), ('fastpow', 3500, 5),
         ('sinh', 35, 3), ('modf', -1, 0)]


# ------------------------------------------------------------- the release
def text(r, special, size):
    """A C file of the release, with the lines the fetcher rewrites."""
    out = []
    words = ['vdouble', 'x', 'return', 'vfloat2 d', 'INLINE', '/* note */',
             '#define A 1', '  y = x;', '', '\t{', '}', 'static', 'q +', '"s"']
    n = 0
    while n < size:
        k = r.random()
        if k < .12 and special == 'alias':
            line = r.choice(['DALIAS_vd_vd(sin)', 'DALIAS_vf_vf(cos_u1)  ',
                             'DALIAS_vi_vd(ilogb)\t', '#define DALIAS_vd_vd(FUNC) x',
                             ' DALIAS_vd_vd(tan)', '// DALIAS_ macros', 'DALIAS_'])
        elif k < .05 and special == 'cpuid':
            line = r.choice(['void Sleef_x86CpuID(int32_t out[4], uint32_t eax, uint32_t ecx);',
                             '    Sleef_x86CpuID(reg, 1, 0);',
                             '  void Sleef_x86CpuID(int32_t out[4]);',
                             'static void Sleef_x86Cpu(void);'])
        elif k < .14:
            line = '// ' + 'é'.join('%x' % r.randrange(1 << 20) for _ in range(2))
        else:
            line = ' '.join(r.choice(words) for _ in range(r.randint(0, 9))) + \
                   '%d' % r.randrange(10**r.randint(1, 9))
        out.append(line)
        n += len(line) + 1
    t = '\n'.join(out)
    if out and r.random() < .8:
        t += '\n'
    return t.encode()


def release(seed):
    """({path in the archive: bytes}, rows of the function table)."""
    r = random.Random('rel/%d' % seed)
    files = {}
    for p in PLAIN + ALIAS + CPUID + [MISC]:
        size = r.choice([0, 40, 400, 3000, 8190, 8300, 20000])
        if r.random() < .05:
            size = 300000
        sp = 'alias' if p in ALIAS else 'cpuid' if p in CPUID else ''
        files[p] = text(r, sp, size)
    rows = r.sample(FUNCS, r.randint(1, len(FUNCS)))
    t = ['typedef struct {', '  const char *name;', '  int ulp;', '} FuncSpec;', '',
         'FuncSpec funcList[] = {']
    for n, u, c in rows:
        t.append('  { "%s", %d, %d, %d, %d, %d },' % (
            n, u, c, r.randrange(4), r.randrange(8), r.randrange(2)))
    t.append('  { NULL, -1, 0, 0, 0, 0 },')
    if r.random() < .5:
        t.append('  { "after", 10, 1, 0, 0, 0 },')
    t += ['};', '']
    files[PROTO] = '\n'.join(t).encode()
    for p in ('README.md', 'CMakeLists.txt', 'src/libm/tblgen.c', 'LICENSE.txt'):
        if r.random() < .7:
            files[p] = text(r, '', r.choice([0, 100, 5000]))
    return files, rows


def archive(files, seed, root='sleef-3.5.1'):
    r = random.Random('zip/%d' % seed)
    names = sorted(files)
    if r.random() < .6:
        r.shuffle(names)
    b = io.BytesIO()
    comp = r.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])
    with zipfile.ZipFile(b, 'w', comp) as z:
        seen = set()
        for n in names:
            if comp == zipfile.ZIP_DEFLATED or r.random() < .5:
                d = os.path.dirname(root + '/' + n)
                for k in range(1, d.count('/') + 2):
                    q = '/'.join(d.split('/')[:k]) + '/'
                    if q not in seen:
                        seen.add(q)
                        z.writestr(zipfile.ZipInfo(q, (2020, 12, 1, 0, 0, 0)), b'')
            z.writestr(zipfile.ZipInfo(root + '/' + n, (2020, 12, 1, 1, 2, 4)),
                       files[n], comp)
    return b.getvalue()


def intact(body, files):
    """Does this archive deliver the release?  2: entirely, 1: the files that
    count (a fetch may still refuse it), 0: no."""
    try:
        with zipfile.ZipFile(io.BytesIO(body)) as z:
            if not all(z.read('sleef-3.5.1/' + p) == files[p]
                       for p in PLAIN + ALIAS + CPUID + [MISC, PROTO]):
                return 0
            try:
                return 2 if z.testzip() is None else 1
            except Exception:
                return 1
    except Exception:
        return 0


# --------------------------------------------------------------- the model
def flat(b):
    """Text compared up to white space between lines and comments."""
    return [l.strip() for l in b.decode('utf-8', 'replace').split('\n')
            if l.strip() and not (l.strip().startswith('/*') and l.strip().endswith('*/'))]


CPU = ('static inline void Sleef_x86CpuID(int32_t out[4], uint32_t eax, uint32_t ecx) {'
       ' out[0] = 0xFFFFFFFF; out[1] = 0xFFFFFFFF; out[2] = 0xFFFFFFFF;'
       ' out[3] = 0xFFFFFFFF; }')
MISC_TAIL = ['#ifndef NSIMD_SLEEF_MISC_H', '#define NSIMD_SLEEF_MISC_H',
             '#ifdef INLINE', '#undef INLINE', '#endif', '#define INLINE inline',
             '#define Sleef_rempitabdp nsimd_sleef_rempitab_f64',
             '#define Sleef_rempitabsp nsimd_sleef_rempitab_f32', '#endif']


def words(b):
    import re
    t = re.sub(r'/\* We don\'t care.*?\*/', '', b.decode('utf-8', 'replace'), flags=re.S)
    return ' '.join(re.findall(r'\w+|[^\w\s]', t))


def rename_lines(ext, rows):
    up = (ext or 'scalar').upper()
    out = ['#ifndef RENAME%s_H' % up, '#define RENAME%s_H' % up]
    for n in EXTS[ext]:
        if ext:
            out.append('#ifdef NSIMD_' + n.upper())
        for det in ('d', ''):
            out.append('#ifdef DETERMINISTIC' if det else '#else')
            for f, u, c in rows:
                s = SUFFIX[c]
                t = '' if u == -1 else '_u%s%s' % ('05' if u == 5 else u, det)
                out.append('#define x%s%s nsimd_sleef_%s%s_%s_f64' % (f, s, f, t, n))
                out.append('#define x%sf%s nsimd_sleef_%s%s_%s_f32' % (f, s, f, t, n))
        out.append('#endif')
        for k in ('rempi', 'rempif', 'rempisub', 'rempisubf'):
            out.append('#define %s nsimd_sleef_%s_%s' % (k, k, n))
        out += ['#define gammak nsimd_gammak_' + n, '#define gammafk nsimd_gammafk_' + n]
        if ext:
            out.append('#endif')
    return out + ['#endif']


def wrong(path, got, files, rows):
    """None if the file `path` of the source directory holds what a fetch of
    this release must leave, else a description."""
    base = os.path.basename(path)
    for p in PLAIN:
        if os.path.basename(p) == base:
            return None if got == files[p] else 'is not the file of the release'
    for p in ALIAS:
        if os.path.basename(p) == base:
            want = ''.join('/* %s */\n' % l.strip() if l.startswith('DALIAS_') else l
                           for l in files[p].decode().splitlines(True))
            ok = got.decode('utf-8', 'replace').rstrip('\n') == want.rstrip('\n')
            return None if ok else 'is not the file of the release with its ' \
                                   'aliases commented'
    for p in CPUID:
        if os.path.basename(p) == base:
            want = ''.join(CPU + '\n' if l.startswith('void Sleef_x86CpuID') else l
                           for l in files[p].decode().splitlines(True))
            return None if words(got) == words(want.encode()) else \
                'is not the file of the release with cpuid replaced'
    if base == 'misc.h':
        if not got.startswith(files[MISC]):
            return 'does not begin with the file of the release'
        ok = flat(got[len(files[MISC]):]) == MISC_TAIL
        return None if ok else 'does not end with exactly one NSIMD block'
    g, w = flat(got), rename_lines(base[6:-2], rows)
    if g == w:
        return None
    for a, b in zip(g, w):
        if a != b:
            return 'holds "%s" where "%s" is expected' % (a[:90], b[:90])
    return 'has %d lines instead of %d' % (len(g), len(w))


# -------------------------------------------------------------------- plans
NETKINDS = ['dns', 'refused', 'ssl', 'proxy', 'redirects', 'connect_stall',
            'read_stall', 'reset', 'chunked', 'status_html', 'status_empty',
            'status_archive', 'portal', 'empty', 'truncated', 'truncated',
            'flip', 'flip', 'flip', 'zero', 'swap', 'missing', 'missing',
            'root', 'cutmember']


def net_plan(r):
    k = r.choice(NETKINDS)
    return dict(kind=k, x=[r.random() for _ in range(4)], seed=r.randrange(1 << 30),
                retry_ok=r.random() < .1)


def mutate(kind, body, files, x, seed):
    """The bytes that arrive."""
    r = random.Random(seed)
    n = len(body)
    if kind == 'truncated':
        return body[:int(n * x[0]) if x[1] < .6 else max(0, n - 1 - int(x[0] * 300))]
    b = bytearray(body)
    if kind == 'flip':
        for _ in range(r.choice([1, 1, 2, 8])):
            # anywhere, or in the directory at the end
            i = r.randrange(n) if r.random() < .5 else n - 1 - r.randrange(min(n, 2500))
            b[i] ^= 1 << r.randrange(8)
    elif kind == 'zero':
        i = r.randrange(n)
        j = min(n, i + r.choice([1, 64, 512, 4096]))
        b[i:j] = bytes(j - i)
    elif kind == 'swap':
        k = r.choice([16, 512, 1460])
        i, j = r.randrange(max(1, n - k)), r.randrange(max(1, n - k))
        b[i:i + k], b[j:j + k] = b[j:j + k], b[i:i + k]
    elif kind in ('missing', 'cutmember'):
        f = dict(files)
        need = sorted(p for p in f if p in PLAIN + ALIAS + CPUID + [MISC, PROTO])
        for p in r.sample(need, r.choice([1, 1, 2, 5])):
            if kind == 'missing':
                del f[p]
            else:      # the server packed the file while it was being written
                f[p] = f[p][:len(f[p]) // 2] if p != PROTO else f[p]
        if kind == 'cutmember':
            return bytes(b[:n - n // 3])
        return archive(f, seed)
    elif kind == 'root':
        return archive(files, seed, r.choice(['sleef-3.6', 'sleef-master', '.']))
    return bytes(b)


class C14:
    def __init__(self, chk, m):
        self.chk, self.m = chk, m
        with fsim.World(m) as w:
            res, net = self.run(w, dict(rel=1, net=None, faults=[]), 1)
            self.log = res.log
            self.base_rc, self.base_out = res.rc, res.out

    def plan(self, i):
        r = random.Random('%d/c14/%d' % (self.chk.seed, i))
        steps = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            net = net_plan(r) if r.random() < .65 else None
            nf = r.choice([0, 0, 0, 1] if net else [0, 1, 1, 1, 2])
            fs = []
            for _ in range(nf):
                kind, a = r.choice(gensim.FAULTS)
                L = max(1, len(self.log))
                k = r.randrange(L)
                if r.random() < .5:
                    own = [j for j, x in enumerate(self.log)
                           if x[0] in 'CTAWXURN' and ' src/' in x]
                    if own:
                        k = r.choice(own)
                if kind == 'short' or kind.startswith('torn'):
                    wr = [j for j in range(max(0, k - 3), min(L, k + 12))
                          if self.log[j][0] == 'W']
                    if wr:
                        k = r.choice(wr)
                fs.append((k, kind, gensim.ERRNO[a] if a else r.randrange(256)))
            steps.append(dict(net=net, faults=fs, power=r.random() < .2,
                              rel=r.randrange(1, 40), slow=r.random() < .2,
                              opts=r.choice([[], [], ['-f'], ['-D', 'sse2'], ['-v']]),
                              seed=r.randrange(1 << 40)))
        return dict(init=r.choice(['shipped', 'shipped', 'other', 'partial', 'none']),
                    deps=r.choice(['none', 'none', 'stale', 'stale_other', 'garbage']),
                    seed=r.randrange(1 << 40), rel=r.randrange(1, 40), steps=steps)

    def prepare(self, w, plan):
        r = random.Random(plan['seed'])
        src = os.path.join(w.tree, 'src')
        for f in OUT:
            p = os.path.join(w.tree, f)
            if plan['init'] == 'none' or plan['init'] == 'partial' and r.random() < .4:
                if os.path.exists(p):
                    os.remove(p)
            elif plan['init'] == 'other' or plan['init'] == 'partial' and r.random() < .5:
                with open(p, 'wb') as fo:
                    fo.write(b'/* older %d */\n' % r.randrange(1000))
        with open(os.path.join(src, 'mine.c'), 'w') as fo:
            fo.write('int mine;\n')
        d = os.path.join(w.tree, '_deps-sleef')
        if plan['deps'] != 'none':
            os.mkdir(d)
            if plan['deps'] == 'garbage':
                with open(os.path.join(d, 'sleef.zip'), 'wb') as fo:
                    fo.write(b'PK\3\4 not really')
            else:
                files, _ = release(plan['rel'] if plan['deps'] == 'stale'
                                   else 1000 + r.randrange(20))
                a = archive(files, r.randrange(100))
                with open(os.path.join(d, 'sleef.zip'), 'wb') as fo:
                    fo.write(a)
                with zipfile.ZipFile(io.BytesIO(a)) as z:
                    z.extractall(d)
        gensim.own(self.m, w.tree)

    def run(self, w, st, tag):
        """One fetch; returns (Result, list of facts about the network)."""
        files, rows = release(st['rel'])
        good = archive(files, st['rel'])
        nd = os.path.join(w.dir, 'net%d' % tag)
        shutil.rmtree(nd, ignore_errors=True)
        os.mkdir(nd)
        k = [0]

        def put(b):
            k[0] += 1
            p = os.path.join(nd, 'body%d' % k[0])
            with open(p, 'wb') as f:
                f.write(b)
            os.chmod(p, 0o644)
            return p
        html = put(b'<html><body>error</body></html>')
        ok = dict(status=200, body=put(good), length=len(good), html=html,
                  delays=[.3, 2.0, .1] if st.get('slow') else [])
        net, plan, delivers = st.get('net'), [ok], 2
        if net:
            kd, x, bad = net['kind'], net['x'], None
            b = dict(ok)
            if kd in ('dns', 'refused', 'ssl', 'proxy', 'redirects'):
                b['connect'] = kd
            elif kd == 'connect_stall':
                b['connect_delay'] = 'inf'
            elif kd == 'read_stall':
                b['delays'] = [1.0, 'inf']
                b['body'] = put(good[:int(len(good) * x[0])])
            elif kd in ('reset', 'chunked'):
                b['break'] = kd
                b['body'] = put(good[:int(len(good) * x[0])])
            elif kd.startswith('status'):
                b['status'] = [400, 403, 404, 429, 500, 502, 503, 504][int(x[0] * 8)]
                if kd == 'status_archive':
                    old = archive(release(2000)[0], 5)
                    b.update(body=put(old), length=len(old))
                else:
                    b.update(body=html if kd == 'status_html' else put(b''),
                             type='text/html')
            elif kd in ('portal', 'empty'):
                b.update(body=html if kd == 'portal' else put(b''), type='text/html',
                         length=None)
            else:
                bad = mutate(kd, good, files, x, net['seed'])
                b['body'] = put(bad)
            plan = [b, ok] if st['net'].get('retry_ok') else [b]
            delivers = intact(bad, files) if bad is not None else 0
        pf = os.path.join(nd, 'plan.json')
        with open(pf, 'w') as f:
            json.dump(plan, f)
        with open(pf + '.log', 'w'):
            pass
        os.chmod(pf + '.log', 0o666)
        os.chmod(nd, 0o755)
        e = dict(env=dict(VSIM_NET=pf))
        res = w.run(['-s'] + st.get('opts', []), e, [tuple(f) for f in st['faults']],
                    seed=st.get('seed', 0), pypath=self.m.net)
        with open(pf + '.log') as f:
            log = f.read().split('\n')[:-1]
        asked = sum(1 for l in log if l.startswith('GET '))
        if delivers < 2 and len(plan) > 1 and asked > 1:
            delivers = 2
        return res, dict(delivers=delivers, log=log, files=files, rows=rows,
                         asked=asked,
                         seconds=sum(0 for l in log) + max(
                             [float(l[5:]) for l in log if l.startswith('time ')] or [0]))

    def history(self, plan):
        m = self.m
        info = dict(fired=[], net=[], ops=0, hash=0, lost=0, runs=0, rcs=[],
                    seconds=0.0, failed_downloads=0)
        with fsim.World(m) as w:
            self.prepare(w, plan)
            first = fsim.snapshot(w.tree)

            def others(s):
                return {k: v for k, v in s.items() if k not in OUT and
                        k != 'src/tmp.c' and not k.startswith('_deps-sleef/')}

            def ours(s):
                return {k: v for k, v in s.items() if k in OUT or k == 'src/tmp.c'}

            def bad(k, t):
                return (k, 'hatch.py -s, source directory %s, download directory '
                        '%s: %s' % (plan['init'], plan['deps'], t)), info

            def model(what, net, s):
                for f in OUT:
                    if f not in s:
                        return '%s ended with success but %s is missing' % (what, f)
                    with open(os.path.join(w.tree, f), 'rb') as fi:
                        x = wrong(f, fi.read(), net['files'], net['rows'])
                    if x:
                        return '%s ended with success but %s %s' % (what, f, x)
                return None

            def step(st, tag, final=False):
                before = fsim.snapshot(w.tree)
                res, net = self.run(w, st, tag)
                info['runs'] += 1
                info['ops'] += res.ops
                info['seconds'] += net['seconds']
                info['fired'] += [f[1] for f in res.fired]
                if st.get('net') and net['asked']:
                    info['net'].append(st['net']['kind'])
                info['hash'] = gensim.hash_mix(info['hash'], res.hash, res.rc,
                                               tuple(net['log']))
                info['rcs'].append(res.rc)
                after = fsim.snapshot(w.tree)
                if final:
                    what = 'the fault-free fetch after the faults'
                else:
                    l = []
                    if st.get('net'):
                        l.append('the network (%s)' % st['net']['kind'])
                    l += ['%s(%d) at operation %d [%s]' % (
                        f[1], f[2], f[0], gensim.name_op(res.log, f[0]))
                        for f in res.fired]
                    what = 'a fetch' + (' struck by ' + ', '.join(l) if l else '')
                if res.rc == 97:
                    return ('HANG', what + ' waits for ever for the server')
                if res.rc in (-24, -9) and not res.crashed:
                    return ('HANG', what + ' did not end')
                if res.outside:
                    return ('OUTSIDE', '%s wrote /%s' % (what, res.outside[0]))
                a, b = others(before), others(after)
                for k in sorted(set(a) | set(b)):
                    if a.get(k) != b.get(k):
                        return ('TOUCHED', '%s %s %s' % (
                            what, 'changed' if k in a and k in b else 'removed'
                            if k in a else 'created', k))
                x = None
                if res.rc == 0:
                    x = model(what, net, after)
                if net['delivers'] == 0 or \
                        net['delivers'] == 1 and res.rc != 0 and not res.fired:
                    info['failed_downloads'] += 1
                    if res.rc == 0:
                        if x:
                            return ('ACCEPTED', x)
                    else:
                        a, b = ours(before), ours(after)
                        for k in sorted(set(a) | set(b)):
                            if a.get(k) != b.get(k):
                                return ('ALTERED', '%s failed but %s %s' % (
                                    what, 'changed' if k in a and k in b else
                                    'removed' if k in a else 'created', k))
                    return None
                if x:
                    return ('SILENT' if res.fired else 'WRONG', x)
                if res.rc == 0 and 'src/tmp.c' in after:
                    return ('LEFTOVER', '%s left src/tmp.c' % what)
                if res.rc != 0 and not res.fired:
                    return ('FAIL', '%s ended with status %d: %s' % (
                        what, res.rc, res.out.strip()[-300:]))
                return None

            for n, st in enumerate(plan['steps']):
                pre = fsim.snapshot(w.tree)
                b = step(st, n)
                if b:
                    return bad(*b)
                if st['power']:
                    info['lost'] += gensim.C13.lose_power(
                        None, random.Random(st['seed']), w, pre)
            b = step(dict(rel=plan['rel'], faults=[], seed=plan['seed']), 99, True)
            if b:
                return bad(*b)
            end = fsim.snapshot(w.tree)
            for k in sorted(set(others(first)) | set(others(end))):
                if first.get(k) != end.get(k):
                    return bad('TOUCHED', 'after the history %s differs' % k)
        return None, info

    def one(self, i):
        plan = self.plan(i)
        b, info = self.history(plan)
        rec = dict(i=i, plan=plan, bad=b, info=info, pair=None)
        if i % 16 == 5 or b:
            b2, i2 = self.history(plan)
            rec['pair'] = (b2 == b, i2['hash'] == info['hash'])
            if b and not b2:
                rec['flaky'], rec['bad'] = b, None
        return rec

    def minimise(self, plan, kind):
        t = time.time()

        def still(p):
            b, _ = self.history(p)
            return time.time() - t < 150 and b is not None and b[0] == kind
        p = json.loads(json.dumps(plan))
        k = 0
        while k < len(p['steps']):
            q = dict(p, steps=p['steps'][:k] + p['steps'][k + 1:])
            if still(q):
                p = q
            else:
                k += 1
        for s in range(len(p['steps'])):
            def cut(f):
                q = json.loads(json.dumps(p))
                f(q['steps'][s])
                return q if q != p and still(q) else p
            j = 0
            while j < len(p['steps'][s]['faults']):
                n = len(p['steps'][s]['faults'])
                p = cut(lambda d: d['faults'].pop(j))
                if len(p['steps'][s]['faults']) == n:
                    j += 1
            p = cut(lambda d: d.update(power=False))
            p = cut(lambda d: d.update(net=None))
            p = cut(lambda d: d.update(slow=False))
            p = cut(lambda d: d.update(opts=[]))
        for k, v in (('init', 'shipped'), ('deps', 'none')):
            if p[k] != v:
                q = dict(p, **{k: v})
                if still(q):
                    p = q
        return p


def machine():
    m = fsim.Machine(subs=['egg', 'src'])
    # the generated sources are not there in a fresh checkout
    m.net = os.path.join(m.top, 'net')
    os.mkdir(m.net)
    shutil.copy(os.path.join(NET, 'requests.py'), m.net)
    os.chmod(m.net, 0o755)
    os.chmod(os.path.join(m.net, 'requests.py'), 0o644)
    __import__('subprocess').run(
        [__import__('sys').executable, '-m', 'compileall', '-q',
         '--invalidation-mode', 'unchecked-hash', m.net],
        stdout=-3, stderr=-3)
    m.sources = fsim.snapshot(m.base)
    return m


def main(chk):
    with machine() as m:
        c = C14(chk, m)
        quick = chk.tier == 'quick'
        if chk.args.replay:
            d = json.load(open(chk.args.replay))
            bad, info = c.history(d['plan'])
            print('replayed: %r, event hash %s (recorded %s)' % (
                bad, info['hash'], d['expect']['hash']))
            if bad:
                print('VIOLATION property=%s replay=%s' % (chk.prop, chk.args.replay))
                raise SystemExit(1)
            raise SystemExit(0)
        budget = chk.args.budget or (45 if quick else 1500)
        n = 1500 if quick else 100000
        t = time.time()
        recs = fsim.pool(c.one, n, budget=budget)
        wall = time.time() - t
        seen, flaky = set(), [r for r in recs if r.get('flaky')]
        for rec in recs:
            if not rec['bad']:
                continue
            key = '%s/%s' % (rec['bad'][0], (rec['plan']['steps'][-1]['net'] or
                                             {'kind': 'disk'})['kind'])
            if key in seen or len(seen) >= 4:
                continue
            seen.add(key)
            p = c.minimise(rec['plan'], rec['bad'][0])
            b1, i1 = c.history(p)
            if b1 is None:
                p = rec['plan']
                b1, i1 = c.history(p)
            if b1 is None:
                raise vp.CheckError('a violation does not replay: %r' % rec)
            chk.violation(b1[1], dict(engine='fetchsim', seed=chk.seed, plan=p,
                                      expect=dict(bad=list(b1), hash=i1['hash']),
                                      before=rec['plan']),
                          vp.sha(key)[:10], known_key=key)
        if flaky and not chk.violations:
            raise vp.CheckError('history not repeatable: %r' % flaky[0])
        if any(r['pair'] and not r['pair'][1] for r in recs) and not chk.violations:
            raise vp.CheckError('two runs with one seed gave different event logs')
        fk = {}
        for r in recs:
            for f in r['info']['fired']:
                fk['disk_' + f] = fk.get('disk_' + f, 0) + 1
            for f in r['info']['net']:
                fk['net_' + f] = fk.get('net_' + f, 0) + 1
        fk['power_loss_files'] = sum(r['info']['lost'] for r in recs)
        chk.finish(dict(
            evaluations=len(recs),
            distinct_nontrivial=len(set(
                r['info']['hash'] for r in recs
                if r['info']['fired'] or r['info']['lost'] or r['info']['net'])),
            rule='one evaluation is one history: an initial source directory, 1-3 '
                 'fetches under network and disk faults, crashes and power loss, '
                 'then a fault-free fetch; non-trivial if a fault fired; distinct '
                 'by hash of all file operations, network events and exit states',
            samples=[dict(plan=r['plan'], exits=r['info']['rcs'],
                          fired=r['info']['fired'] + r['info']['net'])
                     for r in recs[:60:12]],
            runs_per_hour=int(len(recs) / max(wall, .001) * 3600), seeds=len(recs),
            simulated_time='%.0f simulated seconds on the network, %d file '
                           'operations' % (sum(r['info']['seconds'] for r in recs),
                                           sum(r['info']['ops'] for r in recs)),
            fetches=sum(r['info']['runs'] for r in recs),
            failed_downloads=sum(r['info']['failed_downloads'] for r in recs),
            faults_injected=fk,
            interleavings=len(set(r['info']['hash'] for r in recs)),
            determinism_pairs=sum(1 for r in recs if r['pair']),
            components=dict(
                real='egg/hatch.py -s, egg/get_sleef_code.py, Python with its '
                     'zipfile module, the kernel file system below the shim',
                stub='the requests package and the server behind it '
                     '(sim/net/requests.py, made-up Sleef releases), failures '
                     'and crashes of the file system (sim/simfs.c), power loss')),
            assumptions=['layout and comments of the rename headers are free, '
                         'their directives are not',
                         'the download directory _deps-sleef is scratch space of '
                         'the fetcher',
                         'the release served has the structure of Sleef 3.5.1 but '
                         'made-up contents: the real archive is not here'])
