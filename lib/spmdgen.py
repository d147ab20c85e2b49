"""Generator of SPMD programs and of their sequential meaning.

A program is a small syntax tree.  It is written out twice: as an SPMD kernel
in the DSL of the code under test, and as plain C++ run for one item, which is
the reference.  All values stay small, so that every type represents them
exactly and no operation overflows."""
import random
import sys

FEATURES = ['loop', 'return', 'elseif', 'bools', 'devfunc', 'valret', 'voiddev',
            'nest', 'tmpl', 'loadcond', 'uniform', 'mix', 'condstore',
            'straight']
OPS = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


class Prog:
    """Random program number k of a seed."""

    def __init__(self, seed, k, straight=False):
        self.r = r = random.Random('spmd-%d-%d-%d' % (seed, k, straight))
        self.k = k
        self.feature = 'straight' if straight else FEATURES[k % (len(FEATURES) - 1)]
        # every type in turn
        types = ['i8', 'u8', 'i16', 'u16', 'f16', 'i32', 'u32', 'f32', 'i64',
                 'u64', 'f64']
        self.type = types[(k * 7 + k // len(types)) % len(types)] if straight \
            else r.choice(types + ['i32', 'f32'])
        self.kind = self.type[0]
        self.width = int(self.type[1:])
        self.unroll = (k // 11) % 4 + 1 if straight else r.choice([1, 1, 1, 2, 3, 4])
        self.tmpl = (k // 3) % 2 == 1 if straight else \
            self.feature == 'tmpl' or r.random() < .15
        self.K = {'i': 'k_int', 'u': 'k_uint', 'f': 'k_float'}[self.kind]
        self.nv = r.randint(3, 5)
        self.nb = r.randint(1, 2) if self.feature in ('bools', 'mix') else 0
        self.loops = 0
        self.consts = sorted(set([0, 1] + [r.randint(2, 7) for _ in range(3)]))
        self.funcs = []
        self.cpu_only = self.feature == 'valret'
        self.nconds = 0
        if self.feature in ('devfunc', 'mix', 'valret', 'tmpl'):
            for i in range(r.randint(1, 2)):
                self.funcs.append(self.mkfunc(i, False))
        if self.feature == 'condstore':
            # a condition with an effect: only the items that reach it have it
            self.funcs.append(dict(self.mkfunc(0, False), store=True))
        if self.feature in ('voiddev', 'mix'):
            self.funcs.append(self.mkfunc(len(self.funcs), True))
        # device functions of GPUs do not know the item: they cannot store
        self.cpu_only = self.cpu_only or any(f['void'] or f.get('store') for f in self.funcs)
        self.infunc = None
        self.scope = list(range(self.nv))
        self.counters = []
        if straight:
            self.body = [self.set_() for _ in range(r.randint(1, 4))]
            if r.random() < .5:
                self.body.append(('store', self.var()))
        else:
            self.body = self.block(3 if self.feature in ('nest', 'mix') else 2,
                                   False, True, 2, 5)
        if self.feature == 'tmpl' and not straight:
            self.body.insert(0, ('call', self.scope[0], 0, self.var(), self.var()))

    # -- pieces -------------------------------------------------------------
    def mkfunc(self, i, void):
        r = self.r
        self.infunc = dict(i=i, void=void, rets=void or self.feature == 'valret')
        self.scope = list(range(3))
        self.counters = []
        self.loops = 0
        save, self.nb = self.nb, 0
        body = self.block(2, False, self.infunc['rets'], 1, 4)
        if self.infunc['rets'] and not self.has(body, 'return'):
            body.insert(0, ('if', [(self.cond(), [('return',)])], None))
        f = dict(i=i, void=void, body=body, loops=self.loops,
                 rets=self.has(body, 'return'))
        self.infunc = None
        self.loops = 0
        self.nb = save
        return f

    def has(self, body, what):
        for s in body:
            if s[0] == what:
                return True
            if s[0] == 'if' and (any(self.has(b, what) for _, b in s[1]) or
                                 (s[2] and self.has(s[2], what))):
                return True
            if s[0] == 'while' and self.has(s[4], what):
                return True
        return False

    def var(self):
        return self.r.choice(self.scope)

    def set_(self):
        r = self.r
        v = self.var()
        x = r.random()
        if x < .15:
            return ('setc', v, r.randint(0, 9), r.random() < .5)
        if x < .3:
            return ('load', v, r.randint(0, 1))
        ops = ['add', 'max', 'min'] + (['sub'] if self.kind != 'u' else [])
        return ('set', v, r.choice(ops), self.var(), self.var(), r.random() < .5)

    def cond(self, depth=0):
        r = self.r
        if depth == 0 and self.feature == 'condstore' and not self.infunc and \
                self.funcs and r.random() < .4:
            c = ('cmpf', r.choice(list(OPS)), 0, self.var(), self.var(), self.var())
            return c if r.random() < .8 else ('not', c, False)
        x = r.random()
        if depth < 2 and x < .25:
            return (r.choice(['and', 'or']), self.cond(depth + 1),
                    self.cond(depth + 1), r.random() < .5)
        if depth < 2 and x < .33:
            return ('not', self.cond(depth + 1), r.random() < .5)
        if self.nb and x < .5:
            return ('bool', r.randrange(self.nb))
        if x < .45 and self.feature == 'uniform' and not self.infunc:
            return ('flag',)
        if (x < .6 and self.feature == 'loadcond' or x < .36) and not self.infunc:
            return ('cmpl', r.choice(list(OPS)), r.randint(0, 1), self.var())
        if x < .6 and self.funcs and not self.infunc and not self.funcs[0]['void'] \
                and self.feature != 'condstore':
            return ('cmpf', r.choice(list(OPS)), 0, self.var(), self.var(), self.var())
        if x < .7:
            return ('cmpc', r.choice(list(OPS)), self.var(), r.choice(self.consts))
        return ('cmp', r.choice(list(OPS)), self.var(), self.var(), r.random() < .5)

    def block(self, depth, loop, ret, lo, hi):
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            out.append(self.stmt(depth, loop, ret))
        return out

    def stmt(self, depth, loop, ret):
        r = self.r
        x = r.random()
        if depth > 0:
            wl = .3 if self.feature in ('loop', 'nest', 'mix', 'return') else .15
            if x < wl:
                c = self.loops
                self.loops += 1
                lim = (self.var(), r.randint(1, 5))
                extra = self.cond(1) if r.random() < .4 else None
                body = self.block(depth - 1, True, ret, 1, 4)
                return ('while', c, lim, extra, body)
            if x < wl + .35:
                arms = [(self.cond(), self.block(depth - 1, loop, ret, 1, 3))]
                ne = r.choice([0, 0, 1, 2]) if self.feature != 'elseif' else r.choice([1, 2, 3])
                for _ in range(ne):
                    arms.append((self.cond(), self.block(depth - 1, loop, ret, 1, 3)))
                els = self.block(depth - 1, loop, ret, 1, 3) if r.random() < .5 else None
                return ('if', arms, els)
        x = r.random()
        if loop and x < .28:
            return ('guard', self.cond(), r.choice(['break', 'continue']))
        if loop and x < .33:
            return (r.choice(['break', 'continue']),)
        if ret and x < (.45 if self.feature in ('return', 'valret', 'voiddev') else .36):
            return ('guard', self.cond(), 'return') if r.random() < .7 else ('return',)
        if self.nb and x < .55 and not self.infunc:
            y = r.random()
            if y < .15:
                return ('setbl', r.randrange(self.nb), r.random() < .5)
            return ('setb', r.randrange(self.nb), self.cond())
        if x < .6 and not self.infunc:
            return ('store', self.var())
        if x < .75 and self.funcs and not self.infunc:
            f = r.choice(self.funcs)
            if f['void']:
                return ('callv', f['i'], self.var(), self.var())
            return ('call', self.var(), f['i'], self.var(), self.var())
        return self.set_()

    # -- text ---------------------------------------------------------------
    def lit(self, c):
        """a literal of the program's type usable where a value is expected"""
        return '%d.0f' % c if self.kind == 'f' else '%d' % c

    def kcond(self, c, v='x'):
        t = c[0]
        if t in ('and', 'or'):
            a, b = self.kcond(c[1], v), self.kcond(c[2], v)
            if c[3]:
                return '(%s %s %s)' % (a, '&&' if t == 'and' else '||', b)
            return '(%s %s %s)' % (b, '&&' if t == 'and' else '||', a)
        if t == 'not':
            return '(!%s)' % self.kcond(c[1], v)
        if t == 'bool':
            return 'b%d' % c[1]
        if t == 'flag':
            return 'k_to_bool(flag)'
        if t == 'cmpl':
            return 'k_%s(k_load(in%d), %s%d)' % (c[1], c[2], v, c[3])
        if t == 'cmpf':
            return 'k_%s(%s, %s%d)' % (c[1], self.call(c[2], '%s%d' % (v, c[3]), '%s%d' % (v, c[4])), v, c[5])
        if t == 'cmpc':
            if self.type == 'f16':
                return 'k_%s(%s%d, c%d)' % (c[1], v, c[2], c[3])
            return '(%s%d %s %s)' % (v, c[2], OPS[c[1]], self.lit(c[3]))
        if c[4] and self.type != 'f16':
            return '(%s%d %s %s%d)' % (v, c[2], OPS[c[1]], v, c[3])
        return 'k_%s(%s%d, %s%d)' % (c[1], v, c[2], v, c[3])

    def rcond(self, c, v='x'):
        t = c[0]
        if t in ('and', 'or'):
            # the operands have no effect: evaluating one less is the same
            a, b = self.rcond(c[1], v), self.rcond(c[2], v)
            return '(%s %s %s)' % (a, '&&' if t == 'and' else '||', b)
        if t == 'not':
            return '(!%s)' % self.rcond(c[1], v)
        if t == 'bool':
            return 'b%d' % c[1]
        if t == 'flag':
            return 'flag'
        if t == 'cmpl':
            return '(LD(in%d) %s %s%d)' % (c[2], OPS[c[1]], v, c[3])
        if t == 'cmpf':
            return '(rf%d_%d(A, %s%d, %s%d) %s %s%d)' % (self.k, c[2], v, c[3], v, c[4], OPS[c[1]], v, c[5])
        if t == 'cmpc':
            return '(%s%d %s R(%d))' % (v, c[2], OPS[c[1]], c[3])
        return '(%s%d %s %s%d)' % (v, c[2], OPS[c[1]], v, c[3])

    def call(self, f, a, b):
        if self.tmpl and f == 0:
            return 'spmd_call_tmpl_dev_func(tr_%s, Op, %s, %s)' % (self.id, a, b)
        return 'spmd_call_dev_func(f_%s_%d, %s, %s%s)' % (
            self.id, f, a, b, ', out2' if self.funcs[f].get('store') else '')

    def kernel(self, body, ind, v='x'):
        o = []
        p = '  ' * ind
        for s in body:
            t = s[0]
            if t == 'setc':
                if s[3] and self.type != 'f16':
                    o.append(p + 'k_set(%s%d, %s);' % (v, s[1], self.lit(s[2])))
                else:
                    o.append(p + 'k_set(%s%d, %s);' % (v, s[1], '%d' % s[2] if self.type != 'f16' else self.lit(s[2])))
            elif t == 'load':
                o.append(p + ('k_set(%s%d, k_load(in%d));' % (v, s[1], s[2]) if v == 'x' else 'k_set(%s%d, a%d);' % (v, s[1], s[2])))
            elif t == 'set':
                a, b = '%s%d' % (v, s[3]), '%s%d' % (v, s[4])
                if s[5] and s[2] in ('add', 'sub') and self.type != 'f16':
                    e = '%s %s %s' % (a, '+' if s[2] == 'add' else '-', b)
                else:
                    e = 'k_%s(%s, %s)' % (s[2], a, b)
                o.append(p + 'k_set(%s%d, %s);' % (v, s[1], e))
                if s[2] in ('add', 'sub'):
                    o.append(p + 'k_set(%s%d, k_min(k_max(%s%d, clo), chi));' % (v, s[1], v, s[1]))
            elif t == 'setb':
                o.append(p + 'k_set(b%d, %s);' % (s[1], self.kcond(s[2], v)))
            elif t == 'setbl':
                o.append(p + 'k_set(b%d, %s);' % (s[1], 'true' if s[2] else 'false'))
            elif t == 'store':
                o.append(p + 'k_store(out1, %s%d);' % (v, s[1]))
            elif t == 'call':
                o.append(p + 'k_set(%s%d, %s);' % (v, s[1], self.call(s[2], '%s%d' % (v, s[3]), '%s%d' % (v, s[4]))))
            elif t == 'callv':
                o.append(p + 'spmd_call_dev_func(f_%s_%d, %s%d, %s%d, out2);' % (self.id, s[1], v, s[2], v, s[3]))
            elif t in ('break', 'continue', 'return'):
                o.append(p + 'k_%s;' % t)
            elif t == 'guard':
                o.append(p + 'k_if ((vsim_tick(), %s))' % self.kcond(s[1], v))
                o.append(p + '  k_%s;' % s[2])
                o.append(p + 'k_endif')
            elif t == 'if':
                for j, (c, b) in enumerate(s[1]):
                    o.append(p + 'k_%s ((vsim_tick(), %s))' % ('elseif' if j else 'if', self.kcond(c, v)))
                    o += self.kernel(b, ind + 1, v)
                if s[2]:
                    o.append(p + 'k_else')
                    o += self.kernel(s[2], ind + 1, v)
                o.append(p + 'k_endif')
            elif t == 'while':
                c = 'l%d' % s[1]
                lim = '%s%d' % (v, s[2][0])
                o.append(p + 'k_set(m%d, k_min(%s, n%d));' % (s[1], lim, s[1]))
                o.append(p + 'k_set(%s, c0);' % c)
                cnd = 'k_lt(%s, m%d)' % (c, s[1])
                if s[3]:
                    cnd = '(%s && %s)' % (cnd, self.kcond(s[3], v))
                o.append(p + 'k_while ((vsim_tick(), %s))' % cnd)
                o.append(p + '  k_set(%s, k_add(%s, c1));' % (c, c))
                o += self.kernel(s[4], ind + 1, v)
                o.append(p + 'k_endwhile')
        return o

    def ref(self, body, ind, v='x', val=True):
        o = []
        p = '  ' * ind
        for s in body:
            t = s[0]
            if t == 'setc':
                o.append(p + '%s%d = R(%d);' % (v, s[1], s[2]))
            elif t == 'load':
                o.append(p + ('%s%d = LD(in%d);' % (v, s[1], s[2]) if v == 'x' else '%s%d = a%d;' % (v, s[1], s[2])))
            elif t == 'set':
                a, b = '%s%d' % (v, s[3]), '%s%d' % (v, s[4])
                e = {'add': 'R(%s + %s)', 'sub': 'R(%s - %s)', 'max': 'rf_max(%s, %s)', 'min': 'rf_min(%s, %s)'}[s[2]] % (a, b)
                if s[2] in ('add', 'sub'):
                    e = 'rf_min(rf_max(%s, R(%s)), R(20))' % (e, '0' if self.kind == 'u' else '-20')
                o.append(p + '%s%d = %s;' % (v, s[1], e))
            elif t == 'setb':
                o.append(p + 'b%d = %s;' % (s[1], self.rcond(s[2], v)))
            elif t == 'setbl':
                o.append(p + 'b%d = %s;' % (s[1], 'true' if s[2] else 'false'))
            elif t == 'store':
                o.append(p + 'ST(out1, %s%d);' % (v, s[1]))
            elif t == 'call':
                o.append(p + '%s%d = rf%d_%d(A, %s%d, %s%d);' % (v, s[1], self.k, s[2], v, s[3], v, s[4]))
            elif t == 'callv':
                o.append(p + 'rf%d_%d(A, %s%d, %s%d);' % (self.k, s[1], v, s[2], v, s[3]))
            elif t == 'return':
                o.append(p + ('return%s;' % val if val else 'return;'))
            elif t in ('break', 'continue'):
                o.append(p + t + ';')
            elif t == 'guard':
                o.append(p + 'if (T && %s) %s;' % (self.rcond(s[1], v), ('return%s' % (val or '')) if s[2] == 'return' else s[2]))
            elif t == 'if':
                for j, (c, b) in enumerate(s[1]):
                    o.append(p + '%sif (T && %s) {' % ('else ' if j else '', self.rcond(c, v)))
                    o += self.ref(b, ind + 1, v, val)
                    o.append(p + '}')
                if s[2]:
                    o.append(p + 'else {')
                    o += self.ref(s[2], ind + 1, v, val)
                    o.append(p + '}')
            elif t == 'while':
                o.append(p + 'm%d = rf_min(%s%d, R(%d)); l%d = 0;' % (s[1], v, s[2][0], s[2][1], s[1]))
                c = 'l%d < m%d' % (s[1], s[1])
                if s[3]:
                    c += ' && %s' % self.rcond(s[3], v)
                o.append(p + 'while (T && (%s)) {' % c)
                o.append(p + '  l%d = R(l%d + 1);' % (s[1], s[1]))
                o += self.ref(s[4], ind + 1, v, val)
                o.append(p + '}')
        return o

    def limits(self, body):
        for s in body:
            if s[0] == 'while':
                yield s[1], s[2][1]
                for x in self.limits(s[4]):
                    yield x
            elif s[0] == 'if':
                for _, b in s[1]:
                    for x in self.limits(b):
                        yield x
                for x in self.limits(s[2] or []):
                    yield x

    def locals(self, body, loops, consts):
        """declarations common to kernels and device functions"""
        o, q = [], []
        f = self.type == 'f16' or self.kind == 'f'
        L = lambda x: ('%d.0f' % x) if f else '%d' % x
        o.append('  %s clo, chi; k_set(clo, %s); k_set(chi, %s);' % (self.K, L(0 if self.kind == 'u' else -20), L(20)))
        for c in consts:
            o.append('  %s c%d; k_set(c%d, %s);' % (self.K, c, c, L(c)))
        for i, m in self.limits(body):
            o.append('  %s l%d, m%d, n%d; k_set(l%d, c0); k_set(m%d, c0); k_set(n%d, %s);' % (self.K, i, i, i, i, i, i, L(m)))
            q.append('  R l%d = 0, m%d = 0; (void)l%d; (void)m%d;' % (i, i, i, i))
        o.append('  (void)clo; (void)chi; ' + ' '.join('(void)c%d;' % c for c in consts))
        return o, q

    def text(self, ident, backend):
        self.id = ident
        gpu = backend in ('cuda', 'rocm', 'oneapi')
        if gpu and self.cpu_only:
            return None
        K, T, r = self.K, self.type, []
        k = self.k
        o = ['// program %s: %s, %s, unroll %d' % (ident, self.feature, T, self.unroll)]
        R = {'f16': 'float'}.get(T, T)
        o += ['namespace {', '#define R %s' % R]
        # device functions
        for f in self.funcs:
            d, q = self.locals(f['body'], f['loops'], self.consts)
            sig = '%s a0, %s a1' % (K, K)
            if f['void']:
                o.append('spmd_dev_func(void f_%s_%d, %s, %s *out2)' % (ident, f['i'], sig, T))
            else:
                o.append('spmd_dev_func(%s f_%s_%d, %s%s)' % (
                    K, ident, f['i'], sig, ', %s *out2' % T if f.get('store') else ''))
            o += d
            o.append('  %s y0, y1, y2; k_set(y0, a0); k_set(y1, a1); k_set(y2, c1);' % K)
            o += self.kernel(f['body'], 1, 'y')
            if f['void'] or f.get('store'):
                o.append('  k_store(out2, y0);')
            if not f['void']:
                o.append('  return y0;')
            o.append('spmd_dev_func_end')
            o.append('static %s rf%d_%d(Arg &A, R a0, R a1) {' % ('void' if f['void'] else 'R', k, f['i']))
            o += q
            o.append('  R y0 = a0, y1 = a1, y2 = 1; (void)y0; (void)y1; (void)y2;')
            o += self.ref(f['body'], 1, 'y', '' if f['void'] else ' y0')
            if f['void'] or f.get('store'):
                o.append('  ST(out2, y0);')
            if not f['void']:
                o.append('  return y0;')
            o.append('}')
        if self.tmpl:
            if self.funcs and not self.funcs[0]['void']:
                o += ['struct op_%s {' % ident,
                      '  spmd_dev_func(static %s dev_impl, %s a, %s b)' % (K, K, K),
                      '    return spmd_call_dev_func(f_%s_0, a, b);' % ident,
                      '  spmd_dev_func_end', '};',
                      'spmd_tmpl_dev_func(%s tr_%s, Op, %s a, %s b)' % (K, ident, K, K),
                      '  return Op::template spmd_call_dev_func(dev_impl, a, b);',
                      'spmd_dev_func_end']
            else:
                o.append('struct op_%s {};' % ident)
        args = '%s *out0, %s *out1, %s *out2, %s *cnt, %s *in0, %s *in1, bool flag' % ((T,) * 6)
        if self.tmpl:
            o.append('spmd_tmpl_kernel_1d(k_%s, Op, %s)' % (ident, args))
        else:
            o.append('spmd_kernel_1d(k_%s, %s)' % (ident, args))
        d, q = self.locals(self.body, self.loops, self.consts)
        o += d
        o.append('  (void)flag; (void)out1; (void)out2;')
        o.append('  k_store(cnt, k_add(k_load(cnt), c1));')
        for i in range(self.nv):
            o.append('  %s x%d; k_set(x%d, %s);' % (K, i, i, 'k_load(in%d)' % i if i < 2 else 'c%d' % self.consts[i % len(self.consts)]))
        for i in range(self.nb):
            o.append('  k_bool b%d; k_set(b%d, k_lt(x0, x1));' % (i, i))
        o += self.kernel(self.body, 1)
        o.append('  k_store(out0, x0);')
        o.append('spmd_kernel_end')
        # launch: the caller's names are chosen to collide with careless macros
        o += ['static void launch_%s(long len, int tpb, void **a, bool flag) {' % ident,
              '  %s *q = (%s *)a[0], *item = (%s *)a[1], *param = (%s *)a[2], *total_num_threads = (%s *)a[3], *in0 = (%s *)a[4], *i = (%s *)a[5];' % ((T,) * 7)]
        par = 'tpb' if gpu else str(self.unroll)
        if self.tmpl:
            # the CPU macro needs a dependent context
            o.insert(len(o) - 2, 'template <typename Op_>')
            o.append('  (void)tpb; spmd_launch_tmpl_kernel_1d(k_%s, Op_, %d, %s, len, q, item, param, total_num_threads, in0, i, flag);' % (ident, self.width, par))
        else:
            o.append('  (void)tpb; spmd_launch_kernel_1d(k_%s, %d, %s, len, q, item, param, total_num_threads, in0, i, flag);' % (ident, self.width, par))
        o.append('}')
        # reference for one item
        o.append('static void ref_%s(Arg &A, bool flag) {' % ident)
        o += q
        o.append('  (void)flag; ST(cnt, R(LD(cnt) + 1));')
        for i in range(self.nv):
            o.append('  R x%d = %s; (void)x%d;' % (i, 'LD(in%d)' % i if i < 2 else 'R(%d)' % self.consts[i % len(self.consts)], i))
        for i in range(self.nb):
            o.append('  bool b%d = x0 < x1;' % i)
        o += self.ref(self.body, 1, 'x', '')
        o.append('  ST(out0, x0);')
        o.append('}')
        o += ['#undef R', '}']
        self.entry = '  {"%s", "%s", %d, %d, launch_%s%s, ref_%s},' % (
            '%s/%s' % (ident, self.feature), T, self.width, self.unroll, ident,
            '<op_%s>' % ident if self.tmpl else '', ident)
        return '\n'.join(o)


HEAD = '''#include "spmdsim.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/spmd.hpp>
#define in0 0
#undef in0
namespace {
template <typename S> struct Ld { static S ld(const void *p, long i) { S x; memcpy(&x, (const char *)p + i * (long)sizeof(S), sizeof x); return x; } static void st(void *p, long i, S x) { memcpy((char *)p + i * (long)sizeof(S), &x, sizeof x); } };
struct Half {};
template <> struct Ld<Half> { static float ld(const void *p, long i) { unsigned short u; memcpy(&u, (const char *)p + i * 2, 2); return vsim_h2f(u); } static void st(void *p, long i, float x) { unsigned short u = vsim_f2h(x); memcpy((char *)p + i * 2, &u, 2); } };
template <typename S> S rf_min(S a, S b) { return b < a ? b : a; }
template <typename S> S rf_max(S a, S b) { return a < b ? b : a; }
typedef SpmdArg Arg;
}
#define LD(a) Ld<S_>::ld(A.a, A.i)
#define ST(a, v) (Ld<S_>::st(A.a, A.i, v), (void)(A.a##_w = true))
#define T (A.ticks++, true)
'''


def emit(seed, first, count, backend, name, straight=False):
    o, ent = [HEAD], []
    for k in range(first, first + count):
        p = Prog(seed, k, straight)
        t = p.text('%s%d' % ('s' if straight else 'p', k), backend)
        if t is None:
            continue
        o.append('#define S_ %s\n%s\n#undef S_' % ('Half' if p.type == 'f16' else p.type, t.replace('#undef R\n}', '#undef R\n}')))
        ent.append(p.entry)
    o.append('#undef T')
    o.append('extern const SpmdCase %s[] = {\n%s\n  {0, 0, 0, 0, 0, 0}};' % (name, '\n'.join(ent)))
    return '\n'.join(o)


if __name__ == '__main__':
    print(emit(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4],
               'spmd_cases_0', len(sys.argv) > 5))
