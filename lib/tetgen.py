"""Generator of array-expression programs (TET1D) and of their meaning for one
element.  All values stay small integers, exact in every type."""
import random

TYPES = ['i8', 'u8', 'i16', 'u16', 'f16', 'i32', 'u32', 'f32', 'i64', 'u64', 'f64']
CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
SIZES = ['n', '(int)n', '(size_t)n', '(short)n', '(unsigned)n']


class Prog:
    def __init__(self, seed, k):
        self.r = r = random.Random('tet-%d-%d' % (seed, k))
        self.k = k
        self.type = TYPES[(k * 7 + k // 11) % 11]
        self.kind = self.type[0]
        self.width = int(self.type[1:])
        self.unroll = r.choice([1, 1, 1, 2, 3])
        self.sliced = k % 4 == 1 or r.random() < .15
        self.plain = r.random() < .2
        self.maskself = False       # elements no mask selects may be read
        self.masked = 0
        self.use_slice = False
        self.pre = []               # declarations before the statements
        self.names = 0
        self.reads = set()
        self.stmts = [self.stmt(j) for j in range(r.choice([1, 1, 2, 2, 3]))]
        if self.sliced and not self.use_slice:
            # make it so
            d, q = self.leaf('in2')
            self.stmts.append(('out1', None, self.clamp((d, q)), False))

    # expressions are pairs (DSL text, reference text)
    def name(self):
        self.names += 1
        return 'v%d' % self.names

    def leaf(self, what=None):
        r = self.r
        ops = ['in0', 'in0', 'in1', 'in1', 'out', 'out1'] + (['in2'] * 4 if self.sliced else [])
        w = what or r.choice(ops)
        self.reads.add(w)
        sz = r.choice(SIZES)
        if w == 'in2':
            self.use_slice = True
            c = {'(size_t)n': '(long)n', '(unsigned)n': '(int)n'}.get(sz, sz)
            b = 'tet1d::in(in2, %sm)' % c[:-1]
            x = r.random()
            if x < .4:
                b += r.choice(['(A.s, A.e)', '((int)A.s, A.e)'])
            elif x < .7:
                b += '(A.s, tet1d::end - A.t)'
            elif x < .85:
                b += '(A.s, A.e)(0, tet1d::end)'
            else:
                b += '(0, A.e)(A.p, tet1d::end)'
            return b, 'LD(in2)'
        b = 'tet1d::in(%s, %s)' % (w, sz)
        if r.random() < .3:
            v = self.name()
            self.pre.append('TET1D_IN(%s) %s = %s;' % (self.type, v, b))
            b = v
        return b, 'LD(%s)' % w

    def lit(self, c):
        return 'lit_%s(%d)' % (self.type, c)

    def expr(self, depth):
        r = self.r
        x = r.random()
        if depth == 0 or x < .12:
            return self.leaf()
        if x < .45:
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            if r.random() < .5:
                return '(%s + %s)' % (a[0], b[0]), 'add(%s, %s)' % (a[1], b[1])
            return 'tet1d::add(%s, %s)' % (a[0], b[0]), 'add(%s, %s)' % (a[1], b[1])
        if x < .55:
            o = r.choice(['min', 'max'] + (['sub'] if self.kind != 'u' else []))
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            return 'tet1d::%s(%s, %s)' % (o, a[0], b[0]), '%s(%s, %s)' % (o, a[1], b[1])
        if x < .75:                 # a broadcast scalar on either side
            a, c = self.expr(depth - 1), r.randint(0, 5)
            op, f = r.choice([('+', 'add')] + ([('-', 'sub')] if self.kind != 'u' else []) +
                             ([('*', 'mul')] if c <= 2 else []))
            s = r.choice(['%d' % c, '%dl' % c, '%d.0' % c, '(short)%d' % c] +
                         ([self.lit(c)] if self.type != 'f16' else []))
            if r.random() < .5:
                t = '(%s %s %s)' % (a[0], op, s) if r.random() < .7 else \
                    'tet1d::%s(%s, %s)' % (f, a[0], self.lit(c))
                return t, '%s(%s, %d)' % (f, a[1], c)
            t = '(%s %s %s)' % (s, op, a[0]) if r.random() < .7 else \
                'tet1d::%s(%s, %s)' % (f, self.lit(c), a[0])
            return t, '%s(%d, %s)' % (f, c, a[1])
        if x < .86:                 # three operands, up to two of them scalars
            a = [self.expr(depth - 1), None, None]
            a[1] = (self.lit(r.randint(0, 2)), None)
            a[2] = (self.lit(r.randint(0, 5)), None) if r.random() < .5 else self.expr(depth - 1)
            q = [y[1] if y[1] else y[0].split('(')[1][:-1] for y in a]
            i = [0, 1, 2]
            if r.random() < .5:
                i = [1, 0, 2]
            return 'tet1d::fma(%s)' % ', '.join(a[j][0] for j in i), \
                'add(mul(%s, %s), %s)' % (q[0], q[1], q[2])
        if x < .93 and self.kind != 'u':
            a = self.expr(depth - 1)
            o = r.choice(['neg', 'abs'])
            if o == 'neg' and r.random() < .5:
                return '(-%s)' % a[0], 'neg(%s)' % a[1]
            return 'tet1d::%s(%s)' % (o, a[0]), '%s(%s)' % (o, a[1])
        if self.width >= 16:        # through another type and back
            o = ('i' if self.kind == 'f' else 'f') + self.type[1:]
            if self.kind == 'u':
                o = 'f' + self.type[1:]
            a = self.expr(depth - 1)
            return 'tet1d::cvt<%s>(tet1d::cvt<%s>(%s))' % (self.type, o, a[0]), a[1]
        return self.expr(depth - 1)

    def cond(self, depth):
        r = self.r
        if depth and r.random() < .4:
            a, b = self.cond(depth - 1), self.cond(depth - 1)
            o, s, c = r.choice([('andl', '&&', '&&'), ('orl', '||', '||'), ('xorl', None, '!='),
                                ('andnotl', None, '&& !')])
            q = '(%s %s(%s))' % (a[1], c, b[1]) if c == '&& !' else '(%s %s %s)' % (a[1], c, b[1])
            if s and r.random() < .5:
                return '(%s %s %s)' % (a[0], s, b[0]), q
            return 'tet1d::%s(%s, %s)' % (o, a[0], b[0]), q
        if depth and r.random() < .15:
            a = self.cond(depth - 1)
            return ('(!%s)' if r.random() < .5 else 'tet1d::notl(%s)') % a[0], '!%s' % a[1]
        a = self.expr(1)
        o = r.choice(list(CMP))
        if r.random() < .6:
            c = r.randint(0, 7)
            if r.random() < .7:
                return '(%s %s %d)' % (a[0], CMP[o], c), '(%s %s %d)' % (a[1], CMP[o], c)
            return 'tet1d::%s(%s, %s)' % (o, a[0], self.lit(c)), '(%s %s %d)' % (a[1], CMP[o], c)
        b = self.expr(r.choice([0, 1]))
        return ('(%s %s %s)' % (a[0], CMP[o], b[0]) if r.random() < .5 else
                'tet1d::%s(%s, %s)' % (o, a[0], b[0])), '(%s %s %s)' % (a[1], CMP[o], b[1])

    def clamp(self, e):
        c = self.r.randint(5, 15)
        d, q = 'tet1d::min(%s, %s)' % (e[0], self.lit(c)), 'min(%s, %d)' % (e[1], c)
        if self.kind != 'u':
            d, q = 'tet1d::max(%s, %s)' % (d, self.lit(-c)), 'max(%s, %d)' % (q, -c)
        return d, q

    def stmt(self, j):
        r = self.r
        self.reads = set()
        o = r.choice(['out', 'out', 'out1'])
        m = None
        if r.random() < .5:
            m = self.cond(r.choice([0, 1, 2]))
            self.masked += 1
            if self.reads & {'out', 'out1'}:
                self.maskself = True
            self.reads = set()
        if m and r.random() < .3:
            c = r.randint(0, 9)
            return o, m, (r.choice(['%d', '%d.0', '(short)%d']) % c, str(c)), True
        e = self.expr(r.choice([0, 1, 2, 3]))
        simple = r.random() < .15 and not m
        if self.reads & ({'out', 'out1'} - ({o} if m else set())):
            self.maskself = True
        # a plain copy needs no bound
        return o, m, e if e[1].startswith('LD') and simple else self.clamp(e), False

    def text(self, ident):
        r, t = self.r, self.type
        args = ['out', 'out1', 'in0', 'in1', 'in2']
        o = ['namespace { namespace %s {' % ident,
             'void go(TetArg const &A) {', '  nsimd::nat n = A.n, m = A.m; (void)n; (void)m;']
        for i, a in enumerate(args):
            o.append('  %s *%s = (%s *)A.a[%d]; (void)%s;' % (t, a, t, i, a))
        o += ['  ' + p for p in self.pre]
        for out, m, e, lit in self.stmts:
            z = 'tet1d::out(%s)' % out if self.plain else \
                'tet1d::out<%s, nsimd::pack<%s, %d> >(%s, A.block, A.stream)' % (t, t, self.unroll, out)
            if r.random() < .4:
                v = self.name()
                o.append('  tet1d::node<tet1d::out_t, tet1d::none_t, tet1d::none_t, nsimd::pack<%s%s> > %s = %s;' %
                         (t, '' if self.plain else ', %d' % self.unroll, v, z))
                z = v
            o.append('  %s%s = %s;' % (z, '(%s)' % m[0] if m else '', e[0]))
        o += ['}', 'void ref(TetRef &A) {', '  typedef Ref<%s> R; (void)sizeof(R);' % ('half_' if t == 'f16' else t)]
        for out, m, e, lit in self.stmts:
            f = lambda s: s.replace('LD(', 'R::ld(A, A.').replace('add(', 'R::add(').replace('sub(', 'R::sub(') \
                .replace('mul(', 'R::mul(').replace('min(', 'R::min(').replace('max(', 'R::max(') \
                .replace('neg(', 'R::neg(').replace('abs(', 'R::abs(')
            o.append('  %sR::st(A, A.%s, %s), A.%s_w = true;' % (
                'if (%s) ' % f(m[1]) if m else '', out, f(e[1]), out))
        o += ['}', '} }']
        self.entry = '  {"%s", "%s", "%s", %d, %d, %d, %d, %d, %s::go, %s::ref},' % (
            ident, self.show(), t, self.width, self.unroll, self.sliced, self.plain,
            1 if self.masked and not self.maskself else 0, ident, ident)
        return '\n'.join(o)

    def show(self):
        return '; '.join('%s%s = %s' % (o, '(%s)' % m[0] if m else '', e[0])
                         for o, m, e, _ in self.stmts).replace('"', '')


HEAD = '''#include "tetsim.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/tet1d.hpp>
namespace {
#if defined(NSIMD_CUDA) || defined(NSIMD_ROCM)
#define lit_f16(x) __float2half((float)(x))
#elif defined(NSIMD_ONEAPI)
#define lit_f16(x) f16((float)(x))
#else
#define lit_f16(x) nsimd_f32_to_f16((float)(x))
#endif
''' + ''.join('#define lit_%s(x) ((%s)(x))\n' % (t, t) for t in TYPES if t != 'f16') + '''
struct half_ {};
template <typename S> struct Mem_ {
  static long long ld(const void *p, long i) { S x; memcpy(&x, (const char *)p + i * (long)sizeof(S), sizeof x); return (long long)x; }
  static void st(void *p, long i, long long v) { S x = (S)v; memcpy((char *)p + i * (long)sizeof(S), &x, sizeof x); }
  static long long wrap(long long v) { return (long long)(S)v; }
};
template <> struct Mem_<half_> {
  static long long ld(const void *p, long i) { unsigned short u; memcpy(&u, (const char *)p + i * 2, 2); return (long long)vsim_h2f(u); }
  static void st(void *p, long i, long long v) { unsigned short u = vsim_f2h((float)v); memcpy((char *)p + i * 2, &u, 2); }
  static long long wrap(long long v) { return v; }
};
template <typename S> struct Ref {
  typedef long long L;
  static L ld(TetRef &A, const void *p) { return Mem_<S>::ld(p, p == A.in2 ? A.i2 : A.i); }
  static void st(TetRef &A, void *p, L v) { Mem_<S>::st(p, A.i, v); }
  static L add(L a, L b) { return Mem_<S>::wrap(a + b); }
  static L sub(L a, L b) { return Mem_<S>::wrap(a - b); }
  static L mul(L a, L b) { return Mem_<S>::wrap(a * b); }
  static L neg(L a) { return Mem_<S>::wrap(-a); }
  static L abs(L a) { return a < 0 ? Mem_<S>::wrap(-a) : a; }
  static L min(L a, L b) { return a < b ? a : b; }
  static L max(L a, L b) { return a > b ? a : b; }
};
}
'''


def emit(seed, first, count, sym):
    o, ent = [HEAD], []
    for k in range(first, first + count):
        p = Prog(seed, k)
        o.append(p.text('e%d' % k))
        ent.append(p.entry)
    o.append('extern const TetCase %s[];\nconst TetCase %s[] = {\n%s\n  {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}};' %
             (sym, sym, '\n'.join(ent)))
    return '\n'.join(o)


if __name__ == '__main__':
    import sys
    print(emit(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), 'tet_cases_0'))
