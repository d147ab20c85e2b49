"""Generated kernels and array expressions for C11: every exactly specified
operation for every type, in both DSLs, and seeded expression trees of them.

A case travels to the engine as a postfix program; the engine evaluates that
program with its own arithmetic, one item at a time."""
import random

TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f16', 'f32', 'f64']
K = {'i': 'k_int', 'u': 'k_uint', 'f': 'k_float'}
BIN = ['add', 'sub', 'mul', 'min', 'max', 'adds', 'subs', 'orb', 'andb', 'andnotb', 'xorb']
UN = ['neg', 'abs', 'notb', 'ceil', 'floor', 'trunc', 'round_to_even']
FUN = ['sqrt', 'rec']
TER = ['fma', 'fnma', 'fms', 'fnms']
CMP = ['eq', 'ne', 'gt', 'ge', 'lt', 'le']
LBIN = ['orl', 'andl', 'andnotl', 'xorl']
SHIFT = ['shl', 'shr', 'shra']
INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'orb': '|', 'andb': '&', 'xorb': '^',
         'orl': '||', 'andl': '&&', 'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<',
         'le': '<=', 'shl': '<<', 'shr': '>>', 'neg': '-', 'notb': '~', 'notl': '!'}


def same(t):
    return [x for x in TYPES if x[1:] == t[1:]]


class N:
    """op, children, type (of the value, or of the items compared)"""

    def __init__(self, op, kids, t, logical=False, arg=None):
        self.op, self.kids, self.t, self.logical, self.arg = op, kids, t, logical, arg

    def post(self):
        return ''.join(k.post() for k in self.kids) + \
            (self.op + ':' + (self.arg + '/' if self.arg else '') + self.t) + ' '


def leaf(x, t):
    return N(x, [], t)


def has_load(n):
    return (n.op in 'abcd' and not n.kids) or any(has_load(k) for k in n.kids)


def spmd(n):
    if n.op in 'abcd' and not n.kids:
        return 'k_load(%s)' % n.op
    if n.op == 'lit':
        return 'lit_%s(%s)' % (n.t, n.arg)
    a = [spmd(k) for k in n.kids]
    if n.op in SHIFT:
        return 'k_%s(%s, s)' % (n.op, a[0])
    if n.op in ('cvt', 'reinterpret', 'to_mask'):
        return 'k_%s(%s, %s)' % (n.op, K[n.t[0]], a[0])
    return 'k_%s(%s)' % (n.op, ', '.join(a))


def tet(n, r):
    if n.op in 'abcd' and not n.kids:
        return 'tet1d::in(%s, n)' % n.op
    if n.op == 'lit':
        return 'lit_%s(%s)' % (n.t, n.arg)
    # a literal beside an infix operator is written as a plain number
    infix = n.op in INFIX and r.random() < .5
    a = [(k.arg if infix and k.op == 'lit' else tet(k, r)) for k in n.kids]
    if n.op in SHIFT:
        return '(%s %s s)' % (a[0], INFIX[n.op]) if infix and 0 else 'tet1d::%s(%s, s)' % (n.op, a[0])
    if n.op in ('cvt', 'reinterpret'):
        return 'tet1d::%s<%s>(%s)' % (n.op, n.t, a[0])
    if infix and len(a) == 2:
        return '(%s %s %s)' % (a[0], INFIX[n.op], a[1])
    if infix and len(a) == 1:
        return '(%s%s)' % (INFIX[n.op], a[0])
    return 'tet1d::%s(%s)' % (n.op, ', '.join(a))


def singles(t):
    a, b, c, d = [leaf(x, t) for x in 'abcd']
    f = t[0] == 'f'
    out = [N(o, [a, b], t) for o in BIN] + [N('div', [a, d], t)]
    out += [N(o, [a], t) for o in UN + (FUN if f else [])]
    out += [N(o, [a, b, c], t) for o in TER]
    out += [N(o, [a, b], t, True) for o in CMP]
    la, lb = N('lt', [a, b], t, True), N('ge', [b, c], t, True)
    out += [N(o, [la, lb], t, True) for o in LBIN] + [N('notl', [la], t, True)]
    out += [N('to_mask', [la], t), N('to_logical', [a], t, True)]
    if not f:
        out += [N(o, [a], t) for o in SHIFT]
    for u in same(t):
        out += [N('reinterpret', [a], u)] + ([N('cvt', [a], u)] if u != t else [])
    return out


def tree(r, t, depth, lit, base):
    """a value of type t; the arrays hold base"""
    if depth == 0 or r.random() < .12:
        if lit and r.random() < .15:
            return N('lit', [], t, arg=str(r.randint(1, 9)))
        x = leaf(r.choice('abcd'), base)
        return x if t == base else N('reinterpret', [x], t)
    sub = lambda u=t, l=True: tree(r, u, depth - 1, l, base)
    f = t[0] == 'f'
    while True:
        p = r.random()
        if p < .45:
            x, y = sub(), sub()
            if not has_load(x) and not has_load(y):
                continue
            return N(r.choice(BIN), [x, y], t)
        if p < .52:
            if t != base:
                continue
            return N('div', [sub(l=False), leaf('d', t)], t)
        if p < .66:
            x = sub(l=False)
            return N(r.choice(UN + (FUN if f else [])), [x], t) if has_load(x) else x
        if p < .76:
            return N(r.choice(TER), [sub(l=False), sub(l=False), sub(l=False)], t)
        if p < .84:
            if f:
                continue
            return N(r.choice(SHIFT), [sub(l=False)], t)
        if p < .92:
            u = r.choice(same(t))
            return N(r.choice(['reinterpret', 'cvt']) if u != t else 'reinterpret',
                     [sub(u, False)], t)
        return N('to_mask', [ltree(r, t, depth - 1, base)], t)


def ltree(r, t, depth, base):
    if depth > 0 and r.random() < .45:
        x = ltree(r, t, depth - 1, base)
        if r.random() < .25:
            return N('notl', [x], t, True)
        return N(r.choice(LBIN), [x, ltree(r, t, depth - 1, base)], t, True)
    d = max(0, depth - 1)
    if r.random() < .15:
        return N('to_logical', [tree(r, t, d, False, base)], t, True)
    return N(r.choice(CMP), [tree(r, t, d, False, base), tree(r, t, d, True, base)], t, True)


def cases(seed, t, dsl, trees, all_ops):
    """(node, unroll); deterministic in its arguments"""
    r = random.Random('%d %s %s %d' % (seed, t, dsl, trees))
    out = [(n, 1) for i, n in enumerate(singles(t))
           if all_ops or (i + (dsl == 'tet1d') + seed) % 2 == 0]
    for _ in range(trees):
        while True:
            n = ltree(r, t, 2, t) if r.random() < .3 else tree(r, t, r.choice([2, 2, 3]), True, t)
            if n.kids and has_load(n):
                break
        out.append((n, r.choice([1, 1, 2, 3])))
    return out


HEAD = '''#include "valsim.hpp"
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/spmd.hpp>
#include <nsimd/modules/tet1d.hpp>
namespace {
#define lit_f16(x) VLIT(x)
#if defined(NSIMD_CUDA) || defined(NSIMD_ROCM)
#define VLIT(x) __float2half((float)(x))
#elif defined(NSIMD_ONEAPI)
#define VLIT(x) f16((float)(x))
#else
#define VLIT(x) nsimd_f32_to_f16((float)(x))
#endif
''' + ''.join('#define lit_%s(x) ((%s)(x))\n' % (t, t) for t in TYPES if t != 'f16') + '}\n'


def emit(seed, t, trees, sym, all_ops):
    src, rows = [HEAD], []
    for dsl in ('spmd', 'tet1d'):
        rr = random.Random('%d %s %s emit' % (seed, t, dsl))
        for i, (n, unroll) in enumerate(cases(seed, t, dsl, trees, all_ops)):
            name = '%s_%s_%d' % (dsl, t, i)
            ot = t if n.logical else n.t
            cast = '%s *a = (%s *)p[1], *b = (%s *)p[2], *c = (%s *)p[3], *d = (%s *)p[4];' \
                % (t, t, t, t, t)
            void = ' (void)a; (void)b; (void)c; (void)d; (void)s; (void)tpb;'
            if dsl == 'spmd':
                e = spmd(n)
                body = '  k_if (%s)\n    k_store(out, k_load(a));\n  k_else\n    k_store(out, k_load(b));\n  k_endif\n' % e \
                    if n.logical else '  k_store(out, %s);\n' % e
                src.append('namespace {\nspmd_kernel_1d(k_%s, %s *out, %s *a, %s *b, %s *c, %s *d, int s)\n'
                           '  (void)a; (void)b; (void)c; (void)d; (void)s;\n%s'
                           'spmd_kernel_end\n' % (name, ot, t, t, t, t, body))
                src.append('void go_%s(long n, int tpb, void **p, int s) {\n  %s *out = (%s *)p[0]; %s%s\n'
                           '  spmd_launch_kernel_1d(k_%s, %s, %s, n, out, a, b, c, d, s);\n}\n}\n' %
                           (name, ot, ot, cast, void, name, t[1:],
                            'VTPB(%d)' % unroll))
            else:
                e = tet(n, rr)
                o = ('tet1d::out<%s, nsimd::pack<%s, %d> >(out, tpb, (void *)0)' % (ot, ot, unroll))
                if n.logical:
                    body = '  tet1d::node<tet1d::out_t, tet1d::none_t, tet1d::none_t, nsimd::pack<%s, %d> > z = %s;\n' \
                           '  z = tet1d::in(b, n);\n  z(%s) = tet1d::in(a, n);\n' % (ot, unroll, o, e)
                else:
                    body = '  %s = %s;\n' % (o, e)
                src.append('namespace {\nvoid go_%s(long n, int tpb, void **p, int s) {\n  %s *out = (%s *)p[0]; %s%s\n%s}\n}\n'
                           % (name, ot, ot, cast, void, body))
            rows.append('  {"%s", "%s", "%s", "%s%s", go_%s},' % (
                dsl + ' ' + e.replace('"', '\\"'), t, ot, n.post(),
                'sel:%s ' % t if n.logical else '', name))
    src.append('extern const ValCase %s[];\nconst ValCase %s[] = {\n%s\n  {0, 0, 0, 0, 0}};\n'
               % (sym, sym, '\n'.join(rows)))
    return '\n'.join(src)


if __name__ == '__main__':
    import sys
    print(emit(int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), 'x', True))
