"""Emits the operator tables of sim/opsim.cpp from egg/operators.py of the
staged tree (run as a separate process: opgen.py STAGE EXT OUTDIR NPARTS)."""
import os
import sys

sys.dont_write_bytecode = True


def main(stage, ext, outdir, nparts):
    sys.path.insert(0, os.path.join(stage, 'egg'))
    import common
    import operators
    from operators import operators as ops
    skip = set(n for n in ops if n.startswith(
        ('load', 'store', 'mask_store', 'masko_load', 'maskz_load', 'gather',
         'scatter', 'len')))
    parts = [[] for _ in range(nparts)]
    table = [[] for _ in range(nparts)]
    k = 0
    for name in sorted(ops):
        if name in skip:
            continue
        o = ops[name]
        sig = o.signature.split()
        ret, params = sig[0], sig[2:]
        for t in common.types:
            if t not in o.types:
                continue
            tos = [t] if o.output_to == common.OUTPUT_TO_SAME_TYPE else \
                common.get_output_types(t, o.output_to)
            for tt in tos:
                emit(parts, table, nparts, k, name, ret, params, t, tt,
                     o.closed, ext)
                k += 1
        if ret in ('v', 's') and ext in ('cpu', 'avx2') and o.has_scalar_impl:
            for t in common.types:
                if t not in o.types:
                    continue
                tos = [t] if o.output_to == common.OUTPUT_TO_SAME_TYPE \
                    else common.get_output_types(t, o.output_to)
                if any(p not in ('v', 's', 'p') for p in params):
                    continue
                for tt in tos:
                    f = 'nsimd_scalar_%s_%s' % (
                        name, t if o.closed else tt + '_' + t)
                    a = []
                    for i, p in enumerate(params):
                        a.append('ld<%s>(in->v[%d])' % (t, i) if p in 'vs'
                                 else 'in->p[0]')
                    parts[k % nparts].append(
                        'W static void w%d(In const *in, unsigned char *out) '
                        '{ st(out, %s(%s)); }' % (k, f, ', '.join(a)))
                    table[k % nparts].append(
                        '{"scalar_%s_%s_%s", w%d, %s, %s}' % (
                            name, tt, t, k, kind(t), opkind(name)))
                    k += 1
    for i in range(nparts):
        with open(os.path.join(outdir, 'ops_%s_%d.cpp' % (ext, i)), 'w') as f:
            f.write('#include "nsimd/nsimd-all.h"\n#include "opsim_ops.hpp"\n')
            f.write('\n'.join(parts[i]))
            f.write('\nextern Op const vsim_ops_%d[] = {\n%s};\n' % (
                i, ''.join(x + ',\n' for x in table[i])))
            f.write('unsigned vsim_nops_%d = sizeof(vsim_ops_%d) / '
                    'sizeof(Op);\n' % (i, i))


def kind(t):
    return "'%s', %d" % (t[0], int(t[1:]) // 8)


def opkind(name):
    return {'div': '1', 'shl': '2', 'shr': '2', 'shra': '2',
            'mask_for_loop_tail': '3', 'set1l': '4'}.get(name, '0')


def emit(parts, table, nparts, k, name, ret, params, t, tt, closed, ext):
    e = '_%s_%s' % (ext, t)
    f = 'nsimd_%s_%s_%s' % (name, ext, t if closed else tt + '_' + t)
    a, nv, nl, np = [], 0, 0, 0
    for p in params:
        if p == 'v':
            a.append('nsimd_loadu%s((%s const *)in->v[%d])' % (e, t, nv))
            nv += 1
        elif p == 'l':
            a.append('nsimd_loadlu%s(lane<%s>(in, %d))' % (e, t, nl))
            nl += 1
        elif p == 's':
            a.append('ld<%s>(in->v[%d])' % (t, nv))
            nv += 1
        elif p == 'p':
            a.append('in->p[%d]' % np)
            np += 1
        else:
            return
    call = '%s(%s)' % (f, ', '.join(a))
    if ret == 'v':
        b = 'nsimd_storeu_%s_%s((%s *)out, %s);' % (ext, tt, tt, call)
    elif ret == 'l':
        b = 'nsimd_storelu_%s_%s((%s *)out, %s);' % (ext, tt, tt, call)
    elif ret in ('p', 's'):
        b = 'st(out, %s);' % call
    elif ret == 'vx2':
        b = ('nsimd_%s_v%sx2 r = %s; nsimd_storeu_%s_%s((%s *)out, r.v0); '
             'nsimd_storeu_%s_%s((%s *)(out + 64), r.v1);' % (
                 ext, tt, call, ext, tt, tt, ext, tt, tt))
    else:
        return
    i = k % nparts
    parts[i].append('W static void w%d(In const *in, unsigned char *out) '
                    '{ %s }' % (k, b))
    table[i].append('{"%s_%s_%s", w%d, %s, %s}' % (
        name, tt, t, k, kind(t), opkind(name)))


main(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]))
