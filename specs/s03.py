from .lib import *
def st(c, d): return lift(1) - (c + Q(1, 2)) * d * 2
def dir_(s, t, f):
    o, m = lift(1), lift(-1)
    v = [[o, t, s], [m, t, -s], [-s, o, -t], [-s, m, t], [-s, t, o], [s, t, m]][f]
    return normalize(v)
def pick(f, vs):
    r = vs[5]
    for k in range(5): r = [ite(ieq(f, iconst(32, k)), x, y) for x, y in zip(vs[k], r)]
    return r
def build():
    p = Prop('S03', ['math/ibl.hpp'], 'Image based lighting')
    p.helpers = 'using namespace math::ibl;'
    p.pre = '#include "math/vector.hpp"'
    c2, c3, d, t, f = ('uint2', 'c'), ('uint3', 'c'), ('float', 'd'), ('float2', 't'), ('uint32', 'f')
    cv = lambda x: D.conv('uitofp', x)
    p.ob('coordsToST', 'coordsToST(c, d)', [c2, d], 'float2', lambda c, d: [st(cv(x), d[0]) for x in c], ranges={'d': (0.001, 1)})
    for k in range(6):
        p.ob('stToDir%d' % k, 'stToDir(t, %du)' % k, [t], 'float3', lambda t, k=k: dir_(t[0], t[1], k))
        p.ob('coordsToDir%d' % k, 'coordsToDir(uint3(c, %du), d)' % k, [c2, d], 'float3', lambda c, d, k=k: dir_(st(cv(c[0]), d[0]), st(cv(c[1]), d[0]), k))
    F = iconst(32, 5)
    for k in range(5): F = ite(bin_('face_is_%d' % k), iconst(32, k), F)      # every valid face index
    fi = {'f': [F]}
    valid = lambda f: ilt(f, iconst(32, 6), False)
    p.ob('stToDir', 'stToDir(t, f)', [t, f], 'float3', lambda t, f: pick(f[0], [dir_(t[0], t[1], k) for k in range(6)]), inputs=fi)
    p.ob('stToDir_unit', 'lengthSq(stToDir(t, f))', [t, f], 'float', lambda t, f: lift(1), inputs=fi)
    p.ob('consts', '', [], 'uarr3', lambda: [128, 3, 9], body='out->v[0] = iblDfgSize; out->v[1] = shBandCount; out->v[2] = shCoeffCount;', what='constants')
    return p
