from .lib import *
from .t01 import v3
MX = f32c(3.4028234663852886e38)
EPS = f32c(1e-20)
def par(n): return [mask(bin_('%s.par%d' % (n, i))) for i in range(4)]
def ray(n): return [None] * 4 + par(n) + [None] * 4
def slab(A, R, inv):
    lo, hi, d, o = v3(A), Vec(A[4:7]), v3(R), Vec(R[8:11])
    P = [ilt(x, iconst(32, 0), True) for x in R[4:7]]
    k = d if inv else [lift(1) / x for x in d]
    t = [((lo[i] - o[i]) * k[i], (hi[i] - o[i]) * k[i]) for i in range(3)]
    ent = [ite(P[i], lift(0) - MX, fmin(*t[i])) for i in range(3)]
    ext = [ite(P[i], MX, fmax(*t[i])) for i in range(3)]
    tn = fmax(fmax(ent[0], ent[1]), ent[2]); tf = fmin(fmin(ext[0], ext[1]), ext[2])
    miss = bor(flt(tf, tn), flt(tf, lift(0)))
    for i in range(3): miss = bor(miss, band(P[i], bor(flt(o[i], lo[i]), flt(hi[i], o[i]))))
    return miss, tn, tf
def build():
    p = Prop('G02', ['math/aabb.hpp'], 'Rays and ray casts')
    A, R, o, d, a = ('Aabb', 'A'), ('Ray', 'R'), ('f32x4', 'o'), ('f32x4', 'd'), ('f32x4', 'a')
    mk = lambda d: [mask(fle(fabs_(x), EPS)) for x in d[:3]] + [None]
    nd = lambda d: normalize(v3(d))
    p.ob('ctor', 'Ray(o, d)', [o, d], 'Ray', lambda o, d: list(nd(d)) + [None] + mk(d) + list(o[:3]) + [None])
    p.ob('ctor_raw', 'Ray(o, d, false)', [o, d], 'Ray', lambda o, d: list(d[:3]) + [None] + mk(d) + list(o[:3]) + [None])
    p.ob('ctor0', 'Ray()', [], 'Ray', lambda: [0] * 3 + [None] + [0] * 3 + [None] + [0] * 3 + [None])
    p.ob('setDirection', '', [R, d], 'Ray', lambda R, d: list(nd(d)) + [None] + mk(d) + list(R[8:11]) + [None], body='Ray r = R; r.setDirection(d); *out = r;', what='Ray::setDirection(d)')
    p.ob('setDirection_raw', '', [R, d], 'Ray', lambda R, d: list(d[:3]) + [None] + mk(d) + list(R[8:11]) + [None], body='Ray r = R; r.setDirection(d, false); *out = r;', what='Ray::setDirection(d, false)')
    p.ob('getDirection', 'R.getDirection()', [R], 'f32x4', lambda R: list(R[:3]) + [None])
    p.ob('getParallel', 'R.getParallel()', [R], 'u32x4', lambda R: list(R[4:7]) + [None])
    p.ob('normalize', '', [R], 'Ray', lambda R: list(nd(R)) + [None] + list(R[4:7]) + [None] + list(R[8:11]) + [None], body='Ray r = R; r.normalize(); *out = r;', what='Ray::normalize()')
    for nm, op, f in ARITH:
        p.ob('op_origin_' + nm, '(R %s a).origin' % op, [R, a], 'f32x4', lambda R, a, f=f: [f(x, y) for x, y in zip(R[8:11], a)] + [None])
        p.ob('opeq_' + nm, '', [R, a], 'f32x4', lambda R, a, f=f: [f(x, y) for x, y in zip(R[8:11], a)] + [None], body='Ray r = R; r %s= a; *out = r.origin;' % op, what='Ray %s= origin' % op)
        p.ob('opeq_ret_' + nm, '', [R, a], 'bool', lambda R, a: TRUE, body='Ray r = R; *out = &(r %s= a) == &r;' % op, what='Ray %s= returns itself' % op)
    for nm, v in (('left', (-1, 0, 0)), ('right', (1, 0, 0)), ('bottom', (0, -1, 0)), ('top', (0, 1, 0)), ('back', (0, 0, -1)), ('front', (0, 0, 1))):
        p.ob('const_' + nm, 'Ray::' + nm, [], 'Ray', lambda v=v: list(v) + [None] + [None] * 4 + [0] * 3 + [None])
    B = ('Ray', 'B')
    for op, neg in (('==', 0), ('!=', 1)):
        p.ob('eq%d' % neg, 'R %s B' % op, [R, B], 'bool', lambda R, B, neg=neg: (bnot if neg else lambda x: x)(ball([(ieq if 4 <= i < 8 else feq)(R[i], B[i]) for i in range(12)])))
    for sfx, inv in (('I', True), ('', False)):
        def d2(A, R, inv=inv):
            m, n, f = slab(A, R, inv)
            return [ite(m, MX, n), ite(m, lift(0) - MX, f)]
        for k in range(8):
            i = {'R': [None] * 4 + [mask(TRUE if k >> j & 1 else FALSE) for j in range(3)] + [None] * 5}; n = '%s_par%d' % (sfx, k)
            p.ob('raycast2' + n, 'raycast2%s(A, R)' % sfx, [A, R], 'float2', d2, inputs=i)
            p.ob('raycast1' + n, 'raycast1%s(A, R)' % sfx, [A, R], 'float', lambda A, R, d2=d2: d2(A, R)[0], inputs=i)
            p.ob('raycast' + n, 'raycast%s(A, R)' % sfx, [A, R], 'bool', lambda A, R, inv=inv: bnot(slab(A, R, inv)[0]), inputs=i)
    f2 = ('float2', 't')
    p.ob('isAabbIntersected', 'isAabbIntersected(t)', [f2], 'bool', lambda t: band(fle(t[0], t[1]), fle(lift(0), t[1])))
    return p
