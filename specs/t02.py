from .lib import *
from .t01 import *
def matquat(m):
    """reference (largest component) conversion of a rotation matrix"""
    e = lambda c, r: m[4 * c + r]
    X = e(0, 0) - e(1, 1) - e(2, 2); Y = e(1, 1) - e(0, 0) - e(2, 2); Z = e(2, 2) - e(0, 0) - e(1, 1); W = e(0, 0) + e(1, 1) + e(2, 2)
    h = lift(Q(1, 2)); 
    def g(big):
        b = fsqrt(big + 1) * h; k = lift(Q(1, 4)) / b
        return b, k
    def q0():
        b, k = g(W); return [(e(1, 2) - e(2, 1)) * k, (e(2, 0) - e(0, 2)) * k, (e(0, 1) - e(1, 0)) * k, b]
    def q1():
        b, k = g(X); return [b, (e(0, 1) + e(1, 0)) * k, (e(2, 0) + e(0, 2)) * k, (e(1, 2) - e(2, 1)) * k]
    def q2():
        b, k = g(Y); return [(e(0, 1) + e(1, 0)) * k, b, (e(1, 2) + e(2, 1)) * k, (e(2, 0) - e(0, 2)) * k]
    def q3():
        b, k = g(Z); return [(e(2, 0) + e(0, 2)) * k, (e(1, 2) + e(2, 1)) * k, b, (e(0, 1) - e(1, 0)) * k]
    r = q0(); big = W
    for v, f in ((X, q1), (Y, q2), (Z, q3)):
        c = flt(big, v); n = f()
        r = [ite(c, y, x) for x, y in zip(r, n)]; big = ite(c, v, big)
    return r
def build():
    p = Prop('T02', ['math/matrix/transform.hpp'], 'Decomposition recovers translation, rotation and scale')
    m, t, s, q = ('f32x4x4', 'm'), ('f32x4', 't'), ('f32x4', 's'), ('quat', 'q')
    M4 = 'f32x4x4'
    sc = lambda m: Vec([length(Vec(m[4 * i:4 * i + 3])) for i in range(3)])
    p.ob('extractScale', 'extractScale(m)', [m], 'f32x4', lambda m: list(sc(m)) + [None])
    p.ob('extractScale2', 'extractScale2(m)', [m], 'float2', lambda m: sc(m)[:2])
    def rot(m):
        k = sc(m)
        return [x for i in range(3) for x in [m[4 * i + j] / k[i] for j in range(3)] + [lift(0)]] + [lift(0)] * 3 + [lift(1)]
    p.ob('extractRotation', 'extractRotation(m)', [m], M4, rot)
    ro = lambda m: [x for i in range(3) for x in list(m[4 * i:4 * i + 3]) + [lift(0)]] + [lift(0)] * 3 + [lift(1)]
    p.ob('extractRotationOnly', 'extractRotationOnly(m)', [m], M4, ro)
    p.ob('extractQuat', 'extractQuat(m)', [m], 'quat', matquat)
    uq = unit_quat()
    p.ob('extractQuat_rotate', 'rotate(extractQuat(rotate(q)))', [q], M4, lambda q: R4(q), inputs={'q': uq})
    b2 = 'f32x4 a, b; quat r; extractTransform(m, a, r, b); out->v[0] = a.getX(); out->v[1] = a.getY(); out->v[2] = a.getZ(); for (int i = 0; i < 4; i++) out->v[3+i] = r[i]; for (int i = 0; i < 3; i++) out->v[7+i] = b[i]; out->v[10] = out->v[11] = 0;'
    p.ob('extractTransform3', '', [m], 'arr12', lambda m: m[12:15] + matquat(rot(m)) + list(sc(m)) + [0, 0], body=b2, what='extractTransform(m, position, rotation, scale)')
    b1 = 'f32x4 a; quat r; extractTransform(m, a, r); out->v[0] = a.getX(); out->v[1] = a.getY(); out->v[2] = a.getZ(); for (int i = 0; i < 4; i++) out->v[3+i] = r[i]; out->v[7] = 0;'
    p.ob('extractTransform2', '', [m], 'arr8', lambda m: m[12:15] + matquat(ro(m)) + [0], body=b1, what='extractTransform(m, position, rotation)')
    # composition: the scale that was put in comes back, for non-negative scales
    pos = [fin('spos.' + c, pos=True) for c in 'xyz'] + [fin('s.w')]
    p.ob('scale_roundtrip', 'extractScale(translate(t) * rotate(q) * scale(s))', [t, q, s], 'f32x4', lambda t, q, s: [s.x, s.y, s.z, None], inputs={'q': uq, 's': pos})
    p.ob('translation_roundtrip', 'getTranslation(calcModel(t, q, s))', [t, q, s], 'f32x4', lambda t, q, s: [t.x, t.y, t.z, None])
    p.ob('rotation_roundtrip', 'extractRotation(translate(t) * rotate(q) * scale(s))', [t, q, s], M4, lambda t, q, s: R4(q), inputs={'q': uq, 's': pos})
    return p
