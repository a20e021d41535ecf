from .lib import *
from .t01 import *
from .t02 import matquat
def build():
    p = Prop('T03', ['math/matrix/transform.hpp'], 'View matrices and rigid inverses')
    m, a, b, u, d, q, t = ('f32x4x4', 'm'), ('f32x4', 'a'), ('f32x4', 'b'), ('f32x4', 'u'), ('f32x4', 'd'), ('quat', 'q'), ('f32x4', 't')
    M4 = 'f32x4x4'
    top = Vec([lift(0), lift(1), lift(0)])
    def view(a, b, u):
        a, b, u = v3(a), v3(b), v3(u)
        f = normalize(sub(b, a)); s, w = basis(f, u)
        r = [s, w, f]
        return [x for j in range(3) for x in [r[0][j], r[1][j], r[2][j], lift(0)]] + [lift(0) - dot(k, a) for k in r] + [lift(1)]
    p.ob('lookAt', 'lookAt(a, b, u)', [a, b, u], M4, view)
    p.ob('lookAt_default', 'lookAt(a, b)', [a, b], M4, lambda a, b: view(a, b, top))
    p.ob('lookAt_origin', 'lookAt(a, b, u) * f32x4(a, 1.0f)', [a, b, u], 'f32x4', lambda a, b, u: [0, 0, 0, 1])
    def laq(d, u):
        d, u = v3(d), v3(u)
        r = cross(u, d); k = lift(1) / fsqrt(fmax(lift(Q(1, 100000)), lensq(r)))
        s = Vec([x * k for x in r]); w = cross(d, s)
        return matquat(frame(s, w, d))
    p.ob('lookAtQuat', 'lookAtQuat(d, u)', [d, u], 'quat', laq)
    p.ob('lookAtQuat_default', 'lookAtQuat(d)', [d], 'quat', lambda d: laq(d, top))
    # rigid motion: inverseTransRot(T*R) * (T*R) is the identity
    rt = lambda t, q: matmul(T4(t), R4(q), 4)
    inv = lambda t, q: matmul([R4(q)[4 * j + i] for i in range(4) for j in range(4)], T4([lift(0) - x for x in t[:3]]), 4)
    p.ob('inverseTransRot', 'inverseTransRot(translate(t, rotate(q)))', [t, q], M4, inv, inputs={'q': unit_quat()})
    rm = [fin('m.%d%d' % (i, j)) if j < 3 else lift(0) for i in range(3) for j in range(4)] + [fin('m.30'), fin('m.31'), fin('m.32'), lift(1)]
    p.ob('inverseTransRot_m', 'inverseTransRot(m)', [m], M4, lambda m: [x for i in range(3) for x in [m[4 * j + i] for j in range(3)] + [lift(0)]] + [lift(0) - fsum([m[4 * i + k] * m[12 + k] for k in range(3)]) for i in range(3)] + [lift(1)], inputs={'m': rm})
    return p
