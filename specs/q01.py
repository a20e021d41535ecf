from .lib import *
from .t01 import SINCOS, unit_quat, R4
EPS = f32c(2.0 ** -23)
def qmul(a, b):
    return Vec([a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z,
                a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z])
def conj(a): return Vec([lift(0) - a.x, lift(0) - a.y, lift(0) - a.z, a.w])
def rotv(q, v):
    """v + 2 q.xyz x (q.xyz x v + w v)"""
    u = Vec(q[:3]); v = Vec(v[:3])
    c = cross(u, v); cc = cross(u, c)
    return [v[i] + 2 * (cc[i] + q.w * c[i]) for i in range(3)]
def build():
    p = Prop('Q01', ['math/quaternion.hpp', 'math/matrix/transform.hpp'], 'Quaternion algebra')
    p.pre = SINCOS
    q, r, v, s, t = ('quat', 'q'), ('quat', 'r'), ('f32x4', 'v'), ('float', 's'), ('float', 't')
    one = [0, 0, 0, 1]
    p.ob('ctor', 'quat(x, y, z, w)', [('float', k) for k in 'xyzw'], 'quat', lambda *a: [k[0] for k in a])
    p.ob('ctor_v', 'quat(v)', [v], 'quat', lambda v: v)
    p.ob('ctor_default', 'quat()', [], 'quat', lambda: one)
    p.ob('identity', 'quat::identity', [], 'quat', lambda: one)
    p.ob('axis_angle', 'quat(s, v)', [s, v], 'quat', lambda s, v: [x * fn1('sin', s[0] / 2) for x in v[:3]] + [fn1('cos', s[0] / 2)])
    p.ob('mul', 'q * r', [q, r], 'quat', qmul)
    p.ob('mul_asg', '', [q, r], 'quat', qmul, body='quat t = q; t *= r; *out = t;', what='quat::operator*=')
    p.ob('mul_asg_self', '', [q], 'quat', lambda q: qmul(q, q), body='quat t = q; t *= t; *out = t;', what='quat::operator*= with itself')
    p.ob('mul_asg_chain', '', [q, r], 'quat', lambda q, r: qmul(qmul(q, r), r), body='quat t = q; (t *= r) *= r; *out = t;', what='quat::operator*= returns its own object')
    p.ob('mul_assoc', '(q * r) * w', [q, r, ('quat', 'w')], 'quat', lambda q, r, w: qmul(q, qmul(r, w)))
    p.ob('mul_identity', 'q * quat::identity', [q], 'quat', lambda q: q)
    p.ob('identity_mul', 'quat::identity * q', [q], 'quat', lambda q: q)
    p.ob('rotate_vector', 'q * v', [q, v], 'f32x4', lambda q, v: rotv(q, v) + [None])
    p.ob('rotate_identity', 'quat::identity * v', [v], 'f32x4', lambda v: list(v[:3]) + [None])
    p.ob('conjugate', 'conjugate(q)', [q], 'quat', conj)
    p.ob('inverse', 'inverse(q)', [q], 'quat', lambda q: [x / lensq(q) for x in conj(q)])
    p.ob('mul_inverse', 'q * inverse(q)', [q], 'quat', lambda q: one)
    p.ob('inverse_mul', 'inverse(q) * q', [q], 'quat', lambda q: one)
    p.ob('normalize', 'normalize(q)', [q], 'quat', lambda q: [x / length(q) for x in q])
    inv = lambda q: Vec([x / lensq(q) for x in conj(q)])
    p.ob('vector_mul', 'v * q', [v, q], 'f32x4', lambda v, q: rotv(inv(q), v) + [None])
    U = {'q': unit_quat('q')}; UR = {'q': unit_quat('q'), 'r': unit_quat('r')}
    # composition of rotations, for unit quaternions
    p.ob('compose', '(q * r) * v', [q, r, v], 'f32x4', lambda q, r, v: rotv(q, rotv(r, v)) + [None], inputs=UR)
    p.ob('undo', 'inverse(q) * (q * v)', [q, v], 'f32x4', lambda q, v: list(v[:3]) + [None], inputs=U)
    p.ob('undo2', '(q * v) * q', [q, v], 'f32x4', lambda q, v: list(v[:3]) + [None], inputs=U)
    p.ob('as_matrix', 'rotate(q) * v', [q, v], 'f32x4', lambda q, v: rotv(q, v) + [None], inputs=U)
    p.ob('matrix_product', 'rotate(q * r)', [q, r], 'f32x4x4', lambda q, r: matmul(R4(q), R4(r), 4), inputs=UR)
    p.ob('isometry', 'lengthSq3(q * v)', [q, v], 'float', lambda q, v: lensq(v[:3]), inputs=U)
    # slerp: shortest arc, spherical interpolation, linear where the arc degenerates
    def slerp(a, b, t):
        d = dot(a, b); neg = flt(d, lift(0)); c = [ite(neg, lift(0) - x, x) for x in b]; d = ite(neg, lift(0) - d, d)
        near = flt(f32c(1 - 2.0 ** -23), d); ang = fn1('acos', d)
        return [ite(near, x * (lift(1) - t) + y * t, (x * fn1('sin', (lift(1) - t) * ang) + y * fn1('sin', t * ang)) / fn1('sin', ang)) for x, y in zip(a, c)]
    p.ob('slerp', 'slerp(q, r, t)', [q, r, t], 'quat', lambda q, r, t: slerp(q, r, t[0]), ranges=RNG)
    p.ob('slerp_start', 'slerp(q, r, 0.0f)', [q, r], 'quat', lambda q, r: q, ranges=RNG)
    p.ob('slerp_end', 'slerp(q, r, 1.0f)', [q, r], 'quat', lambda q, r: (lambda n: [ite(n, lift(0) - x, x) for x in r])(flt(dot(q, r), lift(0))), ranges=RNG)
    # inherited component access keeps x, y, z, w order
    p.ob('components', '', [q], 'arr4', lambda q: q, body='out->v[0] = q.getX(); out->v[1] = q.getY(); out->v[2] = q.getZ(); out->v[3] = q.getW();', what='quat component access')
    return p
RNG = None
