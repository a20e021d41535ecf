from .lib import *
from .t01 import SINCOS, unit_quat, R4
from .q01 import qmul, EPS
def build():
    p = Prop('Q02', ['math/quaternion.hpp', 'math/matrix/transform.hpp'], 'Quaternions, Euler angles and matrices convert consistently')
    p.pre = SINCOS
    q, e, s = ('quat', 'q'), ('f32x4', 'e'), ('float', 's')
    h = lambda f, x: fn1(f, x / 2)
    X = lambda a: Vec([h('sin', a), lift(0), lift(0), h('cos', a)])
    Y = lambda a: Vec([lift(0), h('sin', a), lift(0), h('cos', a)])
    Z = lambda a: Vec([lift(0), lift(0), h('sin', a), h('cos', a)])
    p.ob('fromEuler', 'fromEulerAngles(e)', [e], 'quat', lambda e: qmul(qmul(Z(e.z), Y(e.y)), X(e.x)))
    p.ob('fromEuler_axes', 'quat(e.getZ(), f32x4(0,0,1,0)) * quat(e.getY(), f32x4(0,1,0,0)) * quat(e.getX(), f32x4(1,0,0,0))', [e], 'quat', lambda e: qmul(qmul(Z(e.z), Y(e.y)), X(e.x)))
    def pitch(q):
        y = 2 * (q.y * q.z + q.w * q.x); x = q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z
        sing = band(fle(fabs_(x), EPS), fle(fabs_(y), EPS))
        return ite(sing, 2 * fn2('atan2', q.x, q.w), fn2('atan2', y, x))
    def yaw(q):
        v = 2 * (q.w * q.y - q.x * q.z)
        return fn1('asin', fmin(fmax(v, lift(-1)), lift(1)))
    def roll(q): return fn2('atan2', 2 * (q.x * q.y + q.w * q.z), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z)
    p.ob('extractPitch', 'q.extractPitch()', [q], 'float', pitch)
    p.ob('extractYaw', 'q.extractYaw()', [q], 'float', yaw)
    p.ob('extractRoll', 'q.extractRoll()', [q], 'float', roll)
    p.ob('extractEuler', 'q.extractEulerAngles()', [q], 'f32x4', lambda q: [pitch(q), yaw(q), roll(q), None])
    # pure rotation about each axis: the Euler constructor and the rotation matrix agree on the sense of rotation
    S, C_ = lambda a: fn1('sin', a[0] / 2), lambda a: fn1('cos', a[0] / 2)
    def rot(u, a):
        k, c = S(a), C_(a)
        return R4([x * k for x in u] + [c])
    for ax, u in (('x', (1, 0, 0)), ('y', (0, 1, 0)), ('z', (0, 0, 1))):
        lanes = ', '.join('s' if c == ax else '0.0f' for c in 'xyz')
        p.ob('matrix_axis_' + ax, 'rotate(fromEulerAngles(f32x4(%s, 0.0f)))' % lanes, [s], 'f32x4x4', lambda s, u=u: rot([lift(k) for k in u], s))
    return p
