from .lib import *
# sinCos is replaced by its contract (lane-wise sine and cosine); the contract itself is the subject of V06
SINCOS = '''#define sinCos sinCosApprox_
#include "math/simd/vector/float.hpp"
#undef sinCos
namespace math { static inline void sinCos(f32x4 v, f32x4& s, f32x4& c) noexcept
{ s = f32x4(std::sin(v.getX()), std::sin(v.getY()), std::sin(v.getZ()), std::sin(v.getW()));
  c = f32x4(std::cos(v.getX()), std::cos(v.getY()), std::cos(v.getZ()), std::cos(v.getW())); } }
'''
def unit_quat(n='q'):
    n = 'unit_' + n
    return _uq(n)
def _uq(n):
    """symbolic unit quaternion: w^2 rewrites to 1-x^2-y^2-z^2"""
    x, y, z = fin(n + '.x'), fin(n + '.y'), fin(n + '.z')
    w = fin(n + '.w', sq=leafp(lift(1) - x * x - y * y - z * z))
    return [x, y, z, w]
def leafp(n): return n.leaf
def I4(): return [lift(int(i == j)) for i in range(4) for j in range(4)]
def T4(t): m = I4(); m[12], m[13], m[14] = t[0], t[1], t[2]; return m
def S4(s): m = I4(); m[0], m[5], m[10] = s[0], s[1], s[2]; return m
def R4(q):
    x, y, z, w = q
    two = lift(2); one = lift(1)
    return [one - two * (y * y + z * z), two * (x * y + w * z), two * (x * z - w * y), lift(0),
            two * (x * y - w * z), one - two * (x * x + z * z), two * (y * z + w * x), lift(0),
            two * (x * z + w * y), two * (y * z - w * x), one - two * (x * x + y * y), lift(0),
            lift(0), lift(0), lift(0), lift(1)]
def Rn(q):
    """rotation of the normalised quaternion"""
    l = length(q)
    return R4([c / l for c in q])
def basis(f, up):
    s = normalize(cross(up, f)); u = cross(f, s)
    return s, u
def frame(s, u, f): return list(s) + [lift(0)] + list(u) + [lift(0)] + list(f) + [lift(0)] + [lift(0)] * 3 + [lift(1)]
def v3(v): return Vec(v[:3])
AFF = [None, None, None, lift(0), None, None, None, lift(0), None, None, None, lift(0), None, None, None, lift(1)]
def build():
    p = Prop('T01', ['math/matrix/transform.hpp'], 'Transformations compose as matrices')
    m, t, s, q = ('f32x4x4', 'm'), ('f32x4', 't'), ('f32x4', 's'), ('quat', 'q')
    M4 = 'f32x4x4'
    uq = {'q': unit_quat()}
    p.ob('getTranslation', 'getTranslation(m)', [m], 'f32x4', lambda m: m[12:15] + [None])
    p.ob('setTranslation', '', [m, t], M4, lambda m, t: m[:12] + [t.x, t.y, t.z, m[15]], body='f32x4x4 r = m; setTranslation(r, t); *out = r;', what='setTranslation')
    p.ob('translate', 'translate(t)', [t], M4, lambda t: T4(t))
    p.ob('m_translate', 'translate(m, t)', [m, t], M4, lambda m, t: matmul(m, T4(t), 4), inputs={'m': AFF})
    p.ob('translate_m', 'translate(t, m)', [t, m], M4, lambda t, m: matmul(T4(t), m, 4), inputs={'m': AFF})
    p.ob('scale', 'scale(s)', [s], M4, lambda s: S4(s))
    p.ob('m_scale', 'scale(m, s)', [m, s], M4, lambda m, s: matmul(m, S4(s), 4))
    p.ob('scale_m', 'scale(s, m)', [s, m], M4, lambda s, m: matmul(S4(s), m, 4))
    p.ob('rotate_quat', 'rotate(q)', [q], M4, lambda q: R4(q), inputs=uq)
    p.ob('rotate_look', 'rotate(a, b, u)', [('f32x4', 'a'), ('f32x4', 'b'), ('f32x4', 'u')], M4, lambda a, b, u: (lambda f: frame(*basis(f, v3(u)), f))(normalize(sub(v3(b), v3(a)))))
    p.ob('rotate_front', '((f32x4x4(*)(f32x4, f32x4))rotate)(a, u)', [('f32x4', 'a'), ('f32x4', 'u')], M4, lambda a, u: frame(*basis(v3(a), v3(u)), v3(a)))
    p.ob('rotate_front_default', 'rotate(a)', [('f32x4', 'a')], M4, lambda a: frame(*basis(v3(a), Vec([lift(0), lift(1), lift(0)])), v3(a)))
    p.ob('calcModel', 'calcModel(t, q, s)', [t, q, s], M4, lambda t, q, s: matmul(matmul(T4(t), Rn(q), 4), S4(s), 4))
    p.ob('calcModel_tr', 'calcModel(t, q)', [t, q], M4, lambda t, q: matmul(T4(t), Rn(q), 4))
    p.ob('calcModel_t', 'calcModel(t)', [t], M4, lambda t: T4(t))
    p.ob('calcModel_def', 'calcModel()', [], M4, lambda: I4())
    return p
