from .lib import *
from .t01 import v3
def corners(A):
    lo, hi = v3(A), Vec(A[4:7])
    return [Vec([(hi if k >> i & 1 else lo)[i] for i in range(3)]) for k in range(8)]
def mulp(m, v):
    return Vec([fsum([m[4 * k + r] * v[k] for k in range(3)]) + m[12 + r] for r in range(3)])
def build():
    p = Prop('G03', ['math/aabb.hpp', 'math/plane.hpp', 'math/matrix/projection.hpp'], 'Planes and frustum culling')
    P_, A, n, q, m, s = ('Plane', 'P'), ('Aabb', 'A'), ('f32x4', 'n'), ('f32x4', 'q'), ('f32x4x4', 'm'), ('float', 's')
    Tr = ('Triangle', 't')
    nn = lambda n: list(normalize(v3(n)))
    dist = lambda P, v: dot(P[:3], v[:3]) + P[3]
    p.ob('ctor', 'Plane(n, s)', [n, s], 'Plane', lambda n, s: nn(n) + [s[0]])
    p.ob('ctor_raw', 'Plane(n, s, false)', [n, s], 'Plane', lambda n, s: list(n[:3]) + [s[0]])
    p.ob('ctor_n', 'Plane(n)', [n], 'Plane', lambda n: nn(n) + [0])
    p.ob('ctor0', 'Plane()', [], 'Plane', lambda: [0] * 4)
    p.ob('getNormal', 'P.getNormal()', [P_], 'f32x4', lambda P: list(P[:3]) + [None])
    p.ob('getDistance', 'P.getDistance()', [P_], 'float', lambda P: P[3])
    p.ob('setNormal', '', [P_, n], 'Plane', lambda P, n: nn(n) + [P[3]], body='Plane c = P; c.setNormal(n); *out = c;', what='Plane::setNormal')
    p.ob('setNormal_raw', '', [P_, n], 'Plane', lambda P, n: list(n[:3]) + [P[3]], body='Plane c = P; c.setNormal(n, false); *out = c;', what='Plane::setNormal(n, false)')
    p.ob('setDistance', '', [P_, s], 'Plane', lambda P, s: list(P[:3]) + [s[0]], body='Plane c = P; c.setDistance(s); *out = c;', what='Plane::setDistance')
    p.ob('normalize', '', [P_], 'Plane', lambda P: [x / length(P[:3]) for x in P], body='Plane c = P; c.normalize(); *out = c;', what='Plane::normalize')
    p.ob('normalizePlanes', '', [('Plane', 'P'), ('Plane', 'R'), ('Plane', 'S')], 'arr12', lambda P, R, S: [x / length(v[:3]) for v in (P, R) for x in v] + list(S),
         body='Plane c[3] = { P, R, S }; normalizePlanes(c, 2); std::memcpy(out, c, sizeof(c));', what='normalizePlanes')
    for nm, v in (('left', (-1, 0, 0)), ('right', (1, 0, 0)), ('bottom', (0, -1, 0)), ('top', (0, 1, 0)), ('back', (0, 0, -1)), ('front', (0, 0, 1))):
        p.ob('const_' + nm, 'Plane::' + nm, [], 'Plane', lambda v=v: list(v) + [0])
    R = ('Plane', 'R')
    same = lambda a, b: ball([feq(x, y) for x, y in zip(a, b)])
    p.ob('eq', 'P == R', [P_, R], 'bool', lambda P, R: same(P, R)); p.ob('ne', 'P != R', [P_, R], 'bool', lambda P, R: bnot(same(P, R)))
    p.ob('distance3', 'distance3(P, q)', [P_, q], 'float', lambda P, q: dist(P, q))
    # a plane built from a triangle contains its vertices and has the right-handed normal
    nz = lambda t: bnot(feq(lensq(tn(t)), lift(0)))
    def tn(t): return cross(sub(t[4:7], t[0:3]), sub(t[8:11], t[0:3]))
    p.ob('triangle_normal', 'Plane(t)', [Tr], 'Plane', lambda t: list(normalize(tn(t))) + [lift(0) - dot(normalize(tn(t)), t[0:3])], assume=nz)
    for k in range(3): p.ob('triangle_contains%d' % k, 'distance3(Plane(t), t.p%d)' % k, [Tr], 'float', lambda t: 0, assume=nz)
    # frustum planes: the signed distance (times the normal length) of a point is the clip-space margin of its image
    def planes(m):
        row = lambda r: [m[4 * k + r] for k in range(4)]
        X, Y, Z, W = row(0), row(1), row(2), row(3)
        return [add(W, X), sub(W, X), sub(W, Y), add(W, Y), Vec(Z), sub(W, Z)]
    p.ob('extractFrustumPlanes', '', [m], 'arr24', lambda m: [x for r in planes(m) for x in r],
         body='Plane c[6]; extractFrustumPlanes(m, c); for (int i = 0; i < 6; i++) { auto v = c[i].getNormal(); for (int j = 0; j < 3; j++) (*out)[4 * i + j] = v[j]; (*out)[4 * i + 3] = c[i].getDistance(); }', what='extractFrustumPlanes')
    mar = [lambda v: v[3] + v[0], lambda v: v[3] - v[0], lambda v: v[3] - v[1], lambda v: v[3] + v[1], lambda v: v[2], lambda v: v[3] - v[2]]
    def clip(m, v): return [fsum([m[4 * k + r] * v[k] for k in range(3)]) + m[12 + r] for r in range(4)]
    p.ob('frustum_margin', '', [m, q], 'arr6', lambda m, q: [f(clip(m, q)) for f in mar],
         body='Plane c[6]; extractFrustumPlanes(m, c); for (int i = 0; i < 6; i++) (*out)[i] = distance3(c[i], q);', what='signed distances of the frustum planes')
    # culling: behind exactly if all eight corners lie strictly behind one of the planes
    def behind(ps, cs): return bany([ball([flt(dist(P, c), lift(0)) for c in cs]) for P in ps])
    p.ob('isBehindFrustum_1', 'isBehindFrustum(p_P, 1, A)', [P_, A], 'bool', lambda P, A: behind([P], corners(A)))
    p.ob('isBehindFrustum_0', 'isBehindFrustum(p_P, 0, A)', [P_, A], 'bool', lambda P, A: FALSE)
    p.ob('isBehindFrustum_2', '', [P_, R, A], 'bool', lambda P, R, A: behind([P, R], corners(A)), body='Plane c[2] = { P, R }; *out = isBehindFrustum(c, 2, A);', what='isBehindFrustum with two planes',
         inputs={'A': [0, 0, 0, 0, None, None, None, 0], 'R': [None, 1, 0, None], 'P': [1, 0, 0, None]} if False else {})
    p.ob('isBehindFrustum_last', '', [P_, A], 'bool', lambda P, A: behind([P], corners(A)),
         body='Plane c[6]; for (int i = 0; i < 5; i++) c[i] = Plane(f32x4::zero, 1.0f, false); c[5] = P; *out = isBehindFrustum(c, 6, A);', what='isBehindFrustum decided by the last of six planes')
    p.ob('isBehindFrustum_m1', 'isBehindFrustum(p_P, 1, A, m)', [P_, A, m], 'bool', lambda P, A, m: behind([P], [mulp(m, c) for c in corners(A)]))
    p.ob('isBehindFrustum_m0', 'isBehindFrustum(p_P, 0, A, m)', [P_, A, m], 'bool', lambda P, A, m: FALSE)
    p.ob('isBehindFrustum_mlast', '', [P_, A, m], 'bool', lambda P, A, m: behind([P], [mulp(m, c) for c in corners(A)]),
         body='Plane c[6]; for (int i = 0; i < 5; i++) c[i] = Plane(f32x4::zero, 1.0f, false); c[5] = P; *out = isBehindFrustum(c, 6, A, m);', what='isBehindFrustum with a model matrix, last of six planes')
    p.ob('isBehindFrustum_first', '', [P_, A], 'bool', lambda P, A: behind([P], corners(A)),
         body='Plane c[6]; c[0] = P; for (int i = 1; i < 6; i++) c[i] = Plane(f32x4::zero, 1.0f, false); *out = isBehindFrustum(c, 6, A);', what='isBehindFrustum decided by the first of six planes')
    return p
