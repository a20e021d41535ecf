from .lib import *
from .t01 import v3
L0, L1 = lift(0), lift(1)
def clamp01(t): return fmin(fmax(t, L0), L1)
def lp(A):
    s, e = v3(A), Vec(A[4:7]); return s, sub(e, s)
def at(s, d, t): return [x + y * t for x, y in zip(s, d)] + [None]
def par(A, q):
    s, d = lp(A); return dot(sub(v3(q), s), d) / dot(d, d)
def tri(t): return v3(t), Vec(t[4:7]), Vec(t[8:11])
def inside(t, q):
    a, b, c = [sub(x, v3(q)) for x in tri(t)]
    u, v, w = cross(b, c), cross(c, a), cross(a, b)
    return bnot(bany([flt(dot(u, v), L0), flt(dot(u, w), L0), flt(dot(v, w), L0)]))
def build():
    p = Prop('G04', ['math/line.hpp', 'math/plane.hpp', 'math/ray.hpp', 'math/sphere.hpp', 'math/triangle.hpp'], 'Lines, planes, spheres and triangles')
    Ln, Ra, Sp, Tr, Pl, Bx, q, a, b, c, s = ('Line', 'A'), ('Ray', 'R'), ('Sphere', 'S'), ('Triangle', 't'), ('Plane', 'P'), ('Aabb', 'B'), ('f32x4', 'q'), ('f32x4', 'a'), ('f32x4', 'b'), ('f32x4', 'c'), ('float', 's')
    T1, S1, L1_ = ('Triangle', 'u'), ('Sphere', 'W'), ('Line', 'B')
    # lines
    p.ob('line_ctor', 'Line(a, b)', [a, b], 'Line', lambda a, b: list(a[:3]) + [None] + list(b[:3]) + [None])
    p.ob('line_ctor0', 'Line()', [], 'Line', lambda: [0] * 8)
    p.ob('line_dir', 'A.getDirection()', [Ln], 'f32x4', lambda A: list(normalize(lp(A)[1])) + [None])
    p.ob('line_dir_raw', 'A.getDirection(false)', [Ln], 'f32x4', lambda A: list(lp(A)[1]) + [None])
    lcp = lambda A, q: at(*lp(A), clamp01(par(A, q)))
    deg = lambda A, *r: bnot(feq(lensq(lp(A)[1]), L0))
    p.ob('line_closest', 'closestPoint(A, q)', [Ln, q], 'f32x4', lcp, assume=deg)
    p.ob('line_closest_t', '', [Ln, q], 'f32x4', lcp, body='float t; *out = closestPoint(A, q, t);', what='closestPoint(line, point, t)', assume=deg)
    p.ob('line_closest_tval', '', [Ln, q], 'float', lambda A, q: Alt(par(A, q), clamp01(par(A, q))), body='float t; (void)closestPoint(A, q, t); *out = t;', what='closestPoint(line, point, t) position along the line', assume=deg)
    # rays
    def rcp(R, q):
        o, d = Vec(R[8:11]), v3(R)
        return at(o, d, fmax(dot(sub(v3(q), o), d) / dot(d, d), L0))
    p.ob('ray_closest', 'closestPoint(R, q)', [Ra, q], 'f32x4', rcp)
    # planes
    p.ob('plane_closest', 'closestPoint(P, q)', [Pl, q], 'f32x4', lambda P, q: [x - n * (dot(P[:3], q[:3]) + P[3]) for x, n in zip(q, P[:3])] + [None])
    un = lambda P, *r: feq(lensq(P[:3]), L1)
    p.ob('plane_closest_on', 'distance3(P, closestPoint(P, q))', [Pl, q], 'float', lambda P, q: 0, inputs={'P': [fin('P.n.x'), fin('P.n.y'), fin('P.n.z_', sq=(L1 - fin('P.n.x') * fin('P.n.x') - fin('P.n.y') * fin('P.n.y')).leaf), None]})
    # spheres
    p.ob('sphere_ctor', 'Sphere(s, a)', [s, a], 'Sphere', lambda s, a: list(a[:3]) + [s[0]])
    p.ob('sphere_ctor_s', 'Sphere(s)', [s], 'Sphere', lambda s: [0, 0, 0, s[0]])
    p.ob('sphere_ctor0', 'Sphere()', [], 'Sphere', lambda: [0] * 4)
    p.ob('sphere_getRadius', 'S.getRadius()', [Sp], 'float', lambda S: S[3])
    p.ob('sphere_getPosition', 'S.getPosition()', [Sp], 'f32x4', lambda S: list(S[:3]) + [None])
    p.ob('sphere_setRadius', '', [Sp, s], 'Sphere', lambda S, s: list(S[:3]) + [s[0]], body='Sphere z = S; z.setRadius(s); *out = z;', what='Sphere::setRadius')
    p.ob('sphere_setPosition', '', [Sp, a], 'Sphere', lambda S, a: list(a[:3]) + [S[3]], body='Sphere z = S; z.setPosition(a); *out = z;', what='Sphere::setPosition')
    for nm, r in (('one', Q(1, 2)), ('two', 1), ('half', Q(1, 4))): p.ob('sphere_' + nm, 'Sphere::' + nm, [], 'Sphere', lambda r=r: [0, 0, 0, lift(r)])
    d2 = lambda S, q: lensq(sub(v3(S), v3(q)))
    p.ob('sphere_isInside', 'isInside(S, q)', [Sp, q], 'bool', lambda S, q: flt(d2(S, q), S[3] * S[3]))
    p.ob('sphere_closest', 'closestPoint(S, q)', [Sp, q], 'f32x4', lambda S, q: [x + y * S[3] for x, y in zip(S[:3], normalize(sub(v3(q), v3(S))))] + [None])
    p.ob('sphere_isIntersected', 'isIntersected(S, W)', [Sp, S1], 'bool', lambda S, W: fle(lensq(sub(v3(S), v3(W))), (S[3] + W[3]) * (S[3] + W[3])))
    def sab(S, B):
        f = lambda cp: flt(lensq(sub(v3(S), Vec(cp))), S[3] * S[3])
        z = list(zip(S[:3], B, B[4:]))
        return Alt(f([fmin(fmax(x, l), h) for x, l, h in z]), f([fmax(fmin(x, h), l) for x, l, h in z]))
    p.ob('sphere_aabb', 'isIntersected(S, B)', [Sp, Bx], 'bool', sab, assume=lambda S, B: ball([fle(x, y) for x, y in zip(B[:3], B[4:7])]))
    # triangles
    p.ob('tri_ctor', 'Triangle(a, b, c)', [a, b, c], 'Triangle', lambda a, b, c: [x for v in (a, b, c) for x in list(v[:3]) + [None]])
    p.ob('tri_ctor0', 'Triangle()', [], 'Triangle', lambda: [0] * 12)
    p.ob('tri_isInside', 'isInside(t, q)', [Tr, q], 'bool', inside)
    # every convex combination is inside, and reflecting one out of the triangle is not
    A2 = ('arr2', 'k')
    comb = 'auto p = t.p0 + (t.p1 - t.p0) * k[0] + (t.p2 - t.p0) * k[1];'
    # weights that sum to one are all non-negative exactly when no two of them have opposite signs
    nonneg = lambda *w: bnot(bany([flt(x * y, L0) for i, x in enumerate(w) for y in w[i + 1:]]))
    nd = lambda t, k: bnot(feq(lensq(cross(sub(tri(t)[1], tri(t)[0]), sub(tri(t)[2], tri(t)[0]))), L0))
    p.ob('tri_isInside_comb', '', [Tr, A2], 'bool', lambda t, k: nonneg(L1 - k[0] - k[1], k[0], k[1]), body=comb + ' *out = isInside(t, p);', what='isInside of an affine combination of the vertices', assume=nd,
         inputs={'t': [L0, L0, L0, L0, None, L0, L0, L0, None, None, L0, L0]})
    p.ob('tri_bary', '', [Tr, A2], 'f32x4', lambda t, k: [L1 - k[0] - k[1], k[0], k[1], None], body=comb + ' *out = calcBarycentric(t, p);', what='calcBarycentric of an affine combination of the vertices', assume=nd)
    for nm, op, f in ARITH:
        for T_, n, v in (('Line', 2, Ln), ('Triangle', 3, Tr)):
            o = v[1]
            g = lambda X, a, f=f, n=n: [x for i in range(n) for x in [f(X[4 * i + j], a[j]) for j in range(3)] + [None]]
            p.ob('%s_%s' % (T_, nm), '%s %s a' % (o, op), [v, a], T_, g)
            p.ob('%s_%seq' % (T_, nm), '', [v, a], T_, g, body='%s z = %s; z %s= a; *out = z;' % (T_, o, op), what='%s %s=' % (T_, op))
            p.ob('%s_%seq_ret' % (T_, nm), '', [v, a], 'bool', lambda X, a: TRUE, body='%s z = %s; *out = &(z %s= a) == &z;' % (T_, o, op), what='%s %s= returns itself' % (T_, op))
    same = lambda a, b: ball([feq(x, y) for x, y in zip(a, b)])
    for T_, x, y in (('Line', Ln, L1_), ('Triangle', Tr, T1), ('Sphere', Sp, S1)):
        p.ob(T_ + '_eq', '%s == %s' % (x[1], y[1]), [x, y], 'bool', lambda a, b: same(a, b))
        p.ob(T_ + '_ne', '%s != %s' % (x[1], y[1]), [x, y], 'bool', lambda a, b: bnot(same(a, b)))
    # closest point of a triangle, up to a rigid motion of everything: p0 at the origin, p1 on the x axis, p2 in the plane z = 0
    flat = {'t': [L0, L0, L0, L0, fin('t.p1.x', pos=True), L0, L0, L0, None, fin('t.p2.y', pos=True), L0, L0]}
    def ins2(t, q):                                   # barycentric weights times the (positive) doubled area
        x1, x2, y2 = t[4], t[8], t[9]
        w1, w2 = q[0] * y2 - x2 * q[1], x1 * q[1]
        w1, w2 = w1 * x1, w2 * x1          # x1 > 0: the signs are unchanged
        return nonneg(x1 * x1 * y2 - w1 - w2, w1, w2)
    p.ob('tri_closest_inside', 'closestPoint(t, q)', [Tr, q], 'f32x4', lambda t, q: [q[0], q[1], 0, None], inputs=flat, assume=ins2)
    p.ob('tri_inside_plane', '', [Tr, q], 'bool', ins2, inputs=flat, body='*out = isInside(t, f32x4(q.getX(), q.getY(), 0.0f, 0.0f));', what='isInside of a point in the plane of the triangle')
    def tri_out(t, q):
        p = Vec([q[0], q[1], L0])
        c = [lcp(Vec(list(a) + [None] + list(b)), p)[:3] for a, b in zip(tri(t), tri(t)[1:] + tri(t)[:1])]
        d = [lensq(sub(p, Vec(x))) for x in c]
        a, b = fle(d[0], d[1]), fle(d[0], d[2])
        return [ite(band(a, b), x, ite(fle(d[1], d[2]), y, z)) for x, y, z in zip(*c)] + [None]
    p.ob('tri_closest_outside', 'closestPoint(t, q)', [Tr, q], 'f32x4', tri_out, inputs=flat, assume=lambda t, q: bnot(ins2(t, q)))
    return p
