from .lib import *
import math
def build():
    p = Prop('V05', ['math/vector/float.hpp', 'math/simd/vector/float.hpp', 'math/angles.hpp'], 'Euclidean geometry of vectors')
    TOL = f32c(1e-6); DSQ = f32c(1e-12)
    for n in (2, 3, 4):
        F_ = 'float%d' % n; a = (F_, 'a'); b = (F_, 'b'); s = ('float', 's')
        N = lambda k: F_ + '_' + k
        p.ob(N('dot'), 'dot(a,b)', [a, b], 'float', lambda a, b: dot(a, b))
        p.ob(N('lengthSq'), 'lengthSq(a)', [a], 'float', lambda a: lensq(a))
        p.ob(N('length'), 'length(a)', [a], 'float', lambda a: length(a))
        p.ob(N('distanceSq'), 'distanceSq(a,b)', [a, b], 'float', lambda a, b: lensq(sub(a, b)))
        p.ob(N('distance'), 'distance(a,b)', [a, b], 'float', lambda a, b: length(sub(a, b)))
        p.ob(N('isClose'), 'isClose(a,b,s)', [a, b, s], 'bool', lambda a, b, s: fle(lensq(sub(a, b)), s[0]))
        p.ob(N('isClose_default'), 'isClose(a,b)', [a, b], 'bool', lambda a, b: fle(lensq(sub(a, b)), DSQ))
        p.ob(N('normalize'), 'normalize(a)', [a], F_, lambda a: normalize(a))
        p.ob(N('isNormalized'), 'isNormalized(a,s)', [a, s], 'bool', lambda a, s: fle(fabs_(lensq(a) - 1), s[0]))
        p.ob(N('isNormalized_default'), 'isNormalized(a)', [a], 'bool', lambda a: fle(fabs_(lensq(a) - 1), TOL))
    a = ('float3', 'a'); b = ('float3', 'b')
    p.ob('cross', 'cross(a,b)', [a, b], 'float3', lambda a, b: cross(a, b))
    A = ('f32x4', 'a'); B = ('f32x4', 'b'); s = ('float', 's')
    for n in (3, 4):
        N = lambda k: 'simd_%s%d' % (k, n)
        X = lambda k, n=n: '%s%d' % (k, n)
        c = lambda v, n=n: Vec(v[:n])
        p.ob(N('dot'), 'dot%d(a,b)' % n, [A, B], 'float', lambda a, b, c=c: dot(c(a), c(b)))
        p.ob(N('dotV'), 'dotV%d(a,b)' % n, [A, B], 'f32x4', lambda a, b, c=c: [dot(c(a), c(b))] * 4)
        p.ob(N('lengthSq'), 'lengthSq%d(a)' % n, [A], 'float', lambda a, c=c: lensq(c(a)))
        p.ob(N('length'), 'length%d(a)' % n, [A], 'float', lambda a, c=c: length(c(a)))
        p.ob(N('distanceSq'), 'distanceSq%d(a,b)' % n, [A, B], 'float', lambda a, b, c=c: lensq(sub(c(a), c(b))))
        p.ob(N('distance'), 'distance%d(a,b)' % n, [A, B], 'float', lambda a, b, c=c: length(sub(c(a), c(b))))
        p.ob(N('normalize'), 'normalize%d(a)' % n, [A], 'f32x4', lambda a, c=c, n=n: list(normalize(c(a))) + [None] * (4 - n))
        p.ob(N('isNormalized'), 'isNormalized%d(a,s)' % n, [A, s], 'bool', lambda a, s, c=c: fle(fabs_(lensq(c(a)) - 1), s[0]))
        p.ob(N('isNormalized_default'), 'isNormalized%d(a)' % n, [A], 'bool', lambda a, c=c: fle(fabs_(lensq(c(a)) - 1), TOL))
    p.ob('simd_cross3', 'cross3(a,b)', [A, B], 'f32x4', lambda a, b: list(cross(a, b)) + [None])
    for t in ('float', 'float2', 'float3', 'float4', 'f32x4'):
        v = (t, 'v')
        p.ob(t + '_radians', 'radians(v)', [v], t, lambda v: [x * PI / 180 for x in v])
        p.ob(t + '_degrees', 'degrees(v)', [v], t, lambda v: [Alt(x * 180 / PI, x * f32c(180 / f32(math.pi))) for x in v])
    return p
