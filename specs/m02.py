from .lib import *
from .v04 import order
def build():
    p = Prop('M02', ['math/simd/matrix/float.hpp'], 'SIMD matrices agree with scalar matrices')
    T = 'f32x4x4'; a, b, s, v = (T, 'a'), (T, 'b'), ('float', 's'), ('f32x4', 'v')
    names = ['c%dr%d' % (i, j) for j in range(4) for i in range(4)]
    p.ob('splat', 'f32x4x4(s)', [s], T, lambda s: [s[0]] * 16)
    p.ob('default', 'f32x4x4()', [], T, lambda: [0] * 16)
    p.ob('ctor', 'f32x4x4(%s)' % ','.join(names), [('float', x) for x in names], T, lambda *q: [q[j * 4 + i][0] for i in range(4) for j in range(4)])
    K = [('f32x4', 'k%d' % i) for i in range(4)]
    p.ob('cols4', 'f32x4x4(k0,k1,k2,k3)', K, T, lambda *q: [x for w in q for x in w])
    p.ob('cols3', 'f32x4x4(k0,k1,k2)', K[:3], T, lambda *q: [x for w in q for x in w] + list(q[2]))
    p.ob('from4x4', 'f32x4x4(m)', [('float4x4', 'm')], T, lambda m: list(m))
    p.ob('from4x3', 'f32x4x4(m, v)', [('float4x3', 'm'), v], T, lambda m, v: [x for i in range(4) for x in (list(m[3 * i:3 * i + 3]) + [v[i]])])
    p.ob('from4x3d', 'f32x4x4(m)', [('float4x3', 'm')], T, lambda m: [x for i in range(4) for x in (list(m[3 * i:3 * i + 3]) + [C(0)])])
    p.ob('from3x3', 'f32x4x4(m, c, v)', [('float3x3', 'm'), ('f32x4', 'c'), v], T, lambda m, c, v: [x for i in range(3) for x in (list(m[3 * i:3 * i + 3]) + [v[i]])] + list(c))
    p.ob('from3x3d', 'f32x4x4(m)', [('float3x3', 'm')], T, lambda m: [x for i in range(3) for x in (list(m[3 * i:3 * i + 3]) + [C(0)])] + [C(0)] * 4)
    for c, r in ((4, 4), (4, 3), (3, 3), (2, 2)):
        t = 'float%dx%d' % (c, r)
        p.ob('to%dx%d' % (c, r), '', [a], t, lambda a, c=c, r=r: [a[4 * i + j] for i in range(c) for j in range(r)], body='*out = (%s)a;' % t, what='f32x4x4::operator %s()' % t)
    for i in range(4):
        p.ob('col%d' % i, 'a[%d]' % i, [a], 'f32x4', lambda a, i=i: a[4 * i:4 * i + 4])
        p.ob('setcol%d' % i, '', [a, v], T, lambda a, v, i=i: [v[k % 4] if k // 4 == i else a[k] for k in range(16)], body='f32x4x4 t = a; t[%d] = v; *out = t;' % i, what='f32x4x4::operator[](%d) as lvalue' % i)
        p.ob('member%d' % i, 'a.c%d' % i, [a], 'f32x4', lambda a, i=i: a[4 * i:4 * i + 4])
    for nm, op, f in ARITH:
        p.ob(nm + '_s', 'a %s s' % op, [a, s], T, lambda a, s, f=f: [f(x, s[0]) for x in a])
        p.ob(nm + '_asg', '', [a, s], T, lambda a, s, f=f: [f(f(x, s[0]), s[0]) for x in a], body='f32x4x4 t = a; (t %s= s) %s= s; *out = t;' % (op, op), what='f32x4x4::operator%s=(float)' % op)
    mv = lambda a, v, n=4: [fsum([a[4 * i + j] * v[i] for i in range(n)]) for j in range(4)]
    p.ob('mulv', 'a * v', [a, v], 'f32x4', lambda a, v: mv(a, v))
    p.ob('mul', 'a * b', [a, b], T, lambda a, b: matmul(a, b, 4))
    p.ob('matmul_asg_ref', '', [a, b], T, lambda a, b: matmul(matmul(a, b, 4), b, 4), body='f32x4x4 t = a; (t *= b) *= b; *out = t;', what='f32x4x4::operator*= returns *this')
    p.ob('matmul_asg', '', [a, b], T, lambda a, b: matmul(a, b, 4), body='f32x4x4 t = a; t *= b; *out = t;', what='f32x4x4::operator*=')
    p.ob('mul_self', '', [a], T, lambda a: matmul(a, a, 4), body='f32x4x4 t = a; t *= t; *out = t;', what='f32x4x4::operator*= with itself')
    m3 = lambda a, b: [x for c in range(3) for x in [fsum([a[4 * k + r] * b[4 * c + k] for k in range(3)]) for r in range(3)] + [None]] + [None] * 4
    p.ob('mul3', 'multiply3x3(a,b)', [a, b], T, m3)
    p.ob('mul3v', 'multiply3x3(a,v)', [a, v], 'f32x4', lambda a, v: mv(a, v, 3)[:3] + [None])
    p.ob('transpose4', 'transpose4x4(a)', [a], T, lambda a: [a[4 * j + i] for i in range(4) for j in range(4)])
    p.ob('transpose3', 'transpose3x3(a)', [a], T, lambda a: [x for i in range(3) for x in [a[4 * j + i] for j in range(3)] + [None]] + list(a[12:]))
    eq = lambda a, b: ball([feq(x, y) for x, y in zip(a, b)])
    p.ob('eq', 'a == b', [a, b], 'bool', eq)
    p.ob('ne', 'a != b', [a, b], 'bool', lambda a, b: bnot(eq(a, b)))
    for k, q in (('zero', 0), ('one', 1), ('minusOne', -1)): p.ob('k_' + k, 'f32x4x4::' + k, [], T, lambda q=q: [q] * 16)
    p.ob('k_identity', 'f32x4x4::identity', [], T, lambda: [int(i == j) for i in range(4) for j in range(4)])
    L = 'isBinaryLess(%s,%s)'
    p.ob('less_irreflexive', L % ('a', 'a'), [a], 'bool', lambda a: FALSE, what='isBinaryLess(a,a)')
    p.ob('less_asymmetric', '%s && %s' % (L % ('a', 'b'), L % ('b', 'a')), [a, b], 'bool', lambda a, b: FALSE, what='isBinaryLess(a,b) && isBinaryLess(b,a)')
    p.ob('less_total', '%s || %s' % (L % ('a', 'b'), L % ('b', 'a')), [a, b], 'bool', lambda a, b: bnot(eq(a, b)), what='isBinaryLess(a,b) || isBinaryLess(b,a)')
    return p
