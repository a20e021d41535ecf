from .lib import *
def rows(c, r): return [(i, j) for j in range(r) for i in range(c)]
def build():
    p = Prop('M01', ['math/matrix.hpp'], 'Scalar matrices: layout and algebra')
    for c, r in ((2, 2), (3, 3), (4, 3), (4, 4)): one(p, c, r)
    conv(p)
    return p
def at(m, i, j, r): return m[i * r + j]
def one(p, c, r):
    T = 'float%dx%d' % (c, r) if c != r else 'float%dx%d' % (c, c)
    CT = 'float%d' % r; VT = 'float%d' % c
    N = lambda k: T + '_' + k
    a, b, s = (T, 'a'), (T, 'b'), ('float', 's')
    n = c * r
    names = ['c%dr%d' % (i, j) for i, j in rows(c, r)]
    p.ob(N('default'), '%s()' % T, [], T, lambda: [0] * n)
    p.ob(N('splat'), '%s(s)' % T, [s], T, lambda s: [s[0]] * n)
    p.ob(N('ctor'), '%s(%s)' % (T, ','.join(names)), [('float', x) for x in names], T, lambda *v: [v[j * c + i][0] for i in range(c) for j in range(r)])
    cols = ['k%d' % i for i in range(c)]
    p.ob(N('cols'), '%s(%s)' % (T, ','.join(cols)), [(CT, x) for x in cols], T, lambda *v: [x for w in v for x in w])
    for i in range(c):
        p.ob(N('col%d' % i), 'a[%d]' % i, [a], CT, lambda a, i=i: a[i * r:i * r + r])
        p.ob(N('setcol%d' % i), '', [a, (CT, 'v')], T, lambda a, v, i=i: [v[k % r] if k // r == i else a[k] for k in range(n)],
             body='%s t = a; t[%d] = v; *out = t;' % (T, i), what='%s::operator[](%d) as lvalue' % (T, i))
        p.ob(N('member%d' % i), 'a.c%d' % i, [a], CT, lambda a, i=i: a[i * r:i * r + r])
    for nm, op, f in ARITH:
        p.ob(N(nm + '_s'), 'a %s s' % op, [a, s], T, lambda a, s, f=f: [f(x, s[0]) for x in a])
        p.ob(N('s_' + nm), 's %s a' % op, [a, s], T, lambda a, s, f=f: [f(s[0], x) for x in a])
        p.ob(N(nm + '_asg'), '', [a, s], T, lambda a, s, f=f: [f(f(x, s[0]), s[0]) for x in a], body='%s t = a; (t %s= s) %s= s; *out = t;' % (T, op, op), what='%s::operator%s=(float)' % (T, op))
    eq = lambda a, b: ball([feq(x, y) for x, y in zip(a, b)])
    p.ob(N('eq'), 'a == b', [a, b], 'bool', eq)
    p.ob(N('ne'), 'a != b', [a, b], 'bool', lambda a, b: bnot(eq(a, b)))
    for k, v in (('zero', 0), ('one', 1), ('minusOne', -1)): p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda v=v: [v] * n)
    p.ob(N('k_identity'), '%s::identity' % T, [], T, lambda: [int(i == j) for i in range(c) for j in range(r)])
    mv = lambda a, v: [fsum([at(a, i, j, r) * v[i] for i in range(c)]) for j in range(r)]
    p.ob(N('mulv'), 'a * v', [a, (VT, 'v')], CT, mv)
    if c == r:
        p.ob(N('mul'), 'a * b', [a, b], T, lambda a, b: matmul(a, b, c))
        p.ob(N('matmul_asg'), '', [a, b], T, lambda a, b: matmul(a, b, c), body='%s t = a; t *= b; *out = t;' % T, what='%s::operator*=' % T)
        p.ob(N('matmul_asg_ref'), '', [a, b], T, lambda a, b: matmul(matmul(a, b, c), b, c), body='%s t = a; (t *= b) *= b; *out = t;' % T, what='%s::operator*= returns *this' % T)
        p.ob(N('mul_self'), '', [a], T, lambda a: matmul(a, a, c), body='%s t = a; t *= t; *out = t;' % T, what='%s::operator*= with itself' % T)
        p.ob(N('vmul'), 'v * a', [(CT, 'v'), a], VT, lambda v, a: [fsum([at(a, i, j, r) * v[j] for j in range(r)]) for i in range(c)])
        p.ob(N('transpose'), 'transpose(a)', [a], T, lambda a: [at(a, j, i, r) for i in range(c) for j in range(r)])
def conv(p):
    sub_ = lambda a, r, c2, r2: [a[i * r + j] for i in range(c2) for j in range(r2)]
    for c, r in ((3, 3), (4, 3), (4, 4)):
        T = 'float%dx%d' % (c, r)
        for c2, r2 in ((2, 2), (3, 3), (4, 3)):
            if (c2, r2) == (c, r) or c2 > c or r2 > r: continue
            p.ob('%s_to_%dx%d' % (T, c2, r2), '', [(T, 'a')], 'float%dx%d' % (c2, r2), lambda a, r=r, c2=c2, r2=r2: sub_(a, r, c2, r2),
                 body='*out = (float%dx%d)a;' % (c2, r2), what='%s::operator float%dx%d()' % (T, c2, r2))
    v4 = lambda m, c, last, fill: None
    p.ob('float4x4_from4x3', 'float4x4(a, v)', [('float4x3', 'a'), ('float4', 'v')], 'float4x4', lambda a, v: [x for i in range(4) for x in (list(a[3 * i:3 * i + 3]) + [v[i]])])
    p.ob('float4x4_from4x3d', 'float4x4(a)', [('float4x3', 'a')], 'float4x4', lambda a: [x for i in range(4) for x in (list(a[3 * i:3 * i + 3]) + [C(0)])])
    p.ob('float4x4_from3x3', 'float4x4(a, c, v)', [('float3x3', 'a'), ('float4', 'c'), ('float4', 'v')], 'float4x4', lambda a, c, v: [x for i in range(3) for x in (list(a[3 * i:3 * i + 3]) + [v[i]])] + list(c))
    p.ob('float4x4_from3x3d', 'float4x4(a)', [('float3x3', 'a')], 'float4x4', lambda a: [x for i in range(3) for x in (list(a[3 * i:3 * i + 3]) + [C(0)])] + [C(0)] * 4)
