from .lib import *
def build():
    p = Prop('V01', ['math/vector.hpp'], 'Scalar float vectors act component-wise')
    # scalar helpers of common.hpp
    f1 = [('float', 'a')]; f2 = f1 + [('float', 'b')]; f3 = f2 + [('float', 'c')]
    p.ob('s_min3', 'min(a,b,c)', f3, 'float', lambda a, b, c: fmin(fmin(a[0], b[0]), c[0]))
    p.ob('s_max3', 'max(a,b,c)', f3, 'float', lambda a, b, c: fmax(fmax(a[0], b[0]), c[0]))
    i3 = [('int32', 'a'), ('int32', 'b'), ('int32', 'c')]
    p.ob('s_imin3', 'min(a,b,c)', i3, 'int32', lambda a, b, c: imin(imin(a[0], b[0], True), c[0], True))
    p.ob('s_imax3', 'max(a,b,c)', i3, 'int32', lambda a, b, c: imax(imax(a[0], b[0], True), c[0], True))
    p.ob('s_sign', 'sign(a)', f1, 'float', lambda a: sign(a[0]))
    p.ob('s_repeat', 'math::repeat(a)', f1, 'float', lambda a: repeat_any(a[0]))
    p.ob('s_lerp', 'math::lerp(a,b,c)', f3, 'float', lambda a, b, c: a[0] * (C(1) - c[0]) + b[0] * c[0])
    p.ob('s_lerpDelta', 'lerpDelta(a,b,c,d)', f3 + [('float', 'd')], 'float',
         lambda a, b, c, d: a[0] + (C(1) - fn2('pow', c[0], d[0])) * (b[0] - a[0]), ranges={'c': (0.05, 1.0), 'd': (0.0, 2.0)})
    p.ob('s_gain', 'gain(a,b)', f2, 'float', lambda a, b: gain(a[0], b[0]), ranges={'a': (0.0, 1.0), 'b': (0.1, 4.0)})
    for n in (2, 3, 4):
        T, UT, IT = fv(n), uv(n), iv(n)
        A, B, Cc, S = (T, 'a'), (T, 'b'), (T, 'c'), ('float', 's')
        N = lambda nm: '%s_%s' % (T, nm)
        p.ob(N('default'), '%s()' % T, [], T, lambda n=n: [C(0)] * n)
        p.ob(N('splat'), '%s(s)' % T, [S], T, lambda s, n=n: [s[0]] * n)
        comps = [('float', 'x'), ('float', 'y'), ('float', 'z'), ('float', 'w')][:n]
        p.ob(N('ctor'), '%s(%s)' % (T, ','.join('xyzw'[:n])), comps, T, lambda *v: [t[0] for t in v])
        p.ob(N('from_uint'), '%s(u)' % T, [(UT, 'u')], T, lambda u: [conv('uitofp', t) for t in u])
        p.ob(N('from_int'), '%s(u)' % T, [(IT, 'u')], T, lambda u: [conv('sitofp', t) for t in u])
        idx = [('psize', 'i')]
        for i in range(n):
            p.ob(N('get%d' % i), 'a[%d]' % i, [A], 'float', lambda a, i=i: a[i])
            p.ob(N('set%d' % i), '', [A, S], T, lambda a, s, i=i: [s[0] if k == i else a[k] for k in range(len(a))],
                 body='%s t = a; t[%d] = s; *out = t;' % (T, i), what='%s::operator[](%d) as lvalue' % (T, i))
        for m in range(2, n + 1):
            if m < n: p.ob(N('to_float%d' % m), '(float%d)a' % m, [A], fv(m), lambda a, m=m: a[:m])
            p.ob(N('to_uint%d' % m), '(uint%d)a' % m, [A], uv(m), lambda a, m=m: [conv('fptoui', t, 32) for t in a[:m]], ranges={'a.*': (0.0, 100.0)})
            p.ob(N('to_int%d' % m), '(int%d)a' % m, [A], iv(m), lambda a, m=m: [conv('fptosi', t, 32) for t in a[:m]])
        p.ob(N('to_float'), '(float)a', [A], 'float', lambda a: a[0])
        p.ob(N('to_uint'), '(uint32)a', [A], 'uint32', lambda a: conv('fptoui', a[0], 32), ranges={'a.*': (0.0, 100.0)})
        p.ob(N('to_int'), '(int32)a', [A], 'int32', lambda a: conv('fptosi', a[0], 32))
        for nm, op, f in ARITH:
            p.ob(N(nm), 'a %s b' % op, [A, B], T, lambda a, b, f=f: each(f, a, b))
            p.ob(N(nm + '_s'), 'a %s s' % op, [A, S], T, lambda a, s, f=f: [f(x, s[0]) for x in a])
            p.ob(N('s_' + nm), 's %s a' % op, [S, A], T, lambda s, a, f=f: [f(s[0], x) for x in a])
            p.ob(N(nm + '_asg'), '', [A, B], T, lambda a, b, f=f: each(f, a, b), body='%s t = a; t %s= b; *out = t;' % (T, op), what='%s::operator%s=(%s)' % (T, op, T))
            p.ob(N(nm + '_s_asg'), '', [A, S], T, lambda a, s, f=f: [f(x, s[0]) for x in a], body='%s t = a; t %s= s; *out = t;' % (T, op), what='%s::operator%s=(float)' % (T, op))
            p.ob(N(nm + '_asg_ref'), '', [A, B], T, lambda a, b, f=f: each(lambda x, y: f(f(x, y), y), a, b), body='%s t = a; (t %s= b) %s= b; *out = t;' % (T, op, op), what='%s::operator%s= returns *this' % (T, op))
        p.ob(N('asg_s'), '', [A, S], T, lambda a, s: [s[0] + x for x in a], body='%s t; (t = s) += a; *out = t;' % T, what='%s::operator=(float)' % T)
        p.ob(N('s_asg_ref'), '', [A, S], T, lambda a, s: [(((x + s[0]) - s[0] * s[0]) * s[0]) / s[0] for x in a], body='%s t = a; (((t += s) -= s * s) *= s) /= s; *out = t;' % T, what='%s compound operators return *this' % T)
        p.ob(N('signBits'), '(uint32)signBits(a)', [A], 'uint32', lambda a: isumi([ite(isneg(x), iconst(32, 1 << k), iconst(32, 0)) for k, x in enumerate(a)]))
        p.ob(N('neg'), '-a', [A], T, lambda a: [-x if False else C(0) - x for x in a])
        for nm, f in (('min', fmin), ('max', fmax)):
            p.ob(N(nm), '%s(a,b)' % nm, [A, B], T, lambda a, b, f=f: each(f, a, b))
            p.ob(N(nm + '3'), '%s(a,b,c)' % nm, [A, B, Cc], T, lambda a, b, c, f=f: each(lambda x, y, z: f(f(x, y), z), a, b, c))
        p.ob(N('clamp'), 'clamp(a,b,c)', [A, B, Cc], T, lambda a, b, c: each(lambda v, lo, hi: fmin(fmax(v, lo), hi), a, b, c),
             assume=lambda a, b, c: ball([fle(x, y) for x, y in zip(b, c)]))
        p.ob(N('fma'), 'fma(a,b,c)', [A, B, Cc], T, lambda a, b, c: each(lambda x, y, z: x * y + z, a, b, c))
        for nm, f in (('abs', fabs_), ('sqrt', fsqrt), ('sign', sign), ('round', libm('round')), ('floor', libm('floor')), ('ceil', libm('ceil')),
                      ('trunc', libm('trunc')), ('repeat', repeat_any)):
            p.ob(N(nm), '%s(a)' % nm, [A], T, lambda a, f=f: each(f, a))
        p.ob(N('lerp'), 'lerp(a,b,s)', [A, B, S], T, lambda a, b, s: each(lambda x, y: x * (C(1) - s[0]) + y * s[0], a, b))
        p.ob(N('lerpDelta'), 'lerpDelta(a,b,s,d)', [A, B, S, ('float', 'd')], T,
             lambda a, b, s, d: each(lambda x, y: x + (C(1) - fn2('pow', s[0], d[0])) * (y - x), a, b), ranges={'s': (0.05, 1.0), 'd': (0.0, 2.0)})
        p.ob(N('gain'), 'gain(a,b)', [A, B], T, lambda a, b: each(gain, a, b), ranges={'a.*': (0.0, 1.0), 'b.*': (0.1, 4.0)})
        for nm in 'exp exp2 expm1 log log10 log2 log1p cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh'.split():
            rg = {'a.*': (0.1, 0.9)} if nm not in ('acosh',) else {'a.*': (1.1, 4.0)}
            p.ob(N(nm), '%s(a)' % nm, [A], T, lambda a, nm=nm: each(libm(nm), a), ranges=rg)
        p.ob(N('pow'), 'pow(a,b)', [A, B], T, lambda a, b: each(libm2('pow'), a, b), ranges={'a.*': (0.1, 3.0)})
        p.ob(N('mod'), 'mod(a,b)', [A, B], T, lambda a, b: each(fmod, a, b))
        p.ob(N('atan2'), 'atan(a,b)', [A, B], T, lambda a, b: each(libm2('atan2'), a, b))
        consts = dict(zero=0, one=1, minusOne=-1)
        for k, v in consts.items(): p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda v=v, n=n: [C(v)] * n)
        for k, v in dict(min=1.17549435e-38, minusMin=-1.17549435e-38, max=3.40282347e38, minusMax=-3.40282347e38, epsilon=1.1920929e-7).items():
            p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda v=v, n=n: [leaf(snap(f32(v)))] * n)
        p.ob(N('k_inf'), '%s::inf' % T, [], T, lambda n=n: [INF] * n)
        p.ob(N('k_minusInf'), '%s::minusInf' % T, [], T, lambda n=n: [C(0) - INF] * n)
        if n < 4:
            for k, ax, v in (('left', 0, -1), ('right', 0, 1), ('bottom', 1, -1), ('top', 1, 1)) + ((('back', 2, -1), ('front', 2, 1)) if n == 3 else ()):
                p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda ax=ax, v=v, n=n: [C(v if i == ax else 0) for i in range(n)])
    V2 = ('float2', 'p'); V2q = ('float2', 'q'); V3 = ('float3', 'p'); S = ('float', 's'); R = ('float', 'r')
    p.ob('f3_21', 'float3(p,s)', [V2, S], 'float3', lambda p, s: [p.x, p.y, s[0]])
    p.ob('f3_12', 'float3(s,p)', [S, V2], 'float3', lambda s, p: [s[0], p.x, p.y])
    p.ob('f4_211', 'float4(p,s,r)', [V2, S, R], 'float4', lambda p, s, r: [p.x, p.y, s[0], r[0]])
    p.ob('f4_121', 'float4(s,p,r)', [V2, S, R], 'float4', lambda p, s, r: [s[0], p.x, p.y, r[0]])
    p.ob('f4_112', 'float4(s,r,p)', [V2, S, R], 'float4', lambda p, s, r: [s[0], r[0], p.x, p.y])
    p.ob('f4_22', 'float4(p,q)', [V2, V2q], 'float4', lambda p, q: [p.x, p.y, q.x, q.y])
    p.ob('f4_31', 'float4(p,s)', [V3, S], 'float4', lambda p, s: [p.x, p.y, p.z, s[0]])
    p.ob('f4_13', 'float4(s,p)', [S, V3], 'float4', lambda s, p: [s[0], p.x, p.y, p.z])
    return p
