from .lib import *
def build():
    p = Prop('V03', ['math/simd/vector.hpp' if False else 'math/simd/vector/float.hpp', 'math/simd/vector/int.hpp', 'math/simd/vector/uint.hpp'],
             'SIMD vectors equal lane-by-lane scalar semantics on every backend')
    p.helpers = '''
template<typename V, typename S> static void swz(const V& v, S* o) { auto t = v; t.store(o); }
'''
    for V in ('f32x4', 'u32x4', 'i32x4'): common(p, V)
    floats(p); ints(p, False); ints(p, True); conv(p)
    return p
K = {'f32x4': ('float', 'float', 'arr', 'Arr'), 'u32x4': ('uint32', 'uint', 'uarr', 'UArr'), 'i32x4': ('int32', 'int', 'uarr', 'UArr')}
def common(p, V):
    S, base, arr, A_ = K[V]
    a = (V, 'a'); s = (S, 's'); b = (V, 'b')
    N = lambda n: '%s_%s' % (V, n)
    cast = (lambda e: '(%s*)(%s)' % (S, e)) if V == 'i32x4' else (lambda e: e)
    p.ob(N('default'), '%s()' % V, [], V, lambda: [0, 0, 0, 0])
    p.ob(N('splat'), '%s(s)' % V, [s], V, lambda s: [s[0]] * 4)
    p.ob(N('c4'), '%s(x,y,z,w)' % V, [(S, c) for c in 'xyzw'], V, lambda *v: [t[0] for t in v])
    p.ob(N('c3'), '%s(x,y,z)' % V, [(S, c) for c in 'xyz'], V, lambda x, y, z: [x[0], y[0], z[0], z[0]])
    p.ob(N('cw'), '%s(a,s)' % V, [a, s], V, lambda a, s: [a.x, a.y, a.z, s[0]])
    for n in (4, 3, 2):
        p.ob(N('from%d' % n), '%s(v)' % V, [('%s%d' % (base, n), 'v')], V, lambda v, n=n: (list(v) + [v[-1]] * 3)[:4], what='%s(%s%d)' % (V, base, n))
        p.ob(N('to%d' % n), '', [a], '%s%d' % (base, n), lambda a, n=n: a[:n], body='*out = (%s%d)a;' % (base, n), what='%s::operator %s%d()' % (V, base, n))
    p.ob(N('to1'), '', [a], S, lambda a: a.x, body='*out = (%s)a;' % S, what='%s::operator %s()' % (V, S))
    p.ob(N('fromptr'), '', [(arr + '4', 'm')], V, lambda m: list(m), body='*out = %s(%s);' % (V, '(const %s*)m.v' % S), what='%s(const %s*)' % (V, S))
    p.ob(N('loadal'), '', [(arr + '4', 'm')], V, lambda m: list(m), body='%s t; t.loadAligned((const %s*)m.v); *out = t;' % (V, S), what='%s::loadAligned' % V)
    for st in ('store', 'storeAligned'):
        p.ob(N(st), '', [a], arr + '4', lambda a: list(a), body='%s t = a; t.%s((%s*)out->v);' % (V, st, S), what='%s::%s' % (V, st))
    for i, c in enumerate('XYZW'):
        p.ob(N('get' + c), 'a.get%s()' % c, [a], S, lambda a, i=i: a[i])
        p.ob(N('idx' + c), 'a[%d]' % i, [a], S, lambda a, i=i: a[i])
        upd = lambda a, s, i=i: [s[0] if k == i else a[k] for k in range(4)]
        p.ob(N('set' + c), '', [a, s], V, upd, body='%s t = a; t.set%s(s); *out = t;' % (V, c), what='%s::set%s' % (V, c))
        p.ob(N('seti' + c), '', [a, s], V, upd, body='%s t = a; t[%d] = s; *out = t;' % (V, i), what='%s::operator[]' % V)
        p.ob(N('splat' + c), 'a.splat%s()' % c, [a], V, lambda a, i=i: [a[i]] * 4)
    p.ob(N('fixW'), '', [a], V, lambda a: [a.x, a.y, a.z, a.z], body='%s t = a; t.fixW(); *out = t;' % V, what='%s::fixW' % V)
    p.ob(N('copy'), 'a', [a], V, lambda a: list(a), body='%s t(a); %s q; q = t; *out = q;' % (V, V), what='%s copy' % V)
    for x in range(4):
        for y in range(4):
            for h in range(1):
                bd = ' '.join('{ %s t = a.swizzle<%d,%d,%d,%d>(); t.store((%s*)out->v + %d); }' % (V, x, y, z, w, S, 4 * (4 * z + w)) for z in range(4) for w in range(4))
                p.ob(N('swz%d%d' % (x, y)), '', [a], arr + '64', lambda a, x=x, y=y: [a[k] for z in range(4) for w in range(4) for k in (x, y, z, w)], body=bd, what='%s::swizzle<%d,%d,*,*>' % (V, x, y))
    if V != 'u32x4':
        p.ob(N('swz3'), '', [a], V, lambda a: [a.z, a.x, a.y, a.z], body='*out = a.swizzle<SwZ, SwX, SwY>();', what='%s::swizzle default W' % V)
    p.ob(N('asg_s'), '', [a, s], V, lambda a, s: [s[0]] * 4, body='%s t = a; t = s; *out = t;' % V, what='%s::operator=(scalar)' % V)
    one = 1 if V != 'f32x4' else 1
    ks = [('zero', 0), ('one', 1)] + ([('minusOne', -1)] if V != 'u32x4' else [])
    if V == 'u32x4': ks.append(('max', 0xffffffff))
    if V == 'i32x4': ks += [('min', -2**31), ('max', 2**31 - 1)]
    for k, v in ks: p.ob(N('k_' + k), '%s::%s' % (V, k), [], V, lambda v=v: [v] * 4 if V != 'f32x4' else [C(v)] * 4)
def ops(p, V, S, table):
    a = (V, 'a'); b = (V, 'b'); s = (S, 's')
    N = lambda n: '%s_%s' % (V, n)
    for nm, op, f, kind, vec_s, s_vec, asg in table:
        rg = None; asm = None; pos = None
        if kind == 'sh': rg = {'b.*': (0, 31), 's': (0, 31)}; asm = lambda b: ball([ilt(x, iconst(32, 32), False) for x in b])
        elif kind == 'div':
            rg = {'b.*': (1, 9), 's': (1, 9)}
            asm = (lambda b: ball([ilt(iconst(32, 0), x, True) for x in b])) if S == 'int32' else lambda b: ball([bnot(ieq(x, iconst(32, 0))) for x in b])
        am = dict(assume=(lambda a, b, asm=asm: asm(b)) if asm else None, ranges=rg)
        sm = dict(assume=(lambda s, b, asm=asm: asm(b)) if asm else None, ranges=rg and {'b.*': rg['b.*']})
        p.ob(N(nm), 'a %s b' % op, [a, b], V, lambda a, b, f=f: each(f, a, b), **am)
        if vec_s: p.ob(N(nm + '_s'), 'a %s s' % op, [a, s], V, lambda a, s, f=f: [f(x, s[0]) for x in a], **am)
        if s_vec: p.ob(N('s_' + nm), 's %s b' % op, [s, b], V, lambda s, b, f=f: [f(s[0], x) for x in b], **sm)
        if asg:
            p.ob(N(nm + '_asg'), '', [a, b], V, lambda a, b, f=f: each(f, a, b), body='%s t = a; t %s= b; *out = t;' % (V, op), what='%s::operator%s=' % (V, op), **am)
            if not kind:
                p.ob(N(nm + '_asg_ref'), '', [a, b, ('%s' % V, 'c')], V, lambda a, b, c, f=f: each(lambda x, y, z: f(f(x, y), z), a, b, c), body='%s t = a; (t %s= b) %s= c; *out = t;' % (V, op, op), what='%s::operator%s= returns *this' % (V, op))
            p.ob(N(nm + '_s_asg'), '', [a, s], V, lambda a, s, f=f: [f(x, s[0]) for x in a], body='%s t = a; t %s= s; *out = t;' % (V, op), what='%s::operator%s=(scalar)' % (V, op), **am)
            if kind is None: p.ob(N(nm + '_ref'), '', [a, b], V, lambda a, b, f=f: each(lambda x, y: f(f(x, y), y), a, b), body='%s t = a; (t %s= b) %s= b; *out = t;' % (V, op, op), what='%s::operator%s= returns *this' % (V, op))
def ints(p, sg):
    V = 'i32x4' if sg else 'u32x4'; S = 'int32' if sg else 'uint32'
    t = [('add', '+', iadd, None, 1, 1, 1), ('sub', '-', isub, None, 1, 1, 1), ('mul', '*', imul, None, 1, 1, 1),
         ('div', '/', lambda a, b: idiv('sdiv' if sg else 'udiv', a, b), 'div', 1, 1, 1), ('mod', '%', lambda a, b: idiv('srem' if sg else 'urem', a, b), 'div', 1, 1, 1),
         ('and', '&', iand, None, 1, 1, 1), ('or', '|', ior, None, 1, 1, 1), ('xor', '^', ixor, None, 1, 1, 1),
         ('shr', '>>', lambda a, b: ishift('ashr' if sg else 'lshr', a, b), 'sh', 1, 1, 1), ('shl', '<<', lambda a, b: ishift('shl', a, b), 'sh', 1, 1, 1)]
    ops(p, V, S, t)
    a = (V, 'a'); b = (V, 'b'); c = (V, 'c')
    N = lambda n: '%s_%s' % (V, n)
    if sg: p.ob(N('neg'), '-a', [a], V, lambda a: [isub(iconst(32, 0), x) for x in a])
    p.ob(N('lnot'), '!a', [a], V, lambda a: [ite(ieq(x, iconst(32, 0)), iconst(32, 1), iconst(32, 0)) for x in a])
    p.ob(N('bnot'), '~a', [a], V, lambda a: [ixor(x, iconst(32, -1)) for x in a])
    p.ob(N('bic'), 'bic(a,b)', [a, b], V, lambda a, b: each(lambda x, y: iand(x, ixor(y, iconst(32, -1))), a, b))
    mn = lambda x, y: imin(x, y, sg); mx = lambda x, y: imax(x, y, sg)
    for nm, f in (('min', mn), ('max', mx)):
        p.ob(N(nm), '%s(a,b)' % nm, [a, b], V, lambda a, b, f=f: each(f, a, b))
        p.ob(N(nm + 'h'), '%s(a)' % nm, [a], S, lambda a, f=f: f(f(a.x, a.y), f(a.z, a.w)))
        p.ob(N(nm + '4'), '%s4(a)' % nm, [a], S, lambda a, f=f: f(f(a.x, a.y), f(a.z, a.w)))
        p.ob(N(nm + '3'), '%s3(a)' % nm, [a], S, lambda a, f=f: f(f(a.x, a.y), a.z))
    p.ob(N('clamp'), 'clamp(a,b,c)', [a, b, c], V, lambda a, b, c: each(lambda v, lo, hi: mx(mn(v, hi), lo), a, b, c),
         assume=lambda a, b, c: ball([bnot(ilt(y, x, sg)) for x, y in zip(b, c)]))
def floats(p):
    V = 'f32x4'
    ops(p, V, 'float', [(n, o, f, None, 1, 1, 1) for n, o, f in ARITH])
    a = (V, 'a'); b = (V, 'b'); c = (V, 'c'); s = ('float', 's')
    N = lambda n: 'f32x4_%s' % n
    p.ob(N('neg'), '-a', [a], V, lambda a: [-x for x in a])
    for nm, f in (('min', fmin), ('max', fmax)):
        p.ob(N(nm), '%s(a,b)' % nm, [a, b], V, lambda a, b, f=f: each(f, a, b))
        p.ob(N(nm + '4'), '%s4(a)' % nm, [a], 'float', lambda a, f=f: f(f(a.x, a.y), f(a.z, a.w)))
        p.ob(N(nm + '3'), '%s3(a)' % nm, [a], 'float', lambda a, f=f: f(f(a.x, a.y), a.z))
    le = lambda b, c: ball([fle(x, y) for x, y in zip(b, c)])
    p.ob(N('clamp'), 'clamp(a,b,c)', [a, b, c], V, lambda a, b, c: each(lambda v, lo, hi: fmin(fmax(v, lo), hi), a, b, c), assume=lambda a, b, c: le(b, c))
    p.ob(N('fma'), 'fma(a,b,c)', [a, b, c], V, lambda a, b, c: each(lambda x, y, z: x * y + z, a, b, c))
    p.ob(N('abs'), 'abs(a)', [a], V, lambda a: [fabs_(x) for x in a])
    p.ob(N('sqrt'), 'sqrt(a)', [a], V, lambda a: [fsqrt(x) for x in a], assume=lambda a: ball([fle(C(0), x) for x in a]), ranges={'a.*': (0, 9)})
    p.ob(N('sign'), 'sign(a)', [a], V, lambda a: [sign(x) for x in a])
    p.ob(N('signBits'), '(uint32)signBits(a)', [a], 'uint32', lambda a: fsumi([ite(isneg(x), iconst(32, 1 << k), iconst(32, 0)) for k, x in enumerate(a)]))
    for nm in ('floor', 'ceil', 'trunc'): p.ob(N(nm), '%s(a)' % nm, [a], V, lambda a, nm=nm: [fn1(nm, x) for x in a])
    p.ob(N('round'), 'round(a)', [a], V, lambda a: [Alt(fn1('round', x), fn1('nearbyint', x)) for x in a])
    p.ob(N('pow'), 'pow(a,b)', [a, b], V, lambda a, b: each(libm2('pow'), a, b), ranges={'a.*': (0, 9)})
    p.ob(N('mod'), 'mod(a,b)', [a, b], V, lambda a, b: each(lambda n, d: n - fn1('floor', n / d) * d, a, b),
         assume=lambda a, b: ball([fle(C(0), x) for x in a] + [flt(C(0), x) for x in b]), ranges={'a.*': (0, 9), 'b.*': (0.1, 4)})
    p.ob(N('repeat'), 'repeat(a)', [a], V, lambda a: [repeat_any(x) for x in a])
    p.ob(N('lerp'), 'lerp(a,b,s)', [a, b, s], V, lambda a, b, s: each(lambda x, y: x * (C(1) - s[0]) + y * s[0], a, b))
    p.ob(N('lerpDelta'), 'lerpDelta(a,b,s,t)', [a, b, s, ('float', 't')], V, lambda a, b, s, t: each(lambda x, y: x * libm2('pow')(s[0], t[0]) + y * (C(1) - libm2('pow')(s[0], t[0])), a, b), ranges={'s': (0, 1), 't': (0, 2)})
    for k, ax, v in (('left', 0, -1), ('right', 0, 1), ('bottom', 1, -1), ('top', 1, 1), ('back', 2, -1), ('front', 2, 1)):
        p.ob(N('k_' + k), 'f32x4::' + k, [], V, lambda ax=ax, v=v: [C(v if i == ax else 0) for i in range(4)])
    import struct
    F = lambda h: leaf(D.snap_bits32(h))
    for k, h in (('min', 0x00800000), ('minusMin', 0x80800000), ('max', 0x7f7fffff), ('minusMax', 0xff7fffff), ('epsilon', 0x34000000)):
        p.ob(N('k_' + k), 'f32x4::' + k, [], V, lambda h=h: [F(h)] * 4)
    p.ob(N('k_inf'), 'f32x4::inf', [], V, lambda: [INF] * 4)
    p.ob(N('k_minusInf'), 'f32x4::minusInf', [], V, lambda: [fneg(INF)] * 4)
def fsumi(xs):
    r = None
    for x in xs: r = x if r is None else iadd(r, x)
    return r
def conv(p):
    f = ('f32x4', 'f'); u = ('u32x4', 'u'); i = ('i32x4', 'i')
    lim = lambda lo, hi: (lambda f: ball([band(flt(C(lo), x), flt(x, C(hi))) for x in f]))
    p.ob('cv_u2f', 'f32x4(u)', [u], 'f32x4', lambda u: [Alt(conv_('uitofp', x), C(65536) * conv_('sitofp', ishift('lshr', x, iconst(32, 16))) + conv_('sitofp', iand(x, iconst(32, 65535)))) for x in u])
    p.ob('cv_i2f', 'f32x4(i)', [i], 'f32x4', lambda i: [conv_('sitofp', x) for x in i])
    p.ob('cv_f2u', '(u32x4)f', [f], 'u32x4', lambda f: [Alt(conv_('fptoui', x), ite(flt(x, C(2 ** 31)), conv_('fptosi', x), ixor(conv_('fptosi', x - C(2 ** 31)), iconst(32, 1 << 31)))) for x in f], assume=lim(-1, 4294967296), ranges={'f.*': (0, 4.2e9)})
    p.ob('cv_f2i', '(i32x4)f', [f], 'i32x4', lambda f: [conv_('fptosi', x) for x in f], assume=lim(-2147483648, 2147483648), ranges={'f.*': (-2.1e9, 2.1e9)})
    p.ob('cv_u2i', 'i32x4(u)', [u], 'i32x4', lambda u: list(u))
    p.ob('cv_i2u', '(u32x4)i', [i], 'u32x4', lambda i: list(i))
    p.ob('cv_uaf', 'uintAsFloat(u)', [u], 'f32x4', lambda u: [bits2f(x) for x in u])
    p.ob('cv_iaf', 'intAsFloat(i)', [i], 'f32x4', lambda i: [bits2f(x) for x in i])
    p.ob('cv_fau', 'floatAsUint(f)', [f], 'u32x4', lambda f: [f2bits(x) for x in f])
    p.ob('cv_fai', 'floatAsInt(f)', [f], 'i32x4', lambda f: [f2bits(x) for x in f])
    p.ob('cv_uai', 'uintAsInt(u)', [u], 'i32x4', lambda u: list(u))
    p.ob('cv_u2f_f3', '', [u], 'f32x4', lambda u: [conv_('uitofp', x) for x in u], body='u32x4 t = u & u32x4(0x7fffffffu); *out = f32x4(t);', what='f32x4(u32x4) below 2^31') if False else None
def conv_(op, x): return D.conv(op, x, 32)
