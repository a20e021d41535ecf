from .lib import *
K = lambda n: iconst(8, n)
def u8f(x): return D.conv('uitofp', x)
def norm(x): return u8f(x) * Q(1, 255)
def q8(x):
    """normalised channel to the nearest 8-bit value"""
    return D.conv('fptoui', fmin(fmax(x, lift(0)), lift(1)) * 255 + Q(1, 2), 8)
ult = lambda a, b: ilt(a, b, False)
def pack_(c):
    r = ires(c[0], 32)
    for i in (1, 2, 3): r = iadd(r, imul(ires(c[i], 32), iconst(32, 1 << 8 * i)))
    return r
def build():
    p = Prop('C01', ['math/color.hpp'], '8-bit colours')
    c, d, n, u = ('Color', 'c'), ('Color', 'd'), ('uint8', 'n'), ('uint32', 'u')
    R = {'f.*': (-0.5, 1.5), 's.*': (-0.5, 1.5)}
    p.ob('ctor0', 'Color()', [], 'Color', lambda: [0] * 4)
    p.ob('ctor_n', 'Color(n)', [n], 'Color', lambda n: [n[0]] * 4)
    p.ob('ctor_rgba', '', [('uint8', 'x'), ('uint8', 'y'), ('uint8', 'z'), ('uint8', 'w')], 'Color', lambda x, y, z, w: [x[0], y[0], z[0], w[0]], body='*out = Color(x, y, z, w);', what='Color(r, g, b, a)')
    # all four channels survive the packed representation, red in the lowest byte
    by = lambda u, i: ires(ishift('lshr', u, iconst(32, 8 * i)), 8)
    p.ob('ctor_data', 'Color(u)', [u], 'Color', lambda u: [by(u[0], i) for i in range(4)])
    p.ob('data', '', [c], 'Color', lambda c: list(c), body='*out = Color((uint32)c);', what='Color((uint32)color)')
    p.ob('data_u', '', [u], 'uint32', lambda u: u[0], body='Color t(u); *out = (uint32)t;', what='(uint32)Color(uint32)')
    for k in (2, 3, 4):
        f = ('float%d' % k, 'f')
        p.ob('ctor_f%d' % k, 'Color(f)', [f], 'Color', lambda f, k=k: [q8(x) for x in f] + [0] * (4 - k), ranges=R)
        p.ob('to_f%d' % k, '(float%d)c' % k, [c], 'float%d' % k, lambda c, k=k: [norm(x) for x in c[:k]])
    f = ('f32x4', 'f'); s = ('float', 's')
    p.ob('ctor_simd', 'Color(f)', [f], 'Color', lambda f: [q8(x) for x in f], ranges=R)
    p.ob('to_simd', '(f32x4)c', [c], 'f32x4', lambda c: [norm(x) for x in c])
    for i, ch in enumerate('RGBA'):
        p.ob('getNorm' + ch, 'c.getNorm%s()' % ch, [c], 'float', lambda c, i=i: norm(c[i]))
        p.ob('setNorm' + ch, '', [c, s], 'Color', lambda c, s, i=i: [q8(s[0]) if j == i else c[j] for j in range(4)], body='Color t = c; t.setNorm%s(s); *out = t;' % ch, what='Color::setNorm' + ch, ranges=R)
        p.ob('field' + ch, '', [c], 'uint8', lambda c, i=i: c[i], body='*out = c.%s;' % ch.lower(), what='Color channel ' + ch)
    al = lambda f: lambda a, b: ball([f(x, y) for x, y in zip(a, b)])
    ops = [('eq', '==', al(ieq)), ('ne', '!=', lambda a, b: bnot(al(ieq)(a, b))), ('lt', '<', al(ult)), ('gt', '>', al(lambda x, y: ult(y, x))),
           ('le', '<=', al(lambda x, y: bnot(ult(y, x)))), ('ge', '>=', al(lambda x, y: bnot(ult(x, y))))]
    for nm, op, F_ in ops:
        p.ob(nm, 'c %s d' % op, [c, d], 'bool', F_)
        p.ob(nm + '_n', 'c %s n' % op, [c, n], 'bool', lambda c, n, f=F_: f(c, [n[0]] * 4))
        p.ob('n_' + nm, 'n %s c' % op, [n, c], 'bool', lambda n, c, f=F_: f([n[0]] * 4, c))
    def less(a, b):
        r = FALSE
        for i in range(4): r = bor(ult(a[i], b[i]), band(ieq(a[i], b[i]), r))     # alpha, the highest byte, decides first
        return r
    pk = lambda c: pack_(c)
    p.ob('isBinaryLess', 'isBinaryLess(c, d)', [c, d], 'bool', lambda c, d: Alt(ult(pk(c), pk(d)), less(c, d), less(c[::-1], d[::-1])))
    p.ob('isBinaryLess_irrefl', 'isBinaryLess(c, c)', [c], 'bool', lambda c: FALSE)
    for nm, v in (('white', (255, 255, 255, 255)), ('black', (0, 0, 0, 255)), ('grey', (127, 127, 127, 255)), ('transparent', (0, 0, 0, 0)), ('red', (255, 0, 0, 255)),
                  ('green', (0, 255, 0, 255)), ('blue', (0, 0, 255, 255)), ('cyan', (0, 255, 255, 255)), ('magenta', (255, 0, 255, 255)), ('yellow', (255, 255, 0, 255))):
        p.ob('const_' + nm, 'Color::' + nm, [], 'Color', lambda v=v: list(v))
    # linear conversions go through the transfer functions and quantise to nearest
    p.ob('toLinear', '', [c], 'f32x4', lambda c: [0, 0, 0, 0], body='auto a = c.toLinear(), b = srgbToRgb((f32x4)c); *out = f32x4(a.getX() - b.getX(), a.getY() - b.getY(), a.getZ() - b.getZ(), a.getW() - b.getW());', what='Color::toLinear against srgbToRgb')
    p.ob('fromLinear', '', [f], 'Color', lambda f: [0, 0, 0, 0], body='auto a = Color::fromLinear(f), b = Color(rgbToSrgb(f)); *out = Color(a.r - b.r, a.g - b.g, a.b - b.b, a.a - b.a);', what='Color::fromLinear against rgbToSrgb')
    return p
