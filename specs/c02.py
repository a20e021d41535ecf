from .lib import *
from .t01 import v3
def cond(c, a, b): return ite(c, a, b)
def to_s(x): return ite(fle(x, f32c(0.0031308)), x * f32c(12.92), f32c(1.055) * fn2('pow', x, f32c(1 / f32(2.4))) - f32c(0.055))
def to_l(x): return ite(fle(x, f32c(0.04045)), x * f32c(1 / f32(12.92)), fn2('pow', (x + f32c(0.055)) * f32c(1 / f32(1.055)), f32c(2.4)))
XYZ = ((0.4124564, 0.3575761, 0.1804375), (0.2126729, 0.7151522, 0.0721750), (0.0193339, 0.1191920, 0.9503041))
RGB = ((3.2404542, -1.5371385, -0.4985314), (-0.9692660, 1.8760108, 0.0415560), (0.0556434, -0.2040259, 1.0572252))
def mul(m, v): return Vec([fsum([f32c(k) * x for k, x in zip(r, v)]) for r in m])
def yxy(v):
    s = v[0] + v[1] + v[2]; return Vec([v[1], v[0] / s, v[1] / s])
def xyz(v): return Vec([v[1] * v[0] / v[2], v[0], v[0] * (lift(1) - v[1] - v[2]) / v[2]])
def build():
    p = Prop('C02', ['math/color-space.hpp', 'math/tone-mapping.hpp'], 'Colour spaces and gamma')
    c, g = ('f32x4', 'c'), ('float', 'g')
    R = {'c.*': (0.01, 1.0)}
    p.ob('rgbToSrgb', 'rgbToSrgb(c)', [c], 'f32x4', lambda c: [to_s(x) for x in c[:3]] + [c[3]], ranges={'c.*': (0, 1)})
    p.ob('srgbToRgb', 'srgbToRgb(c)', [c], 'f32x4', lambda c: [to_l(x) for x in c[:3]] + [c[3]], ranges={'c.*': (0, 1)})
    N = [None]
    p.ob('rgbToXyz', 'rgbToXyz(c)', [c], 'f32x4', lambda c: list(mul(XYZ, c[:3])) + N)
    p.ob('xyzToRgb', 'xyzToRgb(c)', [c], 'f32x4', lambda c: list(mul(RGB, c[:3])) + N)
    p.ob('xyzToYxy', 'xyzToYxy(c)', [c], 'f32x4', lambda c: list(yxy(c[:3])) + N, ranges=R)
    p.ob('yxyToXyz', 'yxyToXyz(c)', [c], 'f32x4', lambda c: list(xyz(c[:3])) + N, ranges=R)
    p.ob('rgbToYxy', 'rgbToYxy(c)', [c], 'f32x4', lambda c: list(yxy(mul(XYZ, c[:3]))) + N, ranges=R)
    p.ob('yxyToRgb', 'yxyToRgb(c)', [c], 'f32x4', lambda c: list(mul(RGB, xyz(c[:3]))) + N, ranges=R)
    p.ob('yxy_roundtrip', 'yxyToXyz(xyzToYxy(c))', [c], 'f32x4', lambda c: list(c[:3]) + N, ranges=R, assume=lambda c: bnot(bany([feq(c[1], lift(0)), feq(c[0] + c[1] + c[2], lift(0))])))
    p.ob('xyz_roundtrip', 'xyzToYxy(yxyToXyz(c))', [c], 'f32x4', lambda c: list(c[:3]) + N, ranges=R, assume=lambda c: bnot(bany([feq(c[0], lift(0)), feq(c[2], lift(0))])))
    # gamma correction: every colour channel to the power of the inverse gamma, alpha untouched
    df = 'auto z = a - b; *out = f32x4(z.getX(), z.getY(), z.getZ(), a.getW());'
    p.ob('gamma', '', [c, g], 'f32x4', lambda c, g: [0, 0, 0, c[3]], body='auto a = fastGammaCorrection(c, g), b = fastPow(c, f32x4(g)); ' + df, what='fastGammaCorrection(color, invGamma)', mulcap=24)
    p.ob('gamma_default', '', [c], 'f32x4', lambda c: [0, 0, 0, c[3]], body='auto a = fastGammaCorrection(c), b = fastPow(c, f32x4(1.0f / 2.2f)); ' + df, what='fastGammaCorrection(color)', mulcap=24)
    p.ob('gamma_const', 'defaultGamma', [], 'float', lambda: f32c(2.2))
    return p
