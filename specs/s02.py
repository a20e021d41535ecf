from .lib import *
import math
PI32 = f32c(math.pi)
def rev(u):
    r = iconst(32, 0)
    for i in range(32):
        b = D.iand(ishift('lshr', u, iconst(32, i)), iconst(32, 1)) if hasattr(D, 'iand') else None
        r = iadd(r, ishift('shl', b, iconst(32, 31 - i)))
    return r
def build():
    p = Prop('S02', ['math/brdf.hpp'], 'BRDF')
    p.helpers = 'using namespace math::brdf;'
    n, r, u, a = ('float', 'n'), ('float', 'r'), ('float2', 'u'), ('float', 'a')
    def ggx(n, r):
        n, r = n[0], r[0]; d = n * n * (r * r - 1) + 1
        return r * r / (PI32 * d * d)
    p.ob('ggx', 'ggx(n, r)', [n, r], 'float', ggx, ranges={'n': (0, 1), 'r': (0.05, 1)})
    def dggx(u, a):
        a = a[0]; phi = 2 * PI32 * u[0]; c2 = (lift(1) - u[1]) / (lift(1) + (a * a - 1) * u[1]); st = fsqrt(lift(1) - c2)
        return [st * fn1('cos', phi), st * fn1('sin', phi), fsqrt(c2), None]
    p.ob('dggx', 'importanceSamplingNdfDggx(u, a)', [u, a], 'f32x4', dggx, ranges={'u.*': (0, 0.95), 'a': (0.05, 1)})
    p.ob('dggx_unit', 'lengthSq3(importanceSamplingNdfDggx(u, a))', [u, a], 'float', lambda u, a: lift(1), ranges={'u.*': (0, 0.95), 'a': (0.05, 1)})
    p.ob('ior', 'iorToReflectance(a)', [a], 'float', lambda a: fsqrt((a[0] - 1) * (a[0] - 1) / ((a[0] + 1) * (a[0] + 1)) * f32c(1 / f32(0.16))), ranges={'a': (1, 3)})
    i = ('uint32', 'i')
    p.ob('hammersley_x', 'hammersley(i, a).x', [i, a], 'float', lambda i, a: D.conv('uitofp', i[0]) * a[0])
    p.ob('hammersley_y', 'hammersley(i, a).y', [i, a], 'float', lambda i, a: D.conv('uitofp', rev(i[0])) * f32c(2.0 ** -32))
    return p
