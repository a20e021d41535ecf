from .lib import *
import math
from .t01 import unit_quat, leafp, R4
SP = math.sqrt(math.pi); S3, S5, S15 = math.sqrt(3), math.sqrt(5), math.sqrt(15)
def k32(x): return f32c(float(f32(x)))
CA = [1 / (2 * SP), -S3 / (2 * SP), S3 / (2 * SP), -S3 / (2 * SP), S15 / (2 * SP), -S15 / (2 * SP), S5 / (4 * SP), -S15 / (2 * SP), S15 / (4 * SP)]
# K(m, l) times the cosine lobe of the band
KI = [SP / 2] + [math.sqrt(3 / (4 * math.pi)) * 2 * math.pi / 3] * 3 + [math.sqrt(5 / (4 * math.pi) * 2 / 24) * math.pi / 4, math.sqrt(5 / (4 * math.pi) * 2 / 6) * math.pi / 4,
      math.sqrt(5 / (4 * math.pi)) * math.pi / 4, math.sqrt(5 / (4 * math.pi) * 2 / 6) * math.pi / 4, math.sqrt(5 / (4 * math.pi) * 2 / 24) * math.pi / 4]
BAND = [0, 1, 1, 1, 2, 2, 2, 2, 2]
def basis(s):
    x, y, z = s
    return [lift(1), -y, z, -x, 6 * x * y, -3 * y * z, (3 * z * z - 1) * Q(1, 2), -3 * x * z, 3 * (x * x - y * y)]
def area(x, y): return fn2('atan2', x * y, fsqrt(x * x + y * y + 1))
def unit3(n):
    n = 'unit_' + n; x, y = fin(n + '.x'), fin(n + '.y')
    return [x, y, fin(n + '.z', sq=leafp(lift(1) - x * x - y * y))]
def proj1(s): return [-s[1], s[2], -s[0]]
def proj2(s):
    x, y, z = s
    return [x * y, -y * z, (3 * z * z - 1) * K36, -z * x, (x * x - y * y) * Q(1, 2)]
K36 = k32(f32(1) / (f32(2) * f32(S3)))
def rotm(q): m = R4(q); return [m[0], m[1], m[2], m[4], m[5], m[6], m[8], m[9], m[10]]
def mulv(m, s): return [m[r] * s[0] + m[3 + r] * s[1] + m[6 + r] * s[2] for r in range(3)]
def window(l, w): 
    x = lift(0)
def build():
    p = Prop('S01', ['math/sh.hpp'], 'Spherical harmonics')
    p.helpers = 'using namespace math::sh;'
    p.pre = '#include "math/vector.hpp"'
    s, v, w, t = ('float3', 's'), ('arr9', 'v'), ('float', 'w'), ('float2', 't')
    p.ob('basis', '', [s], 'arr9', lambda s: basis(s), body='computeShBasis(s, out->v);', what='computeShBasis')
    p.ob('index', '', [], 'uarr8', lambda: [0, 1, 2, 3, 4, 5, 6, 8], body='int k = 0; for (int l = 0; l < 3; l++) for (int m = -l; m <= l; m++) { int i = shIndex(m, l); if (k < 7) out->v[k++] = i; } out->v[7] = shIndex(2, 2);', what='shIndex')
    p.ob('ki', '', [], 'arr9', lambda: [k32(x) for x in KI], body='for (int i = 0; i < 9; i++) out->v[i] = ki[i];', what='ki')
    p.ob('quadrant', 'sphereQuadrantArea(s.x, s.y)', [s], 'float', lambda s: area(s[0], s[1]))
    p.ob('solidAngle', 'calcSolidAngle(t, w)', [t, w], 'float', lambda t, w: area(t[0] - w[0], t[1] - w[0]) - area(t[0] - w[0], t[1] + w[0]) - area(t[0] + w[0], t[1] - w[0]) + area(t[0] + w[0], t[1] + w[0]))
    # rotation of the coefficients is the rotation of the function: the coefficients of a direction go to those of the rotated direction
    uq = unit_quat('q'); u = unit3('s'); m = ('float3x3', 'm')
    I = {'m': rotm(uq), 's': u}
    p.ob('rotate1', '', [s, m], 'arr3', lambda s, m: proj1(mulv(m, s)), body='float3 b(-s.y, s.z, -s.x); auto r = rotateSphericalHarmonicBand1(b, m); for (int i = 0; i < 3; i++) out->v[i] = r[i];', what='rotateSphericalHarmonicBand1')
    p.ob('rotate2', '', [s, m], 'arr5', lambda s, m: proj2(mulv(m, s)), body='float b[5]; projectVecToSH2K(s, b); rotateSphericalHarmonicBand2(b, m, out->v);', what='rotateSphericalHarmonicBand2', inputs=I, coef=1e-6)
    p.ob('rotate3', '', [v, s, m], 'arr9', lambda v, s, m: [v[0]] + proj1(mulv(m, s)) + proj2(mulv(m, s)), inputs=I, coef=1e-6,
         body='float c[9]; c[0] = v[0]; c[1] = -s.y; c[2] = s.z; c[3] = -s.x; projectVecToSH2K(s, c + 4); rotateSh3Bands(c, m, out->v);', what='rotateSh3Bands')
    p.ob('rotate_identity', '', [v], 'arr9', lambda v: list(v), body='rotateSh3Bands(v.v, float3x3::identity, out->v);', what='rotateSh3Bands(identity)', coef=1e-6)
    p.ob('rotate_alias', '', [v, m], 'arr9', lambda v, m: [0] * 9, body='float a[9], b[9]; for (int i = 0; i < 9; i++) a[i] = v.v[i]; rotateSh3Bands(a, m, b); rotateSh3Bands(a, m, a); for (int i = 0; i < 9; i++) out->v[i] = a[i] - b[i];', what='rotateSh3Bands in place')
    p.ob('proj2', '', [s], 'arr5', lambda s: proj2(s), body='projectVecToSH2K(s, out->v);', what='projectVecToSH2K')
    p.ob('mul5', '', [('arr25', 'm'), ('arr5', 'v')], 'arr5', lambda m, v: [fsum([m[r + 5 * k] * v[k] for k in range(5)]) for r in range(5)], body='multiply(m.v, v.v, out->v);', what='multiply(5x5 matrix, vector)')
    # sinc window to the fourth power, 1 in band 0 and 0 from the cut-off on
    sc = lambda l, w: lift(1) if l == 0 else ite(fle(w, lift(l)), lift(0), fsum([lift(0)]) + (lambda x: (lambda y: y * y * y * y)(fn1('sin', x) / x))(k32(math.pi) * l / w))
    for l in (0, 1, 2): p.ob('window%d' % l, 'sincWindow(%d, w)' % l, [w], 'float', lambda w, l=l: sc(l, w[0]), ranges={'w': (0.1, 12)}, assume=lambda w: flt(lift(0), w[0]))
    p.ob('windowing', '', [v, w], 'arr9', lambda v, w: [x * sc(l, w[0]) for x, l in zip(v, BAND)], ranges={'w': (0.1, 12)}, assume=lambda v, w: flt(lift(0), w[0]),
         body='for (int i = 0; i < 9; i++) out->v[i] = v.v[i]; windowing(out->v, w);', what='windowing')
    p.ob('preprocess', '', [('arr36', 'v')], 'arr36', lambda v: [v[4 * i + j] * k32(CA[i] / math.pi) for i in range(9) for j in range(4)],
         body='f32x4 c[9]; for (int i = 0; i < 9; i++) c[i] = f32x4(v.v[4 * i], v.v[4 * i + 1], v.v[4 * i + 2], v.v[4 * i + 3]); shaderPreprocessSH(c); for (int i = 0; i < 9; i++) { out->v[4 * i] = c[i].getX(); out->v[4 * i + 1] = c[i].getY(); out->v[4 * i + 2] = c[i].getZ(); out->v[4 * i + 3] = c[i].getW(); }', what='shaderPreprocessSH')
    return p
