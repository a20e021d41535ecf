"""The deringing search, with the estimate of the smallest value replaced by a fixed linear form."""
from .lib import *
from engine.ir import FLOAT
from engine import dom
from .s01 import k32, BAND, CA
import math, random
EXPLAIN = ('The search for the cut-off is interpreted with symbolic coefficients; the estimate of the smallest value stands for any function of the coefficients it is given that changes its sign at one cut-off per channel. '
           'Its place is taken by a contract that reads channel and cut-off off the normal forms of its argument, so that argument is checked as well. The estimate itself is interpreted for any mean value and the other coefficients given; '
           'roots of constants are folded to numbers, and its two cases (bound, refined minimum) are compared as functions of the mean.')
def num(p):
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m: x *= natom(dom._atomlist[a]) ** e
        v += x
    return v
def natom(A):
    if A.kind == 'pi': return math.pi
    if A.kind == 'sqrt': return math.sqrt(num(A.args[0]))
    if A.kind == 'inv': return 1 / num(A.args[0])
    if A.kind == 'fn1' and A.args[0] == 'sin': return math.sin(num(A.args[1]))
    if A.kind == 'sin': return math.sin(num(A.args[0]))
    raise Unsupported('the value of %s at a concrete coefficient' % A.kind)
def sinc4(l, w):
    if l == 0: return 1.0
    if w <= l: return 0.0
    x = math.pi * l / w
    return (math.sin(x) / x) ** 4
def sc(l, w):                   # the window, exactly
    if l == 0: return lift(1)
    if w <= l: return lift(0)
    x = k32(math.pi) * l / w; y = fn1('sin', x) / x
    return y * y * y * y
def search(at):
    """the cut-off: halving of [3, 13] per channel, the upper end of a channel being the smallest cut-off before it"""
    cut = Q(13)
    for ch in range(3):
        l, r = Q(3), cut
        for _ in range(16):
            if not l + Q(1, 10) < r: break
            m = (l + r) / 2
            if m > at[ch]: r = m
            else: l = m
        cut = min(cut, l)
    return cut
def stub(at, zero):
    """The estimate is negative from the cut-off at[channel] on. Which channel and cut-off it is asked for is read off its argument, all nine of which have to be those of
    one channel times the window at one cut-off; otherwise the answer is always yes (or always no), which ends in another cut-off."""
    def ask(it, args, mem, bc):
        if [t.k for t, _ in args] != ['ptr']: raise Unsupported('the estimate of the smallest value does not take the coefficients alone')
        pn = dom.under(args[0][1], bc)
        if pn.v is not None: raise Unsupported('the coefficients lie at no single place')
        return [it.load(mem, dom.Ptr(pn.leaf.obj, pn.leaf.off + 4 * j), FLOAT) for j in range(9)]
    def f(it, args, mem, bc):
        c = ask(it, args, mem, bc); yes, no = lift(-1), lift(0 if zero else 1); wrong = no if min(at) < 8 else yes
        ch = next((k for k in range(3) if c[0] is INPUT[k]), None)
        if ch is None: return wrong
        fac = []
        for j in range(9):
            if c[j].v is not None: return wrong
            q = dom.p_div(c[j].leaf, INPUT[4 * j + ch].leaf)
            try: fac.append(num(q))
            except (Unsupported, AttributeError): return wrong
        lo, hi = 1.0, 64.0
        for _ in range(60):
            m = (lo + hi) / 2
            if sinc4(1, m) < fac[1]: lo = m
            else: hi = m
        if any(abs(fac[j] - sinc4(BAND[j], m)) > 1e-6 for j in range(9)): return wrong
        if abs(m - float(at[ch])) < 1e-6: raise Unsupported('too close to call')
        return yes if m > at[ch] else no
    return f
INPUT = [fin('c%d' % i) for i in range(36)]
def build():
    p = Prop('S04', ['math/sh.hpp'], 'Deringing of spherical harmonics')
    p.helpers = 'using namespace math::sh;'; p.pre = '#include "math/vector.hpp"'; p.flags = ('-fno-inline',)
    rnd = random.Random(5); far = Q(20)
    cs = [(far, far, far), (Q(1), far, far), (far, Q(1), far), (far, far, Q(1))]
    for k in range(96):             # one, two and all channels ring
        at = [Q(rnd.randint(0, 10240), 1024) + 3 + Q(1, 2049) for _ in range(3)]
        if k % 4 < 3 and k < 24: at[k % 4] = far
        if k < 12: at[(k % 4 + 1) % 3] = far
        cs.append(tuple(at))
    for k, at in enumerate(cs):
        cut = search(at)
        p.ob('search_%d' % k, '', [('arr36', 'v')], 'arr36', lambda v, cut=cut: [v[4 * i + j] * sc(BAND[i], cut) for i in range(9) for j in range(4)], inputs={'v': INPUT}, models=[(r'shmin', stub(at, k & 1))], sec=5,
             body='f32x4 c[9]; for (int i = 0; i < 9; i++) c[i] = f32x4(v.v[4 * i], v.v[4 * i + 1], v.v[4 * i + 2], v.v[4 * i + 3]); deringingSH(c); for (int i = 0; i < 9; i++) { out->v[4 * i] = c[i].getX(); out->v[4 * i + 1] = c[i].getY(); out->v[4 * i + 2] = c[i].getZ(); out->v[4 * i + 3] = c[i].getW(); }', what='deringingSH')
    # the estimate: any mean, the rest constant
    for k, (u, sh) in enumerate(shapes()):
        t = Q(round(threshold(u, sh) * 4096), 4096)
        p.ob('estimate_%d' % k, 'shmin(v.v)', [('arr9', 'v')], 'float', lambda v, u=u, sh=sh: estimate(u, [v[0]] + sh[1:]), inputs={'v': [None] + [lift(x) for x in sh[1:]]}, body='float c[9]; for (int i = 0; i < 9; i++) c[i] = v.v[i]; *out = shmin(c);',
             what='shmin', coef=1e-4, fold=True, sec=20, assume=lambda v, t=t: bor(flt(v[0], lift(t - Q(1, 64))), flt(lift(t + Q(1, 64)), v[0])))
    return p
def shapes():
    """directions of the linear part with rational frames; second bands"""
    rnd = random.Random(7); r = []
    for u in ((0, 0, 1), (1, 0, 0), (-1, 0, 0), (0, 0, -1), (Q(3, 5), 0, Q(4, 5)), (Q(-5, 13), 0, Q(12, 13)), (Q(3, 13), Q(12, 13), Q(4, 13)), (Q(-4, 13), Q(12, 13), Q(3, 13)), (Q(12, 25), Q(-3, 5), Q(-16, 25))):
        for n in range(4):
            s = Q(rnd.randint(4, 24), 8); q = [Q(rnd.randint(-16, 16), 16) * (1 if n > 1 else Q(1, 8)) for _ in range(5)]
            r.append((u, [Q(0), -u[1] * s, u[2] * s, -u[0] * s] + q))
    return r
def form(u, sh):
    """f(s) = c + linear(s) + s' M s in a frame with z along the linear part: its zonal part a z^2 + b z + c lowered by the amplitude of the order 2, and the amplitude t of the order 1"""
    A = [f32(x) for x in CA]; sh = [float(x) for x in sh]; u = [float(x) for x in u]
    a4, a5, a6, a7, a8 = (A[j] * sh[j] for j in range(4, 9))
    M = [[-a6 + a8, a4 / 2, a7 / 2], [a4 / 2, -a6 - a8, a5 / 2], [a7 / 2, a5 / 2, 2 * a6]]
    Mu = [sum(M[i][j] * u[j] for j in range(3)) for i in range(3)]
    zz = sum(x * y for x, y in zip(u, Mu))
    t2 = sum(x * x for x in Mu) - zz * zz                                # coupling of the axis with the plane across it
    rest = sum(x * x for r in M for x in r) - zz * zz - 2 * t2            # the part in the plane, whose trace is -zz
    m2 = math.sqrt((rest - zz * zz / 2) / 2)                             # half the difference of its eigenvalues
    b = math.sqrt(sum((A[i] * sh[i]) ** 2 for i in (1, 2, 3)))
    return zz * 1.5 + m2, b, -zz / 2 - m2, math.sqrt(max(t2, 0)), A[0]
def zonal(a, b):
    z = -b / (2 * a) if a else 2
    return -b * b / (4 * a) if a > 0 and -1 <= z <= 1 else min(a + b, a - b)
def threshold(u, sh):
    a, b, c, t, k = form(u, sh)
    return -(zonal(a, b) + c - t) / k
def estimate(u, sh):
    a, b, c, t, k = form(u, [0] + sh[1:]); bound = zonal(a, b) + c - t
    # the smallest value on the meridian through the deepest point of the order 1, from the start at 45 degrees; at the poles if there is none
    g = lambda z: a * z * z + b * z + c + 2 * t * z * math.sqrt(1 - z * z)
    d1 = lambda z: 2 * a * z + b + 2 * t * (1 - 2 * z * z) / math.sqrt(1 - z * z)
    d2 = lambda z: 2 * a + 2 * t * z * (2 * z * z - 3) / (1 - z * z) ** 1.5
    z = -math.sqrt(0.5)
    for _ in range(200):
        low = g(z); dz = d1(z) / d2(z); z -= dz
        if abs(z) > 1: low = min(a + b + c, a - b + c); break
        if abs(dz) <= 1e-5: break
    m = lift(Q(k)) * sh[0]
    return ite(flt(m, lift(Q(-bound))), m + Q(low), m + Q(bound))
