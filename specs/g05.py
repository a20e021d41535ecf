from .lib import *
from .t01 import v3
from engine.probe import REPO
L0 = lift(0)
mn = lambda v: fmin(fmin(v[0], v[1]), v[2])
mx = lambda v: fmax(fmax(v[0], v[1]), v[2])
def sat(c, h, t):
    v = [sub(Vec(t[4 * i:4 * i + 3]), v3(c)) for i in range(3)]
    f = [sub(v[1], v[0]), sub(v[2], v[1]), sub(v[0], v[2])]
    e = [Vec([lift(1) if i == j else L0 for j in range(3)]) for i in range(3)]
    axes = [cross(e[i], f[j]) for i in range(3) for j in range(3)] + e + [cross(f[0], f[1])]
    out = []
    for a in axes:
        p = [dot(x, a) for x in v]
        r = sum((h[i] * fabs_(a[i]) for i in range(3)), L0)
        out.append(bor(flt(r, mn(p)), flt(mx(p), lift(0) - r)))
    return bnot(bany(out))
def build():
    p = Prop('G05', ['math/aabb.hpp', REPO + '/source/aabb.cpp'], 'Triangle-box overlap by separating axes')
    c, h, t, A = ('f32x4', 'c'), ('f32x4', 'h'), ('Triangle', 't'), ('Aabb', 'A')
    p.ob('sat', 'isAabbIntersected(c, h, t)', [c, h, t], 'bool', sat)
    return p
