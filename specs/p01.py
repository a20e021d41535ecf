from .lib import *
def build():
    p = Prop('P01', ['math/matrix/projection.hpp'], 'Projection matrices map the view volume to the clip volume')
    f, a, n, r = ('float', 'f'), ('float', 'a'), ('float', 'n'), ('float', 'r')
    M4 = 'float4x4'
    T = lambda f: fn1('tan', f[0] * Q(1, 2))
    O = lambda *xs: [lift(x) for x in xs]
    def persp(f, a, k, b):
        t = T(f)
        return O(1 / (a[0] * t), 0, 0, 0, 0, lift(-1) / t, 0, 0, 0, 0, k, 1, 0, 0, b, 0)
    lin = lambda z0, z1: (lambda n, r: ((r[0] * z1 - n[0] * z0) / (r[0] - n[0]), (z0 - z1) * n[0] * r[0] / (r[0] - n[0])))
    P_ = [('calcPerspProj', 'calcPerspProj(f, a, n, r)', [f, a, n, r], lin(lift(0), lift(1)), 0, 1),
          ('calcPerspProjRevZ', 'calcPerspProjRevZ(f, a, n, r)', [f, a, n, r], lin(lift(1), lift(0)), 1, 0)]
    for nm, e, ar, kb, zn, zf in P_:
        p.ob(nm, e, ar, M4, lambda f, a, n, r, kb=kb: persp(f, a, *kb(n, r)))
        # depth range and homogeneous coordinate at the near and far planes, any lateral position
        p.ob(nm + '_near', '%s * float4(x, y, n, 1.0f)' % e, ar + [('float', 'x'), ('float', 'y')], 'float4',
             lambda f, a, n, r, x, y, zn=zn: [x[0] / (a[0] * T(f)), lift(0) - y[0] / T(f), n[0] * zn, n[0]])
        p.ob(nm + '_far', '%s * float4(x, y, r, 1.0f)' % e, ar + [('float', 'x'), ('float', 'y')], 'float4',
             lambda f, a, n, r, x, y, zf=zf: [x[0] / (a[0] * T(f)), lift(0) - y[0] / T(f), r[0] * zf, r[0]])
    e = 'calcPerspProjInfRevZ(f, a, n)'
    p.ob('calcPerspProjInfRevZ', e, [f, a, n], M4, lambda f, a, n: persp(f, a, lift(0), n[0]))
    p.ob('calcPerspProjInfRevZ_point', '%s * float4(x, y, z, 1.0f)' % e, [f, a, n, ('float', 'x'), ('float', 'y'), ('float', 'z')], 'float4',
         lambda f, a, n, x, y, z: [x[0] / (a[0] * T(f)), lift(0) - y[0] / T(f), n[0], z[0]])
    w, h, d = ('float2', 'w'), ('float2', 'h'), ('float2', 'd')
    def ortho(w, h, d, z0, z1):
        sx, sy, sz = w.y - w.x, h.y - h.x, d.y - d.x
        return O(2 / sx, 0, 0, 0, 0, lift(-2) / sy, 0, 0, 0, 0, (z1 - z0) / sz, 0, lift(0) - (w.y + w.x) / sx, (h.y + h.x) / sy, (z0 * d.y - z1 * d.x) / sz, 1)
    for nm, z0, z1 in (('calcOrthoProj', 0, 1), ('calcOrthoProjRevZ', 1, 0)):
        e = nm + '(w, h, d)'
        p.ob(nm, e, [w, h, d], M4, lambda w, h, d, z0=z0, z1=z1: ortho(w, h, d, lift(z0), lift(z1)))
        for cx, X in (('x', -1), ('y', 1)):
            for cz, Z in (('x', z0), ('y', z1)):
                # every corner of the box lands on the matching corner of clip space
                p.ob('%s_corner_%s%s' % (nm, cx, cz), '%s * float4(w.%s, h.%s, d.%s, 1.0f)' % (e, cx, cx, cz), [w, h, d], 'float4', lambda w, h, d, X=X, Z=Z: O(X, -X, Z, 1))
    return p
