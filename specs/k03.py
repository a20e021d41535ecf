from .lib import *
U = lambda n: iconst(32, n)
def build():
    p = Prop('K03', ['math/simd/vector/float.hpp', 'math/simd/vector/int.hpp', 'math/simd/vector/uint.hpp'], 'Mip chains')
    p.pre = '#include <cmath>\n'
    um = lambda v: umax_(v)
    def umax_(v):
        r = v[0]
        for x in v[1:]: r = D.imax(r, x, False)
        return r
    lg = lambda x: iadd(D.conv('fptoui', D.fn1('log2', D.conv('uitofp', x)), 8), iconst(8, 1))
    some = lambda n: bnot(ieq(umax_(n), U(0)))
    for nm, t, e, k in (('1', 'uint32', 'calcMipCount(n)', 1), ('2', 'uint2', 'calcMipCount(n)', 2), ('3', 'uint3', 'calcMipCount(n)', 3), ('s3', 'u32x4', 'calcMipCount3(n)', 3)):
        p.ob('count' + nm, '', [(t, 'n')], 'uint8', lambda n, k=k: lg(umax_(n[:k])), assume=lambda n, k=k: some(n[:k]), body='*out = %s;' % e, what='mip count of ' + t)
    def size(x, m): return D.imax(ires(x, 32) if m is None else ishift('lshr', x, U(m)), U(1), False)
    for nm, t, e, k in (('1', 'uint32', 'calcSizeAtMip', 1), ('2', 'uint2', 'calcSizeAtMip', 2), ('3', 'uint3', 'calcSizeAtMip', 3), ('s3', 'u32x4', 'calcSizeAtMip3', 3)):
        for m in list(range(0, 16)) + [20, 24, 31]:
            p.ob('size%s_%d' % (nm, m), '', [(t, 'n')], t, lambda n, m=m, k=k, t=t: [size(x, m) for x in n[:k]] + ([None] if t == 'u32x4' else []), body='*out = %s(n, %d);' % (e, m), what='size of mip %d of %s' % (m, t))
        F = iconst(8, 31)
        for j in range(31): F = ite(bin_('mip_is_%d' % j), iconst(8, j), F)
        def anymip(n, m, k=k, t=t):
            def at(x):
                r = size(x, 31)
                for j in range(31): r = ite(bin_('mip_is_%d' % j), size(x, j), r)
                return r
            return [at(x) for x in n[:k]] + ([None] if t == 'u32x4' else [])
        p.ob('sizeany%s' % nm, '', [(t, 'n'), ('uint8', 'm')], t, anymip, inputs={'m': [F]}, body='*out = %s(n, m);' % e, what='size of any mip of ' + t)
    return p
