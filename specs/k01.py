from .lib import *
K8 = lambda n: iconst(8, n)
def build():
    p = Prop('K01', ['math/packed-vector.hpp'], 'Packed vectors')
    p.std = ('cstdlib', 'cstdint', 'cassert'); p.flags = ('-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shimvec'),)
    p.helpers = 'template<int N> struct CArr { uint8 v[N]; };'
    for b in (1, 2, 4):
        n = {1: 11, 2: 7, 4: 5}[b]; M = (1 << b) - 1
        mk = lambda x, M=M: D.iand(x, K8(M))
        a, x = ('carr%d' % n, 'a'), ('uint8', 'x')
        fill = 'for (int k = 0; k < %d; k++) v.%%s(k, a.v[k]);' % n
        rd = ' for (int k = 0; k < %d; k++) out->v[k] = v.%%s(k);' % n
        for u in ('unsafeSet', 'set'):
            g = u.replace('Set', 'Get').replace('set', 'get')
            p.ob('roundtrip%d_%s' % (b, u), '', [a], 'carr%d' % n, lambda a, mk=mk: [mk(y) for y in a], body='PackedVector<%d> v(%d); ' % (b, n) + fill % u + rd % g, what='PackedVector<%d> %s/%s' % (b, u, g))
            for i in range(n):
                p.ob('set%d_%d_%s' % (b, i, u), '', [a, x], 'carr%d' % n, lambda a, x, i=i, mk=mk: [mk(x[0]) if k == i else mk(y) for k, y in enumerate(a)],
                     body='PackedVector<%d> v(%d); ' % (b, n) + fill % u + ' v.%s(%d, x);' % (u, i) + rd % g, what='PackedVector<%d>::%s keeps the other elements' % (b, u))
            # any index of the vector
            F = iconst(64, n - 1)
            for k in range(n - 1): F = ite(bin_('index_is_%d_of_%d' % (k, n)), iconst(64, k), F)
            p.ob('setany%d_%s' % (b, u), '', [a, x, ('psize', 'i')], 'carr%d' % n, lambda a, x, i, mk=mk: [ite(ieq(i[0], iconst(64, k)), mk(x[0]), mk(y)) for k, y in enumerate(a)], inputs={'i': [F]},
                 body='PackedVector<%d> v(%d); ' % (b, n) + fill % u + ' v.%s(i, x);' % u + rd % g, what='PackedVector<%d>::%s at every index' % (b, u))
        p.ob('zero%d' % b, '', [], 'carr%d' % n, lambda n=n: [0] * n, body='PackedVector<%d> v(%d);' % (b, n) + rd % 'get', what='PackedVector<%d>(size) starts with zeros' % b)
        per = 8 // b
        for k in range(0, 2 * per + 2):
            p.ob('bytes%d_%d' % (b, k), '', [], 'psize', lambda k=k, per=per: iconst(64, -(-k // per)), body='PackedVector<%d> v; v.resize(%d); *out = v.size();' % (b, k), what='PackedVector<%d>::resize uses as many bytes as the elements need' % b)
        p.ob('resize_keeps%d' % b, '', [a], 'carr%d' % n, lambda a, mk=mk: [mk(y) for y in a], body='PackedVector<%d> v(%d); ' % (b, n) + fill % 'set' + 'v.resize(%d);' % (n + 9) + rd % 'get', what='PackedVector<%d>::resize keeps the elements' % b)
        p.ob('copy%d' % b, '', [a, x], 'carr%d' % n, lambda a, x, mk=mk: [mk(y) for y in a], body='PackedVector<%d> v(%d); ' % (b, n) + fill % 'set' + 'auto t = v; for (int k = 0; k < %d; k++) t.set(k, x);' % n + rd % 'get', what='a copy of PackedVector<%d> is independent' % b)
        p.ob('copied%d' % b, '', [a, x], 'carr%d' % n, lambda a, x, mk=mk: [mk(y) for y in a], body='PackedVector<%d> w(%d); ' % (b, n) + (fill % 'set').replace('v.set', 'w.set') + 'auto v = w; for (int k = 0; k < %d; k++) w.set(k, x);' % n + rd % 'get', what='a copy of PackedVector<%d> holds the elements' % b)
    cases = []
    for b in (0, 3, 5, 6, 7, 8, 16): cases += [('reject%d_%s' % (b, n), 'void f() { PackedVector<%d> v%s; (void)v; }' % (b, c), False, 'PackedVector<%d> cannot be created' % b) for n, c in (('default', ''), ('size', '(psize(4))'))]
    for b in (1, 2, 4): cases += [('accept%d_%s' % (b, n), 'void f() { PackedVector<%d> v%s; v.resize(7); v.set(3, 1); v.unsafeSet(3, 1); v.get(1); v.unsafeGet(1); auto t = v; (void)t; }' % (b, c), True, 'PackedVector<%d> is usable' % b) for n, c in (('default', ''), ('size', '(psize(4))'))]
    build_witness(p, cases)
    return p
