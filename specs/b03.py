from .lib import *
from .b02 import HERE, HELP
GROUP = '''
template<int N> void groups(TB& t, uint32* out)
{
	auto& n = t.n(); auto& p = t.p();
	for (int i = 0; i < N; i++) out[i] = 99;
	for (int i = 0; i < 2 * N - 1; i++)
	{
		if (i >= n.size() || !n[i].isLeaf()) continue;
		uint32 f = n[i].getFirstPrimitive(), c = n[i].getPrimitiveCount(), m = 99;
		for (uint32 k = 0; k < N; k++) if (k >= f && k < f + c) { if (p[k] < m) m = p[k]; }
		for (uint32 k = 0; k < N; k++) if (k >= f && k < f + c) { uint32 v = p[k]; for (uint32 j = 0; j < N; j++) if (v == j) out[j] = m; }
	}
}
'''
def half_area(lo, hi):
    e = [D.fsub(h, l) for l, h in zip(lo, hi)]
    return D.fadd(D.fadd(D.fmul(e[0], e[1]), D.fmul(e[0], e[2])), D.fmul(e[1], e[2]))
def box(b, i): return [b[8 * i + k] for k in range(3)], [b[8 * i + 4 + k] for k in range(3)]
def union(b, ids):
    lo, hi = box(b, ids[0])
    for i in ids[1:]:
        l, h = box(b, i); lo = [D.fmin(x, y) for x, y in zip(lo, l)]; hi = [D.fmax(x, y) for x, y in zip(hi, h)]
    return lo, hi
def cost(b, part):
    c = lift(0)
    for g in part: c = D.fadd(c, D.fmul(lift(len(g)), half_area(*union(b, g))))
    return c

def build():
    p = Prop('B03', ['math/bvh.hpp'], 'BVH split choice'); p.configs = ('sse2', 'sse41', 'avx2', 'neon')
    p.std = ('cmath', 'cassert', 'cstring', 'cstdlib', 'cstdint', 'string', 'algorithm'); p.flags = ('-I' + os.path.join(HERE, 'shimbvh'), '-fno-inline')
    p.helpers = HELP + GROUP
    for k in (2, 3, 4):
        TYPES['boxes%d' % k] = T('Arr<%d>' % (8 * k), [(4 * i, 'f', '%d.%s%s' % (i // 8, ('lo', 'hi')[i // 4 % 2], 'xyzw'[i % 4])) for i in range(8 * k)])
        TYPES['cen%d' % k] = T('Arr<%d>' % (4 * k), [(4 * i, 'f', '%d.%s' % (i // 4, 'xyzw'[i % 4])) for i in range(4 * k)])
    def ids(groups, n):
        r = [0] * n
        for g in groups:
            for i in g: r[i] = min(g)
        return [iconst(32, x) for x in r]
    body = 'TB t; t.recreate((const Aabb*)p_b, root, %d, (const f32x4*)p_c); groups<%d>(t, out->v);'
    def tri_boxes(v, n, w=3):
        """boxes of triangles over consecutive vertices"""
        out = []
        for i in range(n):
            q = [[v[w * (3 * i + k) + a] for a in range(3)] for k in range(3)]
            out += [D.fmin(D.fmin(q[0][a], q[1][a]), q[2][a]) for a in range(3)] + [None] + [D.fmax(D.fmax(q[0][a], q[1][a]), q[2][a]) for a in range(3)] + [None]
        return out
    def one(nm, n, cen, parts, tri=False, allowed=None):
        """centroids that allow the given partitions; the cheapest one is taken if it is cheaper than the node itself"""
        bx = (lambda b: tri_boxes(b, n)) if tri else (lambda b: b)
        def spec(b, r, *c):
            b = bx(b)
            whole = D.fmul(lift(n), half_area(r[0:3], r[4:7])); keep = [iconst(32, 0)] * n
            best, at = None, keep
            for g in parts:
                k = cost(b, g); w = ids(g, n)
                if best is None: best, at = k, w
                else:
                    c_ = D.flt(k, best); at = [ite(c_, x, y) for x, y in zip(w, at)]; best = ite(c_, k, best)
            s = D.flt(best, whole)
            if allowed: s = band(s, allowed(*c))
            return [ite(s, x, y) for x, y in zip(at, keep)]
        def assume(b, r, *c):
            b = bx(b)
            g = TRUE
            ks = [cost(b, q) for q in parts]
            for i in range(len(ks)):
                for j in range(i): g = band(g, bnot(D.feq(ks[i], ks[j])))
            return g
        inp = {'c': [None if x is None else lift(x) for q in cen for x in q]} if cen else {}
        bd = body % (n, n) if not tri else 'static const uint16 ix[%d] = { %s }; TB t; t.recreate((const uint8*)p_b, (const uint8*)ix, root, %d, 12, 2, (const f32x4*)p_c); groups<%d>(t, out->v);' % (3 * n, ', '.join(map(str, range(3 * n))), 3 * n, n)
        p.ob(nm, '', [('tri%d' % n if tri else 'boxes%d' % n, 'b'), ('Aabb', 'root'), ('cen%d' % n, 'c')], 'uarr%d' % n, spec, inputs=inp, assume=assume if len(parts) > 1 else None, body=bd, what='which %s a BVH node separates: %s' % ('triangles' if tri else 'boxes', nm))
    for k in (2, 3, 4): TYPES['tri%d' % k] = T('Arr<%d>' % (9 * k), [(4 * i, 'f', '%d.%s' % (i // 3, 'xyz'[i % 3])) for i in range(9 * k)])
    def at(ax, *xs): return [[D.Fraction(x) if k == ax else D.Fraction(1, 2) if k < 3 else D.Fraction(0) for k in range(4)] for x in xs]
    for tri in (False, True):
        S = 'tri_' if tri else ''
        for ax in range(3):
            A = 'xyz'[ax]
            one(S + 'two_' + A, 2, at(ax, 0, 1), [[[0], [1]]], tri)
            one(S + 'pair_and_one_' + A, 3, at(ax, 0, 0, 1), [[[0, 1], [2]]], tri)
            one(S + 'one_and_pair_' + A, 3, at(ax, 3, -2, 3), [[[0, 2], [1]]], tri)
            one(S + 'three_and_one_' + A, 4, at(ax, 2, 2, 5, 2), [[[0, 1, 3], [2]]], tri)
            one(S + 'two_pairs_' + A, 4, at(ax, -1, 7, -1, 7), [[[0, 2], [1, 3]]], tri)
            one(S + 'choice_' + A, 3, at(ax, 0, D.Fraction(1, 2), 1), [[[0], [1, 2]], [[0, 1], [2]]], tri)
            one(S + 'choice_back_' + A, 3, at(ax, 4, 1, -4), [[[2], [0, 1]], [[1, 2], [0]]], tri)
            # one partition along one axis, another along the next
            cen = at(ax, 0, 0, 1); b = (ax + 1) % 3
            for i, y in enumerate((3, 8, 8)): cen[i][b] = D.Fraction(y)
            one(S + 'axes_' + A, 3, cen, [[[0, 1], [2]], [[0], [1, 2]]], tri)
        one(S + 'same_place', 3, at(0, 1, 1, 1), [[[0, 1, 2]]], tri, allowed=lambda c: FALSE)
    return p
