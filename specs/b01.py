from .lib import *
from engine.ir import FLOAT, I, PTR
from .b02 import HERE, HELP
# Which plane a node is split at, and whether it is split, is left open: any axis, position and cost.
def any_split(it, args, mem, bc, first=()):
    ps = args[-3:]
    if any(t.k != 'ptr' for t, _ in ps): raise Unsupported('the split search does not return through its last three parameters')
    it.nsplit = k = getattr(it, 'nsplit', 0) + 1
    fix = first[k - 1] if k <= len(first) else None
    it.store_n(mem, D.under(ps[0][1], bc), I(32), iconst(32, fix if fix is not None else k % 3))
    it.store_n(mem, D.under(ps[1][1], bc), FLOAT, fin('split_%d' % k) if fix is None else lift(0))
    it.store_n(mem, D.under(ps[2][1], bc), FLOAT, fin('cost_%d' % k) if fix is None else lift(-1))
    return None
def fixed_first(*first): return [(ANY[0][0], lambda it, args, mem, bc: any_split(it, args, mem, bc, first))]
ANY = [(r'RiRf(S\w*_|Rf)$', any_split)]

VERIFY = '''
template<int N> struct Check
{
	bool shape, cover, perm, boxes, root, sizes;
	void run(TB& t, const f32x4* lo, const f32x4* hi, const Aabb& rootAabb)
	{
		auto& n = t.n(); auto& p = t.p(); const int M = 2 * N - 1;
		uint32 cnt = (uint32)n.size();
		sizes = cnt >= 1 && cnt <= M && (cnt & 1) && p.size() == N && t.getNodeStack().empty();
		uint32 par[M], cov[N], seen[N]; f32x4 a[M], b[M];
		for (int i = 0; i < M; i++) { par[i] = 0; a[i] = f32x4::max; b[i] = f32x4::minusMax; }
		for (int i = 0; i < N; i++) cov[i] = seen[i] = 0;
		shape = cover = perm = boxes = root = true;
		for (int i = 0; i < N; i++) { uint32 v = p[i]; if (v < N) seen[v]++; else perm = false; }
		for (int i = 0; i < N; i++) perm &= seen[i] == 1;
		for (int i = M - 1; i >= 0; i--)
		{
			if (i >= cnt) continue;
			auto& d = n[i];
			if (d.isLeaf())
			{
				uint32 f = d.getFirstPrimitive(), c = d.getPrimitiveCount();
				if (c > N || f > N - c) { cover = false; continue; }
				for (uint32 k = 0; k < N; k++)
					if (k >= f && k < f + c) { cov[k]++; uint32 v = p[k]; if (v < N) { a[i] = min(a[i], lo[v]); b[i] = max(b[i], hi[v]); } }
			}
			else
			{
				uint32 l = d.getLeftNode();
				if (l <= i || l >= cnt || l + 1 >= cnt) { shape = false; continue; }
				par[l]++; par[l + 1]++;
				a[i] = min(a[l], a[l + 1]); b[i] = max(b[l], b[l + 1]);
			}
		}
		for (int i = 0; i < M; i++)
			if (i < cnt) shape &= par[i] == (i ? 1 : 0);
		for (int i = 0; i < N; i++) cover &= cov[i] == 1;
		for (int i = 1; i < M; i++)
			if (i < cnt)
				for (int k = 0; k < 3; k++) boxes &= n[i].aabb.getMin()[k] == a[i][k] && n[i].aabb.getMax()[k] == b[i][k];
		for (int k = 0; k < 3; k++) root &= n[0].aabb.getMin()[k] == rootAabb.getMin()[k] && n[0].aabb.getMax()[k] == rootAabb.getMax()[k];
	}
};
'''
X86 = ('sse2', 'sse41', 'avx2')
def build():
    p = Prop('B01', ['math/bvh.hpp'], 'BVH construction'); p.configs = ('sse2', 'sse41', 'avx2', 'neon')
    p.std = ('cmath', 'cassert', 'cstring', 'cstdlib', 'cstdint', 'string', 'algorithm'); p.flags = ('-I' + os.path.join(HERE, 'shimbvh'), '-fno-inline')
    p.helpers = HELP + VERIFY
    for k in (1, 2, 3): TYPES['arr%d_' % (9 * k)] = T('Arr<%d>' % (9 * k), [(4 * i, 'f', str(i)) for i in range(9 * k)])
    for k in (1, 2, 3, 4, 5, 6, 7):
        TYPES['boxes%d' % k] = T('Arr<%d>' % (8 * k), [(4 * i, 'f', '%d.%s%s' % (i // 8, ('lo', 'hi')[i // 4 % 2], 'xyzw'[i % 4])) for i in range(8 * k)])
        TYPES['cen%d' % k] = T('Arr<%d>' % (4 * k), [(4 * i, 'f', '%d.%s' % (i // 4, 'xyzw'[i % 4])) for i in range(4 * k)])
    TYPES['barr6'] = T('BArr<6>', [(0, 'b', 'sizes'), (1, 'b', 'permutation'), (2, 'b', 'cover'), (3, 'b', 'tree'), (4, 'b', 'boxes'), (5, 'b', 'root')])
    run = 'Check<%d> k; k.run(t, lo, hi, root); out->v[0] = k.sizes; out->v[1] = k.perm; out->v[2] = k.cover; out->v[3] = k.shape; out->v[4] = k.boxes; out->v[5] = k.root;'
    boxes = 'auto bx = (const Aabb*)p_b; auto cn = (const f32x4*)p_c; TB t; t.recreate(bx, root, %d, cn); f32x4 lo[%d], hi[%d]; for (int i = 0; i < %d; i++) { lo[i] = bx[i].getMin(); hi[i] = bx[i].getMax(); } ' + run
    # every split decision left open
    for n in (1, 2, 3, 4):
        p.ob('build_boxes_%d' % n, '', [('boxes%d' % n, 'b'), ('Aabb', 'root'), ('cen%d' % n, 'c')], 'barr6', lambda *a: [TRUE] * 6, body=boxes % ((n,) * 5), models=ANY, configs=X86 if n > 3 else None, what='Bvh::recreate of %d boxes' % n)
    # the first splits given (which half of the centroid range each primitive lies in), the others open
    for n, axis, side in ((5, 0, '01011'), (5, 1, '10010'), (5, 2, '01111'), (6, 0, '010011'), (6, 1, '110001'), (6, 2, '101110'), (6, 1, '011000'), (7, 0, '0110010'), (7, 2, '1011010')):
        cen = [(-1 if side[i] == '0' else 1) if a == axis else None for i in range(n) for a in range(4)]
        p.ob('build_boxes_%d_%d_%s' % (n, axis, side), '', [('boxes%d' % n, 'b'), ('Aabb', 'root'), ('cen%d' % n, 'c')], 'barr6', lambda *a: [TRUE] * 6, inputs={'c': [None if x is None else lift(x) for x in cen]},
             body=boxes % ((n,) * 5), models=fixed_first(axis), configs=X86, what='Bvh::recreate of %d boxes, first split %s' % (n, side))
    open_ = lambda nm, args, body, models=ANY, what='', inputs=None, configs=None: p.ob(nm, '', args, 'barr6', lambda *a: [TRUE] * 6, configs=configs, body=body, models=models, what=what, inputs=inputs or {})
    bd = lambda n: 'f32x4 lo[%d], hi[%d]; for (int i = 0; i < %d; i++) { lo[i] = bx[i].getMin(); hi[i] = bx[i].getMax(); } ' % (n, n, n) + run % n
    for n in (1, 2, 3):
        open_('build_centres_%d' % n, [('boxes%d' % n, 'b'), ('Aabb', 'root')], 'auto bx = (const Aabb*)p_b; TB t; t.recreate(bx, root, %d); ' % n + bd(n), what='Bvh::recreate of %d boxes split by their centres' % n)
        open_('construct_boxes_%d' % n, [('boxes%d' % n, 'b'), ('Aabb', 'root'), ('cen%d' % n, 'c')], 'auto bx = (const Aabb*)p_b; TB t(bx, root, %d, (const f32x4*)p_c); ' % n + bd(n), what='Bvh of %d boxes' % n)
        p.ob('centres_%d' % n, '', [('boxes%d' % n, 'b'), ('Aabb', 'root')], 'cen%d' % n, lambda b, r, n=n: [D.fmul(D.fadd(b[8 * i + k], b[8 * i + 4 + k]), lift(0.5)) if k < 3 else None for i in range(n) for k in range(4)], models=ANY,
             body='TB t; t.recreate((const Aabb*)p_b, root, %d); auto& c = t.getCentroids(); for (int i = 0; i < %d; i++) for (int k = 0; k < 3; k++) out->v[4 * i + k] = c[i][k];' % (n, n), what='the centroids of a BVH of boxes are their centres')
    # a tree built before leaves no trace
    for n, m in ((3, 2), (2, 3), (4, 3), (1, 2), (3, 1)):
        open_('rebuild_%d_%d' % (n, m), [('boxes%d' % max(n, m), 'b'), ('Aabb', 'root'), ('cen%d' % max(n, m), 'c')],
              'auto bx = (const Aabb*)p_b; TB t; t.recreate(bx, Aabb(f32x4(0.0f), f32x4(1.0f)), %d, (const f32x4*)p_c); t.recreate(bx, root, %d, (const f32x4*)p_c); ' % (n, m) + bd(m), models=fixed_first(*({1: [None], 2: [0], 3: [0, 1], 4: [0, 1, 2]}[n])) if n < 4 else ANY,
              inputs={'c': [lift(-1 if (i + (a == 1)) % 2 else 1) if n == 3 and a < 2 and i < 3 and m == 1 else None for i in range(max(n, m)) for a in range(4)]}, configs=X86 if max(n, m) > 3 else None, what='Bvh::recreate replaces a tree of %d boxes with one of %d' % (n, m))
    for n, m in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        k = max(n, m); sp = lambda q, n: [D.fmul(D.fadd(q[8 * i + a], q[8 * i + 4 + a]), lift(0.5)) for i in range(n) for a in range(3)]
        TYPES['arr%d_' % (3 * m)] = T('Arr<%d>' % (3 * m), [(4 * i, 'f', str(i)) for i in range(3 * m)])
        p.ob('centres_again_%d_%d' % (n, m), '', [('boxes%d' % n, 'b'), ('boxes%d' % m, 'd'), ('Aabb', 'root')], 'arr%d_' % (3 * m), lambda b, d, r, m=m, sp=sp: sp(d, m), models=ANY,
             body='TB t; t.recreate((const Aabb*)p_b, root, %d); t.recreate((const Aabb*)p_d, root, %d); auto& c = t.getCentroids(); for (int i = 0; i < %d; i++) for (int k = 0; k < 3; k++) out->v[3 * i + k] = c[i][k];' % (n, m, m), what='a rebuilt BVH of boxes has the centres of the new boxes')
        p.ob('averages_again_%d_%d' % (n, m), '', [('arr%d_' % (9 * n), 'b'), ('arr%d_' % (9 * m), 'd'), ('Aabb', 'root')], 'arr%d_' % (3 * m), lambda b, d, r, m=m: [D.fmul(D.fadd(D.fadd(d[9 * i + a], d[9 * i + 3 + a]), d[9 * i + 6 + a]), lift(D.Fraction(1, 3))) for i in range(m) for a in range(3)], models=ANY,
             body='static const uint32 ix[%d] = { %s }; TB t; t.recreate((const uint8*)p_b, (const uint8*)ix, root, %d, 12, 4); t.recreate((const uint8*)p_d, (const uint8*)ix, root, %d, 12, 4); auto& c = t.getCentroids(); for (int i = 0; i < %d; i++) for (int k = 0; k < 3; k++) out->v[3 * i + k] = c[i][k];' % (3 * k, ', '.join(map(str, range(3 * k))), 3 * n, 3 * m, m), what='a rebuilt BVH of triangles has the averages of the new triangles')
    # triangles: index width, vertex stride, shared vertices
    for n in (1, 2, 3, 4):
        for nm, isz, stride, ix in (('u16', 2, 12, [0, 1, 2, 2, 1, 3, 4, 0, 3, 4, 2, 0]), ('u32', 4, 16, [3, 0, 1, 4, 2, 3, 0, 2, 1, 1, 4, 2]), ('u16s', 2, 20, [4, 1, 0, 2, 3, 1, 0, 4, 2, 3, 4, 1]), ('u32p', 4, 12, [1, 0, 2, 3, 4, 2, 0, 3, 1, 4, 1, 0])):
            if n == 4 and nm in ('u16s', 'u32p'): continue
            ix = ix[:3 * n]; w = stride // 4; nv = 5
            TYPES['verts%d' % w] = T('Arr<%d>' % (w * nv), [(4 * i, 'f', '%d.%d' % (i // w, i % w)) for i in range(w * nv)])
            arr = 'static const %s ix[%d] = { %s }; ' % ('uint16' if isz == 2 else 'uint32', 3 * n, ', '.join(map(str, ix)))
            make = arr + 'auto vp = (const uint8*)p_v; TB t; t.recreate(vp, (const uint8*)ix, root, %d, %d, %d%s); '
            bd3 = 'f32x4 lo[%d], hi[%d]; for (int i = 0; i < %d; i++) { f32x4 q[3]; for (int k = 0; k < 3; k++) { auto e = p_v->v + ix[3 * i + k] * %d; q[k] = f32x4(e[0], e[1], e[2]); } lo[i] = min(min(q[0], q[1]), q[2]); hi[i] = max(max(q[0], q[1]), q[2]); } ' % (n, n, n, w) + run % n
            extra = (n % 3) if nm in ('u16', 'u32') else 0      # an incomplete last triangle is no primitive
            a = [('verts%d' % w, 'v'), ('Aabb', 'root'), ('cen%d' % n, 'c')]
            open_('build_triangles_%s_%d' % (nm, n), a, make % (3 * n + extra, stride, isz, ', (const f32x4*)p_c') + bd3, configs=X86 if n > 3 else None, what='Bvh::recreate of %d triangles (%d bit indices, %d byte vertices)' % (n, 8 * isz, stride))
            if n <= 2:
                open_('build_averages_%s_%d' % (nm, n), a[:2], make % (3 * n, stride, isz, '') + bd3, what='Bvh::recreate of %d triangles split by their averages' % n)
                open_('construct_triangles_%s_%d' % (nm, n), a, (make % (3 * n, stride, isz, ', (const f32x4*)p_c')).replace('TB t; t.recreate(', 'TB t(') + bd3, what='Bvh of %d triangles' % n)
            if n <= 3:
                p.ob('averages_%s_%d' % (nm, n), '', a[:2], 'cen%d' % n, lambda v, r, n=n, w=w, ix=ix: [D.fmul(D.fadd(D.fadd(v[w * ix[3 * i] + k], v[w * ix[3 * i + 1] + k]), v[w * ix[3 * i + 2] + k]), lift(D.Fraction(1, 3))) if k < 3 else None for i in range(n) for k in range(4)], models=ANY,
                     body=make % (3 * n, stride, isz, '') + 'auto& c = t.getCentroids(); for (int i = 0; i < %d; i++) for (int k = 0; k < 3; k++) out->v[4 * i + k] = c[i][k];' % n, what='the centroids of a BVH of triangles are their vertex averages')
    # large indices
    for isz, base in ((2, 65530), (4, 65534), (4, 16777210)):
        p.ob('averages_far_%d_%d' % (isz, base), '', [('verts3', 'v'), ('Aabb', 'root')], 'arr3', lambda v, r: [D.fmul(D.fadd(D.fadd(v[a], v[3 + a]), v[9 + a]), lift(D.Fraction(1, 3))) for a in range(3)], models=ANY,
             body='static const %s ix[3] = { %d, %d, %d }; TB t; t.recreate((const uint8*)p_v - (int64)%d * 12, (const uint8*)ix, root, 3, 12, %d); for (int k = 0; k < 3; k++) out->v[k] = t.getCentroids()[0][k];' % ('uint16' if isz == 2 else 'uint32', base + 3, base, base + 1, base, isz), what='a BVH of triangles reads vertices at large indices')
    for n, axis, side in ((5, 1, '01101'), (6, 0, '010011')):
        ix = [0, 1, 2, 2, 1, 3, 4, 0, 3, 4, 2, 0, 1, 3, 0, 4, 1, 2][:3 * n]
        cen = [(-1 if side[i] == '0' else 1) if a == axis else None for i in range(n) for a in range(4)]
        bd3 = 'f32x4 lo[%d], hi[%d]; for (int i = 0; i < %d; i++) { f32x4 q[3]; for (int k = 0; k < 3; k++) { auto e = p_v->v + ix[3 * i + k] * 3; q[k] = f32x4(e[0], e[1], e[2]); } lo[i] = min(min(q[0], q[1]), q[2]); hi[i] = max(max(q[0], q[1]), q[2]); } ' % (n, n, n) + run % n
        open_('build_triangles_%d_%d_%s' % (n, axis, side), [('verts3', 'v'), ('Aabb', 'root'), ('cen%d' % n, 'c')], 'static const uint16 ix[%d] = { %s }; TB t; t.recreate((const uint8*)p_v, (const uint8*)ix, root, %d, 12, 2, (const f32x4*)p_c); ' % (3 * n, ', '.join(map(str, ix)), 3 * n) + bd3,
              models=fixed_first(axis), inputs={'c': [None if x is None else lift(x) for x in cen]}, configs=X86, what='Bvh::recreate of %d triangles, first split %s' % (n, side))
    # node fields share the unused lanes of the box
    rb = lambda f: lambda b, x, c: f(b, x)
    u = ('uint32', 'x')
    def node(nm, set_, spec, what):
        p.ob('node_' + nm, '', [('Aabb', 'b'), u, ('uint32', 'y')], 'uarr11', spec, body='Bvh::Node n; n.aabb = b; n.setPrimitiveCount(y); n.setLeftNode(y); ' + set_ + ' auto a = n.aabb.getMin(), c = n.aabb.getMax(); for (int k = 0; k < 3; k++) { out->v[k] = a.uints[k]; out->v[3 + k] = c.uints[k]; } out->v[6] = n.getPrimitiveCount(); out->v[7] = n.getLeftNode(); out->v[8] = n.getFirstPrimitive(); out->v[9] = n.isLeaf(); out->v[10] = 0;', what=what)
    TYPES['uarr11'] = T('UArr<11>', [(4 * i, 'i', str(i)) for i in range(11)])
    fb = lambda b: [D.f2bits(b[k]) for k in (0, 1, 2, 4, 5, 6)] if len(b) == 8 else None
    lf = lambda c: ite(ieq(c[0], iconst(32, 0)), iconst(32, 0), iconst(32, 1))
    node('count', 'n.setPrimitiveCount(x);', lambda b, x, y: fb(b) + [x[0], y[0], y[0], lf(x), 0], 'Node::setPrimitiveCount changes only the primitive count')
    node('left', 'n.setLeftNode(x);', lambda b, x, y: fb(b) + [y[0], x[0], x[0], lf(y), 0], 'Node::setLeftNode changes only the child index')
    node('first', 'n.setFirstPrimitive(x);', lambda b, x, y: fb(b) + [y[0], x[0], x[0], lf(y), 0], 'Node::setFirstPrimitive changes only the first primitive')
    p.ob('empty', '', [], 'uarr3', lambda: [0, 0, 0], body='Bvh t; out->v[0] = (uint32)t.getNodes().size(); out->v[1] = (uint32)t.getPrimitives().size(); out->v[2] = (uint32)t.getCentroids().size();', what='a default BVH is empty')
    return p
