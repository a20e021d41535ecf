from .lib import *
import itertools
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = '''
#include "%s/source/bvh.cpp"
struct TB : Bvh
{
	using Bvh::Bvh; TB() = default;
	vector<Node>& n() { return nodes; } vector<uint32>& p() { return primitives; }
	void inner(uint32 i, uint32 l) { Node d; d.aabb.set(f32x4((float)i, 0, 0), f32x4((float)i, 1, 1)); d.setLeftNode(l); d.setPrimitiveCount(0); nodes[i] = d; }
	void leaf(uint32 i, uint32 f, uint32 c) { Node d; d.aabb.set(f32x4((float)i, 0, 0), f32x4((float)i, 1, 1)); d.setFirstPrimitive(f); d.setPrimitiveCount(c); nodes[i] = d; }
};
''' % REPO

def shapes(n):
    """binary trees with n leaves"""
    if n == 1: return [None]
    return [(a, b) for k in range(1, n) for a in shapes(k) for b in shapes(n - k)]

def layout(t, counts):
    """breadth-first or depth-first node numbers: [(left child or None, first, count)], parents"""
    nodes = [None]; par = {0: None}; pos = [0]; cs = iter(counts)
    def go(i, t):
        if t is None:
            c = next(cs); nodes[i] = (None, pos[0], c); pos[0] += c; return
        l = len(nodes); nodes.extend([None, None]); par[l] = par[l + 1] = i
        nodes[i] = (l, 0, 0)
        go(l, t[0]); go(l + 1, t[1])
    go(0, t)
    return nodes, par, pos[0]

def tree(nodes, total):
    s = 'TB t; t.n().resize(%d); t.p().resize(%d); ' % (len(nodes), max(total, 1))
    for i, (l, f, c) in enumerate(nodes): s += 't.inner(%d, %d); ' % (i, l) if l is not None else 't.leaf(%d, %d, %d); ' % (i, f, c)
    return s


def renumber(nodes, par, how):
    """the same tree with sibling pairs stored in another order"""
    pairs = [i for i in range(1, len(nodes), 2)]
    order = {0: pairs, 1: pairs[::-1], 2: pairs[1::2] + pairs[::2]}[how]
    new = {0: 0}
    for k, l in enumerate(order): new[l] = 1 + 2 * k; new[l + 1] = 2 + 2 * k
    out = [None] * len(nodes)
    for i, (l, f, c) in enumerate(nodes): out[new[i]] = (None if l is None else new[l], f, c)
    return out, {new[i]: (None if q is None else new[q]) for i, q in par.items()}

def build():
    p = Prop('B02', ['math/bvh.hpp'], 'BVH traversal')
    p.std = ('cmath', 'cassert', 'cstring', 'cstdlib', 'cstdint', 'string', 'algorithm'); p.flags = ('-I' + os.path.join(HERE, 'shimbvh'),)
    p.helpers = HELP
    TYPES['uarr33'] = T('UArr<33>', [(4 * i, 'i', str(i)) for i in range(33)])
    one, zero = iconst(32, 1), iconst(32, 0)
    def visits(nodes, par, h):
        vis = {}
        def go(i):
            if i not in vis: vis[i] = TRUE if par[i] is None else band(go(par[i]), h[par[i]])
            return vis[i]
        return [go(i) for i in range(len(nodes))]
    for n in (1, 2, 3, 4, 5, 6):
        for si, t in enumerate(shapes(n)):
            counts = [(1, 2, 3, 1, 1, 2), (2, 1, 1, 3, 1, 1)][si % 2][:n]
            nodes, par, total = layout(t, counts)
            nodes, par = renumber(nodes, par, si % 3)
            N = len(nodes); OUT = 3 * N
            h = ('barr12', 'h')
            def spec(h, nodes=nodes, par=par, N=N, m=1):
                vis = visits(nodes, par, h)
                out = [ite(vis[i], iconst(32, m), zero) for i in range(N)]
                for i in range(N):
                    l, f, c = nodes[i]
                    k = band(vis[i], h[i]) if l is None else FALSE
                    out += [ite(k, iconst(32, m), zero), ite(k, iconst(32, m * c), zero)]
                return out + [zero] * (33 - len(out))
            call = ('t.traverse([&](const Bvh::Node& d) -> bool { int i = (int)d.aabb.getMin().floats.x; (*out)[i]++; return h[i]; }, [&](uint32 f, uint32 c) { '
                 + ' '.join('if (f == %d) { (*out)[%d]++; (*out)[%d] += c; }' % (f, N + 2 * i, N + 2 * i + 1) for i, (l, f, c) in enumerate(nodes) if l is None) + ' });')
            zer = 'for (int k = 0; k < 33; k++) (*out)[k] = 0; '
            what = 'Bvh::traverse visits exactly the nodes all of whose ancestors intersect (%d leaves, shape %d)' % (n, si)
            p.ob('traverse_%d_%d' % (n, si), '', [h], 'uarr33', spec, body=zer + tree(nodes, total) + call, what=what)
            if n <= 4:
                p.ob('again_%d_%d' % (n, si), '', [h], 'uarr33', lambda h, spec=spec: spec(h, m=2), body=zer + tree(nodes, total) + call + call, what='Bvh::traverse can be repeated')
            # collectInFrustum: the boxes of a node are behind the planes or not
            box = ''.join('{ auto d = t.n()[%d]; auto a = d.getPrimitiveCount(); auto b = d.getLeftNode(); float s = h[%d] ? 1.0f : -4.0f; d.aabb.set(f32x4(s, 1, 1), f32x4(s + 2.0f, 2, 2)); d.setPrimitiveCount(a); d.setLeftNode(b); t.n()[%d] = d; } ' % (i, i, i) for i in range(N))
            ids = [(k * 5 + 3) % total if total % 5 else (k * 3 + 2) % total for k in range(total)]
            if sorted(ids) != list(range(total)): ids = list(range(total))[::-1]
            prm = ''.join('t.p()[%d] = %d; ' % (k, v) for k, v in enumerate(ids))
            def cspec(h, nodes=nodes, par=par, N=N, total=total, ids=ids):
                vis = visits(nodes, par, h); cnt = [zero] * total; n = zero
                for i, (l, f, c) in enumerate(nodes):
                    if l is not None: continue
                    k = band(vis[i], h[i])
                    for x in ids[f:f + c]: cnt[x] = ite(k, one, zero)
                    n = D.iadd(n, ite(k, iconst(32, c), zero))
                return cnt + [n] + [iconst(32, 77)] + [zero] * (31 - total)
            for nm, arg, pre in (('', '', ''), ('_local', ', &st', 'stack<Bvh::Node*> st; ')) if n <= 5 else (('', '', ''),):
                cnt = ('Plane pl[2] = { Plane(f32x4(1, 0, 0), 0), Plane(f32x4(0, 1, 0), 0) }; uint32 buf[%d]; for (int k = 0; k < %d; k++) buf[k] = 77; ' % (total + 1, total + 1) + pre +
                       'uint32 r = t.collectInFrustum(pl, 2, buf%s); (*out)[%d] = r; (*out)[%d] = buf[%d]; ' % (arg, total, total + 1, total) +
                       ''.join('if (r > %d) (*out)[buf[%d]]++; ' % (k, k) for k in range(total)))
                p.ob('collect_%d_%d%s' % (n, si, nm), '', [h], 'uarr33', cspec, body=zer + tree(nodes, total) + box + prm + cnt, what='Bvh::collectInFrustum returns exactly the primitives of the leaves not behind the planes (%d leaves, shape %d)' % (n, si))
    p.ob('traverse_empty', '', [], 'uarr2', lambda: [0, 0], body='(*out)[0] = (*out)[1] = 0; TB t; t.traverse([&](const Bvh::Node& d) -> bool { (*out)[0]++; return true; }, [&](uint32 f, uint32 c) { (*out)[1]++; });', what='an empty tree visits nothing')
    for nm, arg in (('', ''), ('_local', ', &st')):
        p.ob('collect_empty' + nm, '', [], 'uarr2', lambda: [0, 77], body='TB t; stack<Bvh::Node*> st; Plane pl[1] = { Plane(f32x4(1, 0, 0), 0) }; uint32 b[1] = { 77 }; (*out)[0] = t.collectInFrustum(pl, 1, b%s); (*out)[1] = b[0];' % arg, what='an empty tree collects nothing')
    return p
