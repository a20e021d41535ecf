"""Debug checks (assertions) stop exactly for the arguments they are documented to reject, and never for valid ones."""
from .lib import *
from engine import safety
import os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = ('The sources are compiled with assertions enabled. For every function with a checked argument the condition under which it stops is computed (path conditions of the failing '
           'assertions) and compared with the documented condition; every assertion reached from the entry points of all other specifications must be unreachable under their preconditions.')
# stated for every argument there, also rejected ones; which ones are rejected is specified here
SETTERS = '(ctor1?|set|set(Min|Max)|set(Size|Extent)(_pos)?|getPosition_set(Size|Extent)|get(Size|Extent)_set|op_mul|op_div)$'
DEEP = '(build_boxes_4|rebuild_4_3|build_boxes_6_1_011000)$'       # with assertions compiled in they exceed the diagram budget; the smaller builds remain
ELEM = [(t + str(n), 'float' if t == 'float' else t + '32', n) for t in ('float', 'int', 'uint') for n in (2, 3, 4)]
MATS = [('float2x2', 'float2', 2), ('float3x3', 'float3', 3), ('float4x3', 'float3', 4), ('float4x4', 'float4', 4), ('f32x4x4', 'f32x4', 4)]
def build():
    p = Prop('D01', ['math/matrix/transform.hpp', 'math/aabb.hpp', 'math/version.hpp'], 'Debug checks')
    p.flags = ('-UNDEBUG',)
    def index(n, tag):
        F = iconst(64, n - 1)
        for k in list(range(n - 1)) + [n, n + 1, n + 5, 255, 256, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]: F = ite(bin_('%s_index_is_%d' % (tag, k)), iconst(64, k), F)
        return F
    stop = lambda n: lambda *v: bnot(ilt(v[-1][0], iconst(64, n), False))
    for T_, E, n in ELEM + [('Version', 'uint8', 4)] + MATS:
        F = index(n, T_)
        src = 'float%d' % n if T_ == 'Version' else T_
        mk = {'Version': 'Version v(1, 2, 3, 4);'}.get(T_, '%s v = m;' % T_)
        arg = [] if T_ == 'Version' else [(T_, 'm')]
        nr = len(TYPES[E].cells)
        p.ob('get_' + T_, '', arg + [('psize', 'i')], E, lambda *v, nr=nr: [None] * nr, body='const %s *out = ((const %s&)v)[i];' % (mk, T_), inputs={'i': [F]}, stops=stop(n), what='%s::operator[] const accepts exactly the existing indices' % T_)
        p.ob('at_' + T_, '', arg + [('psize', 'i')], E, lambda *v, nr=nr: [None] * nr, body='%s *out = v[i];' % mk, inputs={'i': [F]}, stops=stop(n), what='%s::operator[] accepts exactly the existing indices' % T_)
        p.ob('set_' + T_, '', arg + [(E, 'x'), ('psize', 'i')], E, lambda *v, nr=nr: [None] * nr, body='%s v[i] = x; *out = x;' % mk, inputs={'i': [F]}, stops=stop(n), what='%s::operator[] accepts exactly the existing indices' % T_)
    a, b, A = ('f32x4', 'a'), ('f32x4', 'b'), ('Aabb', 'A')
    inv = lambda x, y: bnot(band(band(fle(x[0], y[0]), fle(x[1], y[1])), fle(x[2], y[2])))
    neg = lambda x: bnot(band(band(fle(lift(0), x[0]), fle(lift(0), x[1])), fle(lift(0), x[2])))
    box = dict(ret='f32x4')
    def ob(name, args, body, stops, what, assume=None): p.ob(name, '', args, 'f32x4', lambda *v: [None] * 4, body=body + ' *out = t.getMin();', stops=stops, what=what, assume=assume)
    ob('box', [a, b], 'Aabb t(a, b);', lambda a, b: inv(a, b), 'Aabb(min, max) rejects exactly inverted corners')
    ob('box_set', [a, b], 'Aabb t; t.set(a, b);', lambda a, b: inv(a, b), 'Aabb::set rejects exactly inverted corners')
    ob('box_try', [a, b], 'Aabb t; t.trySet(a, b);', lambda a, b: FALSE, 'Aabb::trySet never stops')
    ord_ = lambda A, *r: band(band(fle(A[0], A[4]), fle(A[1], A[5])), fle(A[2], A[6]))
    ob('box_min', [A, a], 'Aabb t = A; t.setMin(a);', lambda A, a: inv(a, A[4:]), 'Aabb::setMin rejects exactly a corner above the maximum', ord_)
    ob('box_max', [A, a], 'Aabb t = A; t.setMax(a);', lambda A, a: inv(A, a), 'Aabb::setMax rejects exactly a corner below the minimum', ord_)
    for nm, op, f in (('mul', '*', D.fmul), ('div', '/', D.fdiv)):
        sc = lambda A, b, f=f: inv([f(A[k], b[k]) for k in range(3)], [f(A[4 + k], b[k]) for k in range(3)])
        ob('box_' + nm, [A, b], 'Aabb t = A %s b;' % op, sc, 'Aabb %s vector rejects exactly an inverted result' % op, ord_)
    for f in ('setSize', 'setExtent'):
        ob('box_%s1' % f, [a], 'Aabb t; t.%s(a);' % f, lambda a: neg(a), 'Aabb::%s rejects exactly negative sizes' % f)
        ob('box_%s2' % f, [a, b], 'Aabb t; t.%s(a, b);' % f, lambda a, b: neg(a), 'Aabb::%s rejects exactly negative sizes' % f)
    def other(scratch, tier):
        # assertions met on the way by everything else; the containers of the models take part as well
        cfgs = ('sse2',) if tier == 'quick' else ('sse2', 'sse41', 'avx2', 'neon')
        return safety.sweep(scratch, safety.traps, [(i, cfg, ['-UNDEBUG', '-DMODEL_CHECKED'], lambda o, i=i: not re.match({'G01': SETTERS, 'B01': DEEP}.get(i, '-'), o.name), {}) for i in safety.ALL for cfg in cfgs])
    p.extra = [part(packed()), part(text()), part(bvh()), other]
    return p

def part(q):
    """obligations over sources that need a model of a container"""
    def run(scratch, tier):
        rs = run_prop(q, scratch, tier, None)
        und = [{'probe': r['name'], 'cfg': r['cfg'], 'slot': s, 'why': m[:400]} for r in rs for s, m in r['undecided']]
        und += [{'probe': r['name'], 'cfg': r['cfg'], 'slot': '*', 'why': r['error'][-400:]} for r in rs if r.get('error')]
        reach = set()
        for r in rs: reach.update(r.get('reach', ()))
        return {'obligations': sum(r['slots'] for r in rs), 'discharged': sum(r['proved'] for r in rs), 'undecided': und, 'reach': reach,
                'violations': [dict(v, probe=r['name'], cfg=r['cfg']) for r in rs for v in r['violations']], 'summary': {'entry_points': len({r['name'] for r in rs})}}
    return run

def pick(tag, w, ks):
    """one of the listed numbers, which one is open"""
    F = iconst(w, ks[0])
    for j, k in enumerate(ks[1:]): F = ite(bin_('%s_is_%d_%d' % (tag, k, j)), iconst(w, k), F)
    return F

def packed():
    p = Prop('D01p', ['math/packed-vector.hpp'], 'Debug checks of packed vectors')
    p.std = ('cstdlib', 'cstdint', 'cassert'); p.flags = ('-UNDEBUG', '-I' + os.path.join(HERE, 'shimvec'))
    for b in (1, 2, 4):
        per = 8 // b
        for n in (0, 1, per, per + 1, 3 * per - 1, 4 * per):
            room = -(-n // per) * per
            ks = sorted({0, n - 1, n, room - 1, room, room + 1, 2 * room, per * 5, 2 ** 32, 2 ** 63, 2 ** 64 - 1} - {-1})
            stop = lambda *v, room=room: bnot(ilt(v[-1][0], iconst(64, room), False))
            i = ('psize', 'i'); inp = {'i': [pick('pv%d_%d' % (b, n), 64, ks)]}
            p.ob('get%d_%d' % (b, n), '', [i], 'uint8', lambda *v: [None], body='const PackedVector<%d> v(%d); *out = v.get(i);' % (b, n), inputs=inp, stops=stop, what='PackedVector<%d>::get accepts exactly indices into its storage' % b)
            p.ob('set%d_%d' % (b, n), '', [('uint8', 'x'), i], 'uint8', lambda *v: [None], body='PackedVector<%d> v(%d); v.set(i, x); *out = x;' % (b, n), inputs=inp, stops=stop, what='PackedVector<%d>::set accepts exactly indices into its storage' % b)
    return p

def text():
    from . import k02
    q = k02.build()
    p = Prop('D01t', q.includes, 'Debug checks of texts'); p.std = q.std; p.flags = q.flags + ('-UNDEBUG',); p.helpers = q.helpers; p.configs = q.configs
    for n in range(0, 13):
        p.ob('color_hex_%d' % n, '', [('uarr32', 'c')], 'Color', lambda c: [None] * 4, body='math::string s; for (int i = 0; i < %d; i++) s.put(c.v[i], 0); *out = Color(s);' % n,
             stops=lambda c, n=n: FALSE if n in (6, 8) else TRUE, what='Color(hex string) accepts exactly 6 and 8 digits')
    return p

def bvh():
    from . import b01
    q = b01.build()
    p = Prop('D01b', q.includes, 'Debug checks of the BVH'); p.std = q.std; p.flags = q.flags + ('-UNDEBUG',); p.helpers = q.helpers; p.configs = ('sse2', 'sse41', 'avx2')
    B = lambda n: ('bool', n)
    def orr(*v):
        r = FALSE
        for x in v: r = ite(x, TRUE, r)
        return r
    root = ('Aabb', 'root'); un = lambda *v: [None]
    ordered = lambda b, r, *_: every([fle(b[k], b[4 + k]) for k in range(3)] + [fle(r[k], r[4 + k]) for k in range(3)])
    def every(cs):
        r = TRUE
        for c in cs: r = band(r, c)
        return r
    for nm, call in (('recreate', 'TB t; t.recreate('), ('construct', 'TB t(')):
        p.ob('boxes_' + nm, '', [('boxes1', 'b'), root, B('z'), B('n')], 'uint32', un, body=call + 'z ? nullptr : (const Aabb*)p_b, root, n ? 0 : 1); *out = (uint32)t.n().size();', models=b01.ANY, assume=ordered,
             stops=lambda b, r, z, n: orr(z[0], n[0]), what='a BVH needs boxes')
        p.ob('triangles_' + nm, '', [('boxes2', 'b'), root, B('v'), B('i'), B('n'), B('s'), B('w')], 'uint32', un,
             body='uint32 ix[3] = {0, 1, 2}; ' + call + 'v ? nullptr : (const uint8*)p_b, i ? nullptr : (const uint8*)ix, root, n ? 0 : 3, s ? 0 : 12, w ? 0 : 4); *out = (uint32)t.n().size();',
             models=b01.ANY, assume=lambda b, r, *_: every([fle(r[k], r[4 + k]) for k in range(3)]), stops=lambda b, r, *c: orr(*[x[0] for x in c]), what='a BVH of triangles needs vertices, indices and their sizes')
    for nm, arg in (('', ''), ('_local', ', &st')):
        p.ob('collect' + nm, '', [B('z'), B('n')], 'uint32', un, body='TB t; stack<Bvh::Node*> st; Plane pl[1] = { Plane(f32x4(1, 0, 0), 0) }; uint32 o[1]; *out = t.collectInFrustum(z ? nullptr : pl, n ? 0 : 1, o%s);' % arg,
             stops=lambda z, n: orr(z[0], n[0]), what='Bvh::collectInFrustum needs planes')
    p.ob('traverse', '', [B('z'), B('n')], 'uint32', un, body='TB t; *out = 0; std::function<bool(const Bvh::Node&)> f, g = [](const Bvh::Node&) { return true; }; '
         'std::function<void(uint32, uint32)> h, k = [](uint32, uint32) { }; t.traverse(z ? f : g, n ? h : k);', stops=lambda z, n: orr(z[0], n[0]), what='Bvh::traverse needs both callbacks')
    return p
