from .lib import *
from .t01 import v3
from .v04 import order
def box(lo, hi): return list(lo) + [None] + list(hi) + [None]
def b3(b): return Vec(b[:3]), Vec(b[4:7])
def build():
    p = Prop('G01', ['math/aabb.hpp'], 'Bounding boxes')
    A, B, a, b, s = ('Aabb', 'A'), ('Aabb', 'B'), ('f32x4', 'a'), ('f32x4', 'b'), ('f32x4', 's')
    h = lift(Q(1, 2))
    eq = lambda x, y: list(x[:3]) + [None] + list(y[:3]) + [None]
    p.ob('ctor', 'Aabb(a, b)', [a, b], 'Aabb', eq)
    p.ob('ctor1', 'Aabb(a)', [a], 'Aabb', lambda a: eq(a, [0] * 3))
    p.ob('ctor0', 'Aabb()', [], 'Aabb', lambda: eq([0] * 3, [0] * 3))
    p.ob('getMin', 'A.getMin()', [A], 'f32x4', lambda A: list(A[:3]) + [None])
    p.ob('getMax', 'A.getMax()', [A], 'f32x4', lambda A: list(A[4:7]) + [None])
    p.ob('setMin', '', [A, a], 'Aabb', lambda A, a: eq(a, A[4:]), body='Aabb c = A; c.setMin(a); *out = c;', what='Aabb::setMin(a)')
    p.ob('setMax', '', [A, a], 'Aabb', lambda A, a: eq(A, a), body='Aabb c = A; c.setMax(a); *out = c;', what='Aabb::setMax(a)')
    p.ob('set', '', [A, a, b], 'Aabb', lambda A, a, b: eq(a, b), body='Aabb c = A; c.set(a, b); *out = c;', what='Aabb::set(a, b)')
    ok = lambda a, b: ball([fle(x, y) for x, y in zip(a[:3], b[:3])])
    p.ob('trySet', '', [A, a, b], 'bool', lambda A, a, b: ok(a, b), body='Aabb c = A; *out = c.trySet(a, b);', what='Aabb::trySet(a, b) result')
    p.ob('trySet_state', '', [A, a, b], 'Aabb', lambda A, a, b: [ite(ok(a, b), y, x) for x, y in zip(A[:3], a)] + [None] + [ite(ok(a, b), y, x) for x, y in zip(A[4:7], b)] + [None],
         body='Aabb c = A; (void)c.trySet(a, b); *out = c;', what='Aabb::trySet(a, b) stored box')
    for nm, k in (('Size', h), ('Extent', lift(1))):
        f = lambda s, k=k: Vec([x * k for x in v3(s)])
        p.ob('set' + nm, '', [A, s], 'Aabb', lambda A, s, f=f: box([lift(0) - x for x in f(s)], f(s)), body='Aabb c = A; c.set%s(s); *out = c;' % nm, what='Aabb::set%s(s)' % nm)
        p.ob('set%s_pos' % nm, '', [A, s, a], 'Aabb', lambda A, s, a, f=f: box(sub(v3(a), f(s)), add(v3(a), f(s))), body='Aabb c = A; c.set%s(s, a); *out = c;' % nm, what='Aabb::set%s(s, a)' % nm)
        # round trip: what was set is what is read
        p.ob('get%s_set' % nm, '', [A, s, a], 'f32x4', lambda A, s, a: list(s[:3]) + [None], body='Aabb c = A; c.set%s(s, a); *out = c.get%s();' % (nm, nm), what='get%s after set%s' % (nm, nm))
        p.ob('getPosition_set%s' % nm, '', [A, s, a], 'f32x4', lambda A, s, a: list(a[:3]) + [None], body='Aabb c = A; c.set%s(s, a); *out = c.getPosition();' % nm, what='getPosition after set%s' % nm)
    siz = lambda A: sub(b3(A)[1], b3(A)[0])
    p.ob('getSize', 'A.getSize()', [A], 'f32x4', lambda A: list(siz(A)) + [None])
    p.ob('getPosition', 'A.getPosition()', [A], 'f32x4', lambda A: [(x + y) * h for x, y in zip(*b3(A))] + [None])
    p.ob('getExtent', 'A.getExtent()', [A], 'f32x4', lambda A: [x * h for x in siz(A)] + [None])
    p.ob('getExtent2', '', [A], 'arr8', lambda A: [x * h for x in siz(A)] + [None] + [(x + y) * h for x, y in zip(*b3(A))] + [None],
         body='f32x4 e, q; A.getExtent(e, q); for (int i = 0; i < 4; i++) { (*out)[i] = e[i]; (*out)[4 + i] = q[i]; }', what='getExtent(extent, position)')
    for nm, f, g in (('extend', fmin, fmax), ('shrink', fmax, fmin)):
        p.ob(nm + '_point', '', [A, a], 'Aabb', lambda A, a, f=f, g=g: box([f(x, y) for x, y in zip(A[:3], a)], [g(x, y) for x, y in zip(A[4:7], a)]), body='Aabb c = A; c.%s(a); *out = c;' % nm, what='Aabb::%s(point)' % nm)
        p.ob(nm + '_aabb', '', [A, B], 'Aabb', lambda A, B, f=f, g=g: box([f(x, y) for x, y in zip(A[:3], B)], [g(x, y) for x, y in zip(A[4:7], B[4:])]), body='Aabb c = A; c.%s(B); *out = c;' % nm, what='Aabb::%s(aabb)' % nm)
    # a box extended by a point or box contains it
    p.ob('extend_contains', '', [A, a], 'bool', lambda A, a: TRUE, body='Aabb c = A; c.extend(a); *out = isInside(c, a);', what='isInside after extend(point)')
    p.ob('extend_contains_box', '', [A, B], 'bool', lambda A, B: TRUE, body='Aabb c = A; c.extend(B); *out = isInside(c, A) && isInside(c, B);', what='isInside after extend(aabb)')
    for nm, f in (('translate', fadd), ('scale', fmul)):
        p.ob(nm, '', [A, a], 'Aabb', lambda A, a, f=f: box([f(x, y) for x, y in zip(A[:3], a)], [f(x, y) for x, y in zip(A[4:7], a)]), body='Aabb c = A; c.%s(a); *out = c;' % nm, what='Aabb::%s' % nm)
    for nm, op, f in ARITH:
        g = lambda A, a, f=f: box([f(x, y) for x, y in zip(A[:3], a)], [f(x, y) for x, y in zip(A[4:7], a)])
        p.ob('op_' + nm, 'A %s a' % op, [A, a], 'Aabb', g)
        p.ob('opeq_' + nm, '', [A, a], 'Aabb', g, body='Aabb c = A; c %s= a; *out = c;' % op, what='Aabb %s=' % op)
        p.ob('opeq_ret_' + nm, '', [A, a], 'bool', lambda A, a: TRUE, body='Aabb c = A; *out = &(c %s= a) == &c;' % op, what='Aabb %s= returns itself' % op)
    p.ob('calcArea', 'A.calcArea()', [A], 'float', lambda A: lift(2) * (siz(A)[0] * siz(A)[1] + siz(A)[1] * siz(A)[2] + siz(A)[2] * siz(A)[0]))
    p.ob('calcVolume', 'A.calcVolume()', [A], 'float', lambda A: siz(A)[0] * siz(A)[1] * siz(A)[2])
    for nm, k in (('zero', 0), ('one', Q(1, 2)), ('two', 1), ('half', Q(1, 4))):
        p.ob('const_' + nm, 'Aabb::' + nm, [], 'Aabb', lambda k=k: box([lift(-k)] * 3, [lift(k)] * 3))
    p.ob('const_full', '', [a], 'bool', lambda a: TRUE, body='*out = isInside(Aabb::full, a);', what='Aabb::full contains every point', assume=lambda a: ball([band(fle(lift(-10**30), x), fle(x, lift(10**30))) for x in a[:3]]))
    p.ob('const_inf', '', [a], 'bool', lambda a: TRUE, body='*out = isInside(Aabb::inf, a);', what='Aabb::inf contains every point')
    same = lambda A, B: ball([feq(x, y) for x, y in zip(A, B)])
    p.ob('eq', 'A == B', [A, B], 'bool', lambda A, B: same(A, B))
    p.ob('ne', 'A != B', [A, B], 'bool', lambda A, B: bnot(same(A, B)))
    order(p, 'Aabb', 'Aabb')
    ins = lambda lo, hi, x: ball([band(fle(l, v), fle(v, h_)) for l, h_, v in zip(lo, hi, x)])
    p.ob('isInside_point', 'isInside(A, a)', [A, a], 'bool', lambda A, a: ins(A[:3], A[4:7], a[:3]))
    p.ob('isInside_aabb', 'isInside(A, B)', [A, B], 'bool', lambda A, B: ball([band(fle(A[i], B[i]), fle(B[4 + i], A[4 + i])) for i in range(3)]))
    p.ob('isIntersected', 'isIntersected(A, B)', [A, B], 'bool', lambda A, B: ball([band(fle(A[i], B[4 + i]), fle(B[i], A[4 + i])) for i in range(3)]))
    valid = lambda A, *r: ball([fle(x, y) for x, y in zip(A[:3], A[4:7])])
    p.ob('isIntersected_point', '', [A, B, a], 'bool', lambda A, B, a: FALSE, body='*out = isInside(A, a) && isInside(B, a) && !isIntersected(A, B);', what='boxes sharing a point intersect')
    p.ob('isIntersected_self', 'isIntersected(A, A)', [A], 'bool', lambda A: TRUE, assume=valid)
    p.ob('isInside_self', 'isInside(A, A)', [A], 'bool', lambda A: TRUE)
    p.ob('closestPoint', 'closestPoint(A, a)', [A, a], 'f32x4', lambda A, a: [fmin(fmax(x, l), h_) for x, l, h_ in zip(a[:3], A, A[4:])] + [None], assume=valid)
    p.ob('closestPoint_inside', '', [A, a], 'bool', lambda A, a: TRUE, body='*out = isInside(A, closestPoint(A, a));', what='closest point lies in the box', assume=valid)
    return p
