from .lib import *
SC = {'float': 'float', 'uint': 'uint32', 'int': 'int32'}
def build():
    p = Prop('V04', ['math/vector.hpp' if False else 'math/vector/float.hpp', 'math/simd/vector/float.hpp'], 'Comparisons, masks, selection and reductions')
    for base in ('float', 'uint', 'int'):
        for n in (2, 3, 4): one(p, '%s%d' % (base, n), SC[base], n, base, 'uint%d' % n)
    for V, b in (('f32x4', 'float'), ('u32x4', 'uint'), ('i32x4', 'int')): one(p, V, SC[b], 4, b, 'u32x4')
    for M, n in (('uint2', 2), ('uint3', 3), ('uint4', 4), ('u32x4', 4)): red(p, M, n)
    return p
def one(p, T, S, n, base, M):
    N = lambda k: T + '_' + k
    a, b, c, s = (T, 'a'), (T, 'b'), (T, 'c'), (S, 's')
    if base == 'float': lt, eq = flt, feq
    else:
        sg = base == 'int'
        lt = lambda x, y: ilt(x, y, sg); eq = ieq
    REL = [('lt', '<', lt), ('gt', '>', lambda x, y: lt(y, x)), ('le', '<=', lambda x, y: bnot(lt(y, x))), ('ge', '>=', lambda x, y: bnot(lt(x, y)))]
    for nm, op, f in REL:
        p.ob(N(nm), 'a %s b' % op, [a, b], M, lambda a, b, f=f: each(lambda x, y: mask(f(x, y)), a, b))
        p.ob(N(nm + '_s'), 'a %s s' % op, [a, s], M, lambda a, s, f=f: [mask(f(x, s[0])) for x in a])
        p.ob(N('s_' + nm), 's %s b' % op, [s, b], M, lambda s, b, f=f: [mask(f(s[0], x)) for x in b])
    for nm, op, neg in (('eq', '==', False), ('ne', '!=', True)):
        g = lambda xs, ys, neg=neg: (bnot if neg else (lambda q: q))(ball([eq(x, y) for x, y in zip(xs, ys)]))
        p.ob(N(nm), 'a %s b' % op, [a, b], 'bool', lambda a, b, g=g: g(a, b))
        p.ob(N(nm + '_s'), 'a %s s' % op, [a, s], 'bool', lambda a, s, g=g: g(a, [s[0]] * len(a)))
        p.ob(N('s_' + nm), 's %s b' % op, [s, b], 'bool', lambda s, b, g=g: g([s[0]] * len(b), b))
    p.ob(N('equal'), 'equal(a,b)', [a, b], M, lambda a, b: each(lambda x, y: mask(eq(x, y)), a, b))
    p.ob(N('notEqual'), 'notEqual(a,b)', [a, b], M, lambda a, b: each(lambda x, y: mask(bnot(eq(x, y))), a, b))
    p.ob(N('select'), 'select(c,a,b)', [(M, 'c'), a, b], T, lambda c, a, b: each(lambda m, t, f: ite(msb(m), t, f), c, a, b))
    order(p, T, T)
def order(p, name, T, raw=None):
    N = lambda k: name + '_' + k
    a, b, c = (T, 'a'), (T, 'b'), (T, 'c')
    L = 'isBinaryLess(%s,%s)'
    p.ob(N('less_irreflexive'), L % ('a', 'a'), [a], 'bool', lambda a: FALSE, what='isBinaryLess(a,a)')
    p.ob(N('less_asymmetric'), '%s && %s' % (L % ('a', 'b'), L % ('b', 'a')), [a, b], 'bool', lambda a, b: FALSE, what='isBinaryLess(a,b) && isBinaryLess(b,a)')
    def same(a, b): return ball([(feq if isinstance(leafof(x), D.Poly) else ieq)(x, y) for x, y in zip(a, b)])
    p.ob(N('less_total'), '%s || %s' % (L % ('a', 'b'), L % ('b', 'a')), [a, b], 'bool', lambda a, b: bnot(same(a, b)), what='isBinaryLess(a,b) || isBinaryLess(b,a)')
    p.ob(N('less_transitive'), '%s && %s && !%s' % (L % ('a', 'b'), L % ('b', 'c'), L % ('a', 'c')), [a, b, c], 'bool', lambda a, b, c: FALSE, what='isBinaryLess transitivity')
def leafof(n):
    while n.leaf is None: n = n.hi
    return n.leaf
def red(p, M, n):
    v = [mask(bin_('v%d' % i)) for i in range(n)] if M == 'u32x4' else None
    inp = {'v': [mask(bin_('m%d' % i)) for i in range(n)]} if M == 'u32x4' else {}
    a = [(M, 'v')]
    AO = iconst(32, -1); Z = iconst(32, 0)
    andall = lambda v: reduce_(iand, v); orall = lambda v: reduce_(ior, v)
    p.ob(M + '_areAllTrue', 'areAllTrue(v)', a, 'bool', lambda v: ball([ieq(x, AO) for x in v]), inputs=inp)
    p.ob(M + '_areAnyFalse', 'areAnyFalse(v)', a, 'bool', lambda v: bnot(ball([ieq(x, AO) for x in v])), inputs=inp)
    p.ob(M + '_areAllFalse', 'areAllFalse(v)', a, 'bool', lambda v: ball([ieq(x, Z) for x in v]), inputs=inp)
    p.ob(M + '_areAnyTrue', 'areAnyTrue(v)', a, 'bool', lambda v: bnot(ball([ieq(x, Z) for x in v])), inputs=inp)
    def tr(v):
        r = Z
        for k, x in enumerate(v): r = iadd(r, ite(msb(x), iconst(32, 1 << k), Z))
        return r
    p.ob(M + '_getTrues', '(uint32)getTrues(v)', a, 'uint32', lambda v: tr(v))
    p.ob(M + '_trunc', '', a, 'uint32', lambda v: tr(v), body='*out = (uint32)getTrues(v < v) | (uint32)getTrues(v);', what='getTrues(mask)')
def reduce_(f, v):
    r = v[0]
    for x in v[1:]: r = f(r, x)
    return r
