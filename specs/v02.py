from .lib import *
def build():
    p = Prop('V02', ['math/vector.hpp'], 'Integer vectors act component-wise modulo 2^32')
    for sg in (False, True): one(p, sg)
    return p
def one(p, sg):
    if True:
        base = 'int' if sg else 'uint'
        ST = 'int32' if sg else 'uint32'
        OPS = [('add', '+', iadd, None), ('sub', '-', isub, None), ('mul', '*', imul, None),
               ('div', '/', lambda a, b: idiv('sdiv' if sg else 'udiv', a, b), 'div'), ('mod', '%', lambda a, b: idiv('srem' if sg else 'urem', a, b), 'div'),
               ('and', '&', iand, None), ('or', '|', ior, None), ('xor', '^', ixor, None),
               ('shr', '>>', lambda a, b: ishift('ashr' if sg else 'lshr', a, b), 'sh'), ('shl', '<<', lambda a, b: ishift('shl', a, b), 'sh')]
        for n in (2, 3, 4):
            T = '%s%d' % (base, n)
            A, B, Cc, S = (T, 'a'), (T, 'b'), (T, 'c'), (ST, 's')
            N = lambda nm: '%s_%s' % (T, nm)
            p.ob(N('default'), '%s()' % T, [], T, lambda n=n: [0] * n)
            p.ob(N('splat'), '%s(s)' % T, [S], T, lambda s, n=n: [s[0]] * n)
            p.ob(N('ctor'), '%s(%s)' % (T, ','.join('xyzw'[:n])), [(ST, c) for c in 'xyzw'[:n]], T, lambda *v: [t[0] for t in v])
            for i in range(n):
                p.ob(N('get%d' % i), 'a[%d]' % i, [A], ST, lambda a, i=i: a[i])
                p.ob(N('set%d' % i), '', [A, S], T, lambda a, s, i=i: [s[0] if k == i else a[k] for k in range(len(a))],
                     body='%s t = a; t[%d] = s; *out = t;' % (T, i), what='%s::operator[](%d) as lvalue' % (T, i))
            for m in range(2, n + 1):
                for b2 in ('uint', 'int'):
                    if (b2 == base and m == n) or (b2 == 'int' and not sg): continue
                    p.ob(N('to_%s%d' % (b2, m)), '', [A], '%s%d' % (b2, m), lambda a, m=m: a[:m], body='%s t = a; *out = (%s%d)t;' % (T, b2, m), what='%s::operator %s%d()' % (T, b2, m))
            for s2 in (('uint32',) if not sg else ('uint32', 'int32')):
                p.ob(N('to_' + s2), '', [A], s2, lambda a: a[0], body='%s t = a; *out = (%s)t;' % (T, s2), what='%s::operator %s()' % (T, s2))
            if sg: p.ob(N('from_uint'), '%s(u)' % T, [('uint%d' % n, 'u')], T, lambda u: list(u))
            for nm, op, f, kind in OPS:
                if kind == 'sh':
                    rg = {'b.*': (0, 31), 's': (0, 31)}
                    asm = lambda b: ball([ilt(x, iconst(32, 32), False) for x in b])
                elif kind == 'div':
                    rg = {'b.*': (1, 9), 's': (1, 9)}
                    asm = lambda b: ball([ilt(iconst(32, 0), x, True) for x in b]) if sg else ball([bnot(ieq(x, iconst(32, 0))) for x in b])
                else: rg = None; asm = None
                k2 = dict(ranges=rg)
                am = dict(assume=(lambda a, b, asm=asm: asm(b)) if asm else None, **k2)
                p.ob(N(nm), 'a %s b' % op, [A, B], T, lambda a, b, f=f: each(f, a, b), **am)
                p.ob(N(nm + '_s'), 'a %s s' % op, [A, S], T, lambda a, s, f=f: [f(x, s[0]) for x in a], **am)
                sam = dict(ranges={'b.*': rg['b.*']} if rg else None, assume=(lambda s, b, asm=asm: asm(b)) if asm else None)
                p.ob(N('s_' + nm), 's %s b' % op, [S, B], T, lambda s, b, f=f: [f(s[0], x) for x in b], **sam)
                p.ob(N(nm + '_asg'), '', [A, B], T, lambda a, b, f=f: each(f, a, b), body='%s t = a; t %s= b; *out = t;' % (T, op), what='%s::operator%s=(%s)' % (T, op, T), **am)
                p.ob(N(nm + '_s_asg'), '', [A, S], T, lambda a, s, f=f: [f(x, s[0]) for x in a], body='%s t = a; t %s= s; *out = t;' % (T, op), what='%s::operator%s=(%s)' % (T, op, ST), **am)
            bk = [nm for nm, op, f, kind in OPS if kind is None]
            for nm, op, f, kind in OPS:
                if kind: continue
                p.ob(N(nm + '_asg_ref'), '', [A, B, Cc], T, lambda a, b, c, f=f: each(lambda x, y, z: f(f(x, y), z), a, b, c), body='%s t = a; (t %s= b) %s= c; *out = t;' % (T, op, op), what='%s::operator%s= returns *this' % (T, op))
                p.ob(N(nm + '_s_asg_ref'), '', [A, S, (ST, 'r')], T, lambda a, s, r, f=f: [f(f(x, s[0]), r[0]) for x in a], body='%s t = a; (t %s= s) %s= r; *out = t;' % (T, op, op), what='%s::operator%s=(%s) returns *this' % (T, op, ST))
            p.ob(N('asg_s'), '', [A, S], T, lambda a, s: [s[0]] * len(a), body='%s t = a; t = s; *out = t;' % T, what='%s::operator=(%s)' % (T, ST))
            p.ob(N('asg_ref'), '', [A, B], T, lambda a, b: each(lambda x, y: iadd(iadd(x, y), y), a, b), body='%s t = a; (t += b) += b; *out = t;' % T, what='%s::operator+= returns *this' % T)
            p.ob(N('neg'), '-a', [A], T, lambda a: [isub(iconst(32, 0), x) for x in a])
            p.ob(N('lnot'), '!a', [A], T, lambda a: [ite(ieq(x, iconst(32, 0)), iconst(32, 1), iconst(32, 0)) for x in a])
            p.ob(N('bnot'), '~a', [A], T, lambda a: [ixor(x, iconst(32, -1)) for x in a])
            mn = lambda x, y: imin(x, y, sg); mx = lambda x, y: imax(x, y, sg)
            for nm, f in (('min', mn), ('max', mx)):
                p.ob(N(nm), '%s(a,b)' % nm, [A, B], T, lambda a, b, f=f: each(f, a, b))
                p.ob(N(nm + '3'), '%s(a,b,c)' % nm, [A, B, Cc], T, lambda a, b, c, f=f: each(lambda x, y, z: f(f(x, y), z), a, b, c))
            p.ob(N('clamp'), 'clamp(a,b,c)', [A, B, Cc], T, lambda a, b, c: each(lambda v, lo, hi: mn(mx(v, lo), hi), a, b, c),
                 assume=lambda a, b, c: ball([bnot(ilt(y, x, sg)) for x, y in zip(b, c)]))
            for k, v in (('zero', 0), ('one', 1)) + ((('minusOne', -1),) if sg else ()): p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda v=v, n=n: [v] * n)
            if sg and n < 4:
                for k, ax, v in (('left', 0, -1), ('right', 0, 1), ('bottom', 1, -1), ('top', 1, 1)) + ((('back', 2, -1), ('front', 2, 1)) if n == 3 else ()):
                    p.ob(N('k_' + k), '%s::%s' % (T, k), [], T, lambda ax=ax, v=v, n=n: [v if i == ax else 0 for i in range(n)])
        v2, v3, V4 = base + '2', base + '3', base + '4'
        V2 = (v2, 'p'); V2q = (v2, 'q'); V3 = (v3, 'p'); S = (ST, 's'); R = (ST, 'r')
        p.ob(base + '3_21', '%s(p,s)' % v3, [V2, S], v3, lambda p, s: [p.x, p.y, s[0]])
        p.ob(base + '3_12', '%s(s,p)' % v3, [S, V2], v3, lambda s, p: [s[0], p.x, p.y])
        p.ob(base + '4_211', '%s(p,s,r)' % V4, [V2, S, R], V4, lambda p, s, r: [p.x, p.y, s[0], r[0]])
        p.ob(base + '4_121', '%s(s,p,r)' % V4, [V2, S, R], V4, lambda p, s, r: [s[0], p.x, p.y, r[0]])
        p.ob(base + '4_112', '%s(s,r,p)' % V4, [V2, S, R], V4, lambda p, s, r: [s[0], r[0], p.x, p.y])
        p.ob(base + '4_22', '%s(p,q)' % V4, [V2, V2q], V4, lambda p, q: [p.x, p.y, q.x, q.y])
        p.ob(base + '4_31', '%s(p,s)' % V4, [V3, S], V4, lambda p, s: [p.x, p.y, p.z, s[0]])
        p.ob(base + '4_13', '%s(s,p)' % V4, [S, V3], V4, lambda s, p: [s[0], p.x, p.y, p.z])
