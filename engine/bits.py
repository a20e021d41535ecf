"""bit-level normal form of integer values: every bit becomes a reduced ordered
decision diagram over the bits of the inputs and of opaque terms, so integer
values built by masks, shifts, additions and comparisons are equal exactly when
their bit diagrams are the same nodes."""
from . import dom as D
from .dom import TRUE, FALSE, ite, bnot, band, bor, bxor, Unsupported

LIMIT = 60000

class Blast:
    def __init__(s): s.pm = {}; s.am = {}; s.nm = {}; s.start = len(D._nodes) if hasattr(D, '_nodes') else 0; s.ops = 0
    def tick(s, k=1):
        s.ops += k
        if s.ops > LIMIT: raise Unsupported('bit-level budget')
    def var(s, key, k):
        v = D.var('bit', (k, key)); return D._mk(v.id, TRUE, FALSE)
    def add(s, a, b, c=FALSE):
        r = []
        for x, y in zip(a, b):
            s.tick()
            t = bxor(x, y); r.append(bxor(t, c)); c = bor(band(x, y), band(t, c))
        return r
    def neg(s, a): return s.add([bnot(x) for x in a], [FALSE] * len(a), TRUE)
    def const(s, w, c): return [TRUE if c >> k & 1 else FALSE for k in range(w)]
    def shl(s, a, k): return ([FALSE] * k + a)[:len(a)]
    def poly(s, p):
        r = s.pm.get(p)
        if r is not None: return r
        w = p.w; r = None
        for m, c in p.t.items():
            if m == (): x = s.const(w, c)
            else:
                if len(m) == 1 and m[0][1] == 1: b = s.atom(D._atomlist[m[0][0]], w)
                else: b = [s.var(('m', m, w), k) for k in range(w)]
                neg = c >= 1 << (w - 1) and bin(c).count('1') > bin((1 << w) - c).count('1')
                if neg: c = (1 << w) - c
                x = None; k = 0
                while c:
                    if c & 1: y = s.shl(b, k); x = y if x is None else s.add(x, y)
                    c >>= 1; k += 1
                if neg: x = s.neg(x)
            r = x if r is None else s.add(r, x)
        if r is None: r = s.const(w, 0)
        s.pm[p] = r
        return r
    def atom(s, A, w):
        r = s.am.get((A, w))
        if r is None: r = s._atom(A, w); s.am[A, w] = r
        assert len(r) == w, (A.kind, len(r), w)
        return r
    def _atom(s, A, w):
        k = A.kind
        if k in ('and', 'or', 'xor'):
            f = {'and': band, 'or': bor, 'xor': bxor}[k]; r = None
            for q in sorted(A.args[0], key=lambda q: q.id):
                b = s.poly(q); s.tick(w)
                r = b if r is None else [f(x, y) for x, y in zip(r, b)]
            return r
        if k in ('zext', 'sext'):
            b = s.poly(A.args[0]); return b + [b[-1] if k == 'sext' else FALSE] * (w - len(b))
        if k == 'trunc': return s.poly(A.args[0])[:w]
        if k in ('lshr', 'ashr') and isinstance(A.args[1], int):
            b = s.poly(A.args[0]); n = A.args[1]
            return b[n:] + [FALSE if k == 'lshr' else b[-1]] * min(n, w)
        return [s.var(('a', A.id), j) for j in range(w)]
    def less(s, a, b):
        r = FALSE
        for x, y in zip(a, b): s.tick(); r = ite(bxor(x, y), y, r)
        return r
    def cond(s, vid):
        v = D._varlist[vid]
        if v.kind == 'ieq0':
            r = TRUE
            for x in s.poly(v.args[0]): r = band(r, bnot(x))
            return r
        if v.kind in ('ult', 'slt'):
            a, b = (list(s.poly(x)) for x in v.args)
            if v.kind == 'slt': a[-1], b[-1] = bnot(a[-1]), bnot(b[-1])
            return s.less(a, b)
        return D._mk(vid, TRUE, FALSE)
    def node(s, n):
        r = s.nm.get(n)
        if r is None:
            s.tick()
            if n.leaf is not None:
                x = n.leaf
                if isinstance(x, bool): r = [TRUE if x else FALSE]
                elif isinstance(x, D.IPoly): r = s.poly(x)
                else: raise Unsupported('not an integer')
            else:
                c = s.cond(n.v); h, l = s.node(n.hi), s.node(n.lo)
                s.tick(len(h)); r = [ite(c, x, y) for x, y in zip(h, l)]
            s.nm[n] = r
        return r

class Collect(Blast):
    def __init__(s): super().__init__(); s.seen = {}
    def var(s, key, k): s.seen.setdefault((k, key)); return FALSE

def bit_equal(a, b, assume=None):
    C = Collect()
    for n in (a, b, assume):
        if n is not None: C.node(n)
    B = Blast()
    for k, key in sorted(C.seen, key=lambda x: x[0]): B.var(key, k)
    x, y = B.node(a), B.node(b)
    if len(x) != len(y): return False
    if all(p is q for p, q in zip(x, y)): return True
    if assume is None: return False
    c = B.node(assume)[0]
    return all(p is q or band(c, bxor(p, q)) is FALSE for p, q in zip(x, y))
