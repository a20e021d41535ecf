"""Polyhedral refinement of normal-form equality.

`equal_refined(a, b)` walks the two decision diagrams together and carries the
conjunction of the predicates along each diagram path as a convex polyhedron
over the monomials that occur in them (non-linear monomials are independent
dimensions, which only weakens the abstraction).  Branches whose polyhedron is
empty are discarded; where leaves differ, the polyhedron must entail that they
are equal.  Emptiness is decided by exact Fourier-Motzkin elimination."""
from fractions import Fraction
from . import dom as D
from .dom import Poly, IPoly, P0, p_add, p_sub, p_neg, p_scale, p_mul, P, pc, Unsupported

LIM = 160
DEBUG = False

class Cons:
    """c . m + k  (op) 0 with op in '<', '<=', '='"""
    __slots__ = ('c', 'k', 'op')
    def __init__(s, c, k, op): s.c, s.k, s.op = c, k, op

def _lin(p):
    c = {}; k = Fraction(0)
    for m, q in p.t.items():
        if m == (): k += q
        else: c[m] = c.get(m, 0) + q
    return c, k

def _norm(c, k):
    return {m: q for m, q in c.items() if q != 0}, k

def infeasible(cons):
    cs = []
    for x in cons: cs.append((dict(x.c), x.k, x.op))
    dims = set()
    for c, k, op in cs: dims |= set(c)
    for m in dims:
        if isinstance(m, tuple) and m and isinstance(m[0], tuple) and D.mono_sign_known(m):
            cs.append(({m: Fraction(-1)}, Fraction(0), '<='))
    # equalities by substitution
    while True:
        for i, (c, k, op) in enumerate(cs):
            if op == '=':
                if not c:
                    if k != 0: return True
                    cs.pop(i); break
                m = min(c, key=lambda t: repr(t)); q = c[m]
                cs.pop(i)
                ns = []
                for c2, k2, op2 in cs:
                    if m in c2:
                        f = c2[m] / q
                        c3 = dict(c2)
                        for mm, qq in c.items(): c3[mm] = c3.get(mm, 0) - f * qq
                        c3, k3 = _norm(c3, k2 - f * k)
                        ns.append((c3, k3, op2))
                    else: ns.append((c2, k2, op2))
                cs = ns
                break
        else: break
    while True:
        ns = {}
        for c, k, op in cs:
            if not c:
                if k > 0 or (k == 0 and op == '<'): return True
                continue
            s = max(abs(q) for q in c.values())
            key = tuple(sorted(((m, q / s) for m, q in c.items()), key=repr))
            k = k / s
            o = ns.get(key)
            if o is None or k > o[0] or (k == o[0] and op == '<'): ns[key] = (k, op)
        if not ns: return False
        cs = [(dict(key), k, op) for key, (k, op) in ns.items()]
        if len(cs) > LIM: return False
        dims = {}
        for c, k, op in cs:
            for m, q in c.items():
                d = dims.setdefault(m, [0, 0]); d[q > 0] += 1
        m = min(dims, key=lambda t: (dims[t][0] * dims[t][1] - dims[t][0] - dims[t][1], repr(t)))
        up = [x for x in cs if x[0].get(m, 0) > 0]; lo = [x for x in cs if x[0].get(m, 0) < 0]
        rest = [x for x in cs if m not in x[0]]
        for c1, k1, o1 in up:
            for c2, k2, o2 in lo:
                a, b = c1[m], -c2[m]
                c = {}
                for mm, q in c1.items(): c[mm] = c.get(mm, 0) + q * b
                for mm, q in c2.items(): c[mm] = c.get(mm, 0) + q * a
                c, k = _norm(c, k1 * b + k2 * a)
                rest.append((c, k, '<' if '<' in (o1, o2) and (o1 == '<' or o2 == '<') else '<='))
        cs = rest

def _ikey(p, signed):
    if not p.t or set(p.t) == {()}:
        c = p.t.get((), 0)
        if signed and c >= 1 << (p.w - 1): c -= 1 << p.w
        return None, Fraction(c)
    return ('s' if signed else 'u', p.id), Fraction(0)

def _idiff(a, b, signed):
    c = {}
    ka, ca = _ikey(a, signed); kb, cb = _ikey(b, signed)
    if ka is not None: c[ka] = c.get(ka, 0) + Fraction(1)
    if kb is not None: c[kb] = c.get(kb, 0) - Fraction(1)
    return _norm(c, ca - cb)

def _irange(a, signed):
    k, c = _ikey(a, signed)
    if k is None: return []
    lo, hi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if signed else (0, (1 << a.w) - 1)
    return [Cons({k: Fraction(-1)}, Fraction(lo), '<='), Cons({k: Fraction(1)}, Fraction(-hi), '<=')]

def _split_ieq(p):
    """p == 0 as A == B with A, B single atoms / constants"""
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t.items()
        M = 1 << p.w
        def mono(m): return D.IP(p.w, {m: 1})
        if m1 == (): m1, c1, m2, c2 = m2, c2, m1, c1
        if m2 == ():
            if c1 == 1: return mono(m1), D.ic(p.w, -c2)
            if c1 == M - 1: return mono(m1), D.ic(p.w, c2)
            return None
        if (c1 + c2) % M == 0 and c1 in (1, M - 1): return mono(m1), mono(m2)
    elif len(p.t) == 1:
        (m, c), = p.t.items()
        if c in (1, (1 << p.w) - 1): return D.IP(p.w, {m: 1}), D.ic(p.w, 0)
    return None

def _swapped(a, b):
    A, B = D.ia(D.atom('bswap', (a,), a.w), a.w), D.ia(D.atom('bswap', (b,), b.w), b.w)
    return _idiff(A, B, False)

def cons_of(v, val):
    r, n = _cons_of(v, val)
    ab = None
    if v.kind == 'ieq0':
        ab = _split_ieq(v.args[0])
        if ab and (ab[0]._const is not None or ab[1]._const is not None or ab[0].w < 16): ab = None
    elif v.kind == 'eq0':
        d = v.args[0]
        if len(d.t) == 2 and () not in d.t:
            (m1, c1), (m2, c2) = d.t.items()
            if c1 == -c2 and abs(c1) == 1:
                ab = tuple(D.ia(D.atom('bits', (P({m: Fraction(1)}),), 32), 32) for m in (m1, m2))
    if ab:      # equality is also equality of the byte-swapped words
        c, q = _swapped(*ab)
        if val: r = r + [Cons(c, q, '=')]
        else: n = n + [(Cons(c, q + 1, '<='), Cons({m: -x for m, x in c.items()}, 1 - q, '<='))]
    return r, n

def _cons_of(v, val):
    """list of constraints, list of disequalities [(consA, consB)]"""
    k = v.kind
    if k == 'lt0':
        c, q = _lin(v.args[0])
        return ([Cons(c, q, '<')] if val else [Cons({m: -x for m, x in c.items()}, -q, '<=')]), []
    if k == 'eq0':
        c, q = _lin(v.args[0])
        if val: return [Cons(c, q, '=')], []
        return [], [(Cons(c, q, '<'), Cons({m: -x for m, x in c.items()}, -q, '<'))]
    if k in ('slt', 'ult'):
        s = k == 'slt'
        a, b = v.args
        c, q = _idiff(a, b, s)
        r = _irange(a, s) + _irange(b, s)
        return ([Cons(c, q + 1, '<=')] if val else [Cons({m: -x for m, x in c.items()}, -q, '<=')]) + r, []
    if k == 'ieq0':
        ab = _split_ieq(v.args[0])
        if ab is None: return [], []
        a, b = ab
        if val:
            out = []
            for s in (True, False):
                c, q = _idiff(a, b, s); out.append(Cons(c, q, '='))
            return out, []
        out = []
        for s in (True, False):
            c, q = _idiff(a, b, s)
            out.append((Cons(c, q + 1, '<='), Cons({m: -x for m, x in c.items()}, 1 - q, '<=')))
        return [], out
    return [], []

def empty(cons, nes):
    if infeasible(cons): return True
    if not nes: return False
    # only disequalities whose dimensions occur elsewhere can matter
    dims = set()
    for x in cons: dims |= set(x.c)
    rel = [n for n in nes if set(n[0].c) and set(n[0].c) <= dims]
    for i, n in enumerate(rel[:6]):
        if all(infeasible(cons + [h]) for h in n): return True
    if 2 <= len(rel) <= 4:
        def go(i, cs):
            if infeasible(cs): return True
            if i == len(rel): return False
            return go(i + 1, cs + [rel[i][0]]) and go(i + 1, cs + [rel[i][1]])
        return go(0, cons)
    return False

def equal_refined(a, b, assume=None, limit=4000):
    cnt = [0]
    def subst_zero(d, zeros):
        if not zeros: return d
        t = {}
        for m, c in d.t.items():
            if any(x in zeros and e > 0 for x, e in m): continue
            t[m] = c
        return P(t)
    def walk(x, y, asm, cons, nes, zeros, eqs):
        cnt[0] += 1
        if cnt[0] > limit: raise Unsupported('refinement budget')
        if x is y: return True
        if asm is D.FALSE: return True
        top = None
        for z in (asm, x, y):
            if z is not None and z.leaf is None and (top is None or z.v < top): top = z.v
        if top is None:
            lx, ly = x.leaf, y.leaf
            if isinstance(lx, Poly) and isinstance(ly, Poly):
                d = p_sub(lx, ly)
                if D.is_zero_field(d) or D._near(lx, ly): return True
                d2 = subst_zero(d, zeros)
                if d2 is P0 or D.is_zero_field(d2): return True
                if empty(cons, nes) or is_zero(d2, cons, nes): return True
                if eqs:
                    d3 = D.p_rebuild(d2, eqs)
                    if D.is_zero_field(d3) or is_zero(d3, cons, nes): return True
                    try:
                        if deep_cases(d2, cons, nes, [0]): return True
                    except Unsupported: pass
                    d2 = d3
                if all(empty(cons + cs, nes) or is_zero(d2, cons + cs, nes) for cs in max_cases(cons, d2)): return True
                r = deep_cases(d2, cons, nes, [0])
                if DEBUG and not r: print('FAIL', D.short(d2, 800), [(str(c.c)[:100], c.k, c.op) for c in cons], len(nes))
                return r
            if isinstance(lx, IPoly) and isinstance(ly, IPoly) and lx.w == ly.w:
                c, q = _idiff(lx, ly, True)
                r = _irange(lx, True) + _irange(ly, True)
                if infeasible(cons + r + [Cons(c, q + 1, '<=')]) and infeasible(cons + r + [Cons({m: -v for m, v in c.items()}, 1 - q, '<=')]): return True
                return empty(cons, nes)
            return empty(cons, nes)
        v = D._varlist[top]
        for val in (True, False):
            def co(z):
                if z is None or z.leaf is not None or z.v != top: return z
                return z.hi if val else z.lo
            cs, ns = cons_of(v, val)
            c2 = cons + cs
            if cs and infeasible(c2): continue
            z2 = zeros
            if v.kind == 'eq0' and val and len(v.args[0].t) == 1:
                (m, c), = v.args[0].t.items()
                if len(m) == 1: z2 = zeros | {m[0][0]}
            e2 = eqs
            if v.kind == 'eq0' and val:
                q = D.p_rebuild(v.args[0], eqs) if eqs else v.args[0]
                s = D.solve_linear(q)
                if s:
                    e2 = {a: D.p_rebuild(b, {s[0]: s[1]}) for a, b in eqs.items()}
                    e2[s[0]] = s[1]
            if not walk(co(x), co(y), co(asm), c2, nes + ns, z2, e2): return False
        return True
    def close(d, cons, nes):
        """congruence: applications of one function to arguments equal on this path are the same"""
        changed = False
        for _ in range(4):
            ats = [A for A in D.deep_atoms(d, None) if len(A.args) in (1, 2) and A.kind != 'in' and all(isinstance(x, Poly) for x in A.args)]
            hit = None
            n = 0
            for i, A in enumerate(ats):
                for B in ats[i + 1:]:
                    if A.kind != B.kind or len(A.args) != len(B.args) or n > 24: continue
                    n += 1
                    if all(x is y or is_zero(p_sub(x, y), cons, nes) for x, y in zip(A.args, B.args)): hit = A, B; break
                if hit: break
            if not hit: break
            d = D.p_rebuild(d, {hit[1].id: D.pa(hit[0])}); changed = True
        return d if changed else None
    def deep_cases(d, cons, nes, n):
        """case split on the max/abs atoms anywhere inside d, substituting the attained argument"""
        A = (D.deep_atoms(d, ('max', 'abs')) or [None])[-1]      # outermost first: inner ones stay comparable with the path condition
        if A is None:
            if D.is_zero_field(d) or is_zero(d, cons, nes): return True
            d = close(d, cons, nes)
            return d is not None and (D.is_zero_field(d) or is_zero(d, cons, nes))
        n[0] += 1
        if n[0] > 60: raise Unsupported('deep case budget')
        alts = sorted(A.args[0], key=lambda x: x.id) if A.kind == 'max' else [A.args[0], p_neg(A.args[0])]
        pm = D.pa(A)
        for a in alts:
            cc, q = _lin(p_sub(pm, a)); base = [Cons(cc, q, '=')]
            for b in alts:
                if b is not a:
                    cc, q = _lin(p_sub(b, a)); base.append(Cons(cc, q, '<='))
                    d0, flip, (m, keep) = D._sgn_canon(p_sub(b, a))
                    if D.p_numval(d0) is None and not D._dropped_zero(m, keep):
                        cc, q = _lin(p_neg(d0) if flip else d0); base.append(Cons(cc, q, '<='))
            c2 = cons + base
            if empty(c2, nes): continue
            # arguments equal to a on this case may stand for it
            same = [a] + [b for b in alts if b is not a and infeasible(c2 + [Cons(*_lin(p_sub(b, a)), '<')])]
            for b in same:
                d2 = D.p_rebuild(d, {A.id: b})
                if D.is_zero_field(d2) or is_zero(d2, c2, nes): break
            else:
                for b in same:
                    if deep_cases(D.p_rebuild(d, {A.id: b}), c2, nes, n): break
                else:
                    s = D.solve_linear(p_sub(same[1], a)) if len(same) > 1 else None
                    if not s or not D.is_zero_field(D.p_rebuild(D.p_rebuild(d, {A.id: a}), {s[0]: s[1]})): return False
        return True
    def is_zero(d, cons, nes):
        c, q = _lin(d)
        lt = Cons(c, q, '<'); gt = Cons({m: -v for m, v in c.items()}, -q, '<')
        return empty(cons + [lt], nes) and empty(cons + [gt], nes)
    def max_atoms(dims):
        out = []
        for m in dims:
            if isinstance(m, tuple) and len(m) == 1 and isinstance(m[0], tuple) and m[0][1] == 1:
                A = D._atomlist[m[0][0]]
                if A.kind in ('max', 'abs'): out.append((m, A))
        return out
    def max_cases(cons, d):
        """case split on which argument attains every max/abs atom in sight"""
        dims = {m for m in d.t if m != ()}
        for x in cons: dims |= set(x.c)
        todo = dict(max_atoms(dims)); done = set(); cases = [[]]
        if not todo: return [[]]
        while todo:
            m = min(todo, key=repr); A = todo.pop(m); done.add(m)
            alts = sorted(A.args[0], key=lambda x: x.id) if A.kind == 'max' else [A.args[0], p_neg(A.args[0])]
            pm = P({m: Fraction(1)}); nc = []
            for a in alts:
                cc, q = _lin(p_sub(pm, a)); base = [Cons(cc, q, '=')]
                for b in alts:
                    if b is not a:
                        cc, q = _lin(p_sub(b, a)); base.append(Cons(cc, q, '<='))
                nc += [c + base for c in cases]
                for k, B in max_atoms(set(a.t) - {()}):
                    if k not in done: todo[k] = B
            cases = nc
            if len(cases) > 24: return [[]]
        return cases
    try: return walk(a, b, assume, [], [], frozenset(), {})
    except Unsupported as e:
        if DEBUG: print('UNSUPPORTED', e)
        return False
