"""Abstract value domain: hash-consed multi-terminal decision diagrams whose
leaves are normal forms of a term algebra.

 * real values  - Laurent polynomials with rational coefficients over atoms
                  (inputs, sqrt/inv/abs/max/libm applications ...)
 * int values   - polynomials mod 2^w over atoms (inputs, conversions, bitwise
                  applications, ...)
 * booleans     - leaves True/False
 * pointers     - leaves (object, byte offset)

Decision variables are canonical sign predicates of polynomials, integer
order/equality predicates or boolean inputs.  Two values that are equal in the
theory (ring axioms + congruence + piecewise definitions) get the *same* node,
so value equality is decided by node identity (global value numbering).
"""
from fractions import Fraction
import math, struct
from functools import lru_cache

class Unsupported(Exception):
    pass

MAXTERMS = 6000
MULCAP = None            # products with more terms than this stay unexpanded (per property)
MAXNODES = 30000

# --------------------------------------------------------------------------
# atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'w', 'nonneg', 'pos', 'sq')
    def __repr__(self):
        return atom_str(self)

_atoms = {}
_atomlist = []

def atom(kind, args=(), w=None):
    k = (kind, args, w)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_atomlist)
        a.kind, a.args, a.w = kind, args, w
        a.nonneg = kind in ('abs', 'sqrt', 'exp', 'exp2', 'pi')
        a.pos = kind in ('exp', 'exp2', 'pi')
        a.sq = None
        if kind == 'sqrt':
            a.sq = args[0]
        _atoms[k] = a
        _atomlist.append(a)
    return a

def atom_str(a):
    if a.kind == 'in':
        return a.args[0] if len(a.args) == 1 else a.args[0] + "'"
    if a.kind == 'pi':
        return 'pi'
    return '%s(%s)' % (a.kind, ', '.join(short(x) if isinstance(x, (Poly, IPoly, Node)) else str(x) for x in a.args))

# --------------------------------------------------------------------------
# real polynomials
class Poly:
    __slots__ = ('t', 'id', '_const')
    def __repr__(self):
        return poly_str(self)

_polys = {}

ROUND = False           # per obligation: roots and powers of constants are numbers, rounded to double precision (comparison needs a tolerance)
def _round(c): return c if c.denominator.bit_length() < 64 and c.numerator.bit_length() < 128 else Fraction(float(c))
def P(terms):
    if ROUND: terms = {m: _round(c) for m, c in terms.items()}
    key = tuple(sorted(terms.items()))
    p = _polys.get(key)
    if p is None:
        if len(key) > MAXTERMS:
            raise Unsupported('polynomial too large')
        p = Poly()
        p.t = dict(key)
        p.id = len(_polys)
        if not key:
            p._const = Fraction(0)
        elif len(key) == 1 and key[0][0] == ():
            p._const = key[0][1]
        else:
            p._const = None
        _polys[key] = p
    return p

def poly_str(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t.items():
        s = '*'.join(atom_str(_atomlist[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s:
            out.append(str(c) if c.denominator < 10**6 else '%.9g' % float(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append((str(c) if c.denominator < 10**6 else '%.9g' % float(c)) + '*' + s)
    return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]

def pc(c):
    c = Fraction(c)
    return P({(): c}) if c else P({})

P0 = P({})
P1 = pc(1)

def pa(a, e=1):
    return P({((a.id, e),): Fraction(1)})

def p_add(a, b):
    if not a.t: return b
    if not b.t: return a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n: t[m] = n
        else: t.pop(m, None)
    return P(t)

def p_neg(a):
    return P({m: -c for m, c in a.t.items()})

def p_sub(a, b):
    return p_add(a, p_neg(b))

def p_scale(a, k):
    k = Fraction(k)
    if not k: return P0
    return P({m: c * k for m, c in a.t.items()})

def _mono_mul(m1, m2):
    """returns (mono, needs_reduction)"""
    if not m1: return m2, False
    if not m2: return m1, False
    d = dict(m1)
    red = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n: d[a] = n
        else: d.pop(a, None)
        if n not in (0, 1) and _atomlist[a].sq is not None:
            red = True
    return tuple(sorted(d.items())), red

def _reduce_mono(m):
    """reduce exponents of atoms with a square rule into {0,1}; returns Poly"""
    base = []
    extra = P1
    for a, e in m:
        at = _atomlist[a]
        if at.sq is not None and e not in (0, 1):
            q, r = divmod(e, 2)
            if r: base.append((a, 1))
            extra = p_mul(extra, p_ipow(at.sq, q))
        else:
            base.append((a, e))
    return p_mul(P({tuple(base): Fraction(1)}), extra)

def p_mul(a, b):
    if a is P0 or b is P0: return P0
    if a._const is not None: return p_scale(b, a._const)
    if b._const is not None: return p_scale(a, b._const)
    if len(a.t) == 1 and len(b.t) > 1:
        a, b = b, a
    if len(b.t) == 1 and len(a.t) > 1:
        # cancel inv(Q) against Q
        (m, c), = b.t.items()
        for at, e in m:
            A = _atomlist[at]
            if A.kind == 'inv' and e > 0:
                Q = A.args[0]
                if len(Q.t) == len(a.t):
                    k = p_ratio(a, Q)
                    if k is not None:
                        d = dict(m)
                        if e == 1: d.pop(at)
                        else: d[at] = e - 1
                        return P({tuple(sorted(d.items())): c * k})
    if MULCAP and len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > MULCAP:
        # too large to expand: keep the product as a congruence term
        return pa(atom('prod', tuple(sorted((a, b), key=lambda x: x.id))))
    if len(a.t) * len(b.t) > 400000:
        raise Unsupported('polynomial product too large')
    t = {}
    slow = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, red = _mono_mul(m1, m2)
            c = c1 * c2
            if red:
                r = p_scale(_reduce_mono(m), c)
                slow = r if slow is None else p_add(slow, r)
            else:
                n = t.get(m, 0) + c
                if n: t[m] = n
                else: t.pop(m, None)
    r = P(t)
    return r if slow is None else p_add(r, slow)

def p_ratio(a, b):
    """constant k with a == k*b, or None"""
    if len(a.t) != len(b.t) or not b.t: return None
    m, c = next(iter(b.t.items()))
    if m not in a.t: return None
    k = a.t[m] / c
    for m, c in b.t.items():
        if a.t.get(m) != k * c: return None
    return k

def p_ipow(a, n):
    if n < 0:
        return p_ipow(p_inv(a), -n)
    r = P1
    while n:
        if n & 1: r = p_mul(r, a)
        n >>= 1
        if n: a = p_mul(a, a)
    return r

def p_content(a):
    """monomial gcd (Laurent) of all terms: (mono, rest)"""
    it = iter(a.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for k in list(g):
            e = d.get(k, 0)
            if (e > 0) == (g[k] > 0) and e:
                g[k] = min(g[k], e) if e > 0 else max(g[k], e)
            else:
                del g[k]
        # negative exponents present only in some terms are left alone
        if not g: break
    if not g: return (), a
    gm = tuple(sorted(g.items()))
    inv = tuple((k, -e) for k, e in gm)
    t = {}
    for m, c in a.t.items():
        d = dict(m)
        for k, e in inv:
            n = d.get(k, 0) + e
            if n: d[k] = n
            else: d.pop(k)
        t[tuple(sorted(d.items()))] = c
    return gm, P(t)

def lead(a):
    """deterministic leading coefficient"""
    if a._const is not None: return a._const
    m = max(a.t, key=lambda m: (len(m), m))
    return a.t[m]

def p_inv(a):
    if a is P0:
        return pa(atom('inv', (P0,)))
    if a._const is not None:
        return pc(1 / a._const)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        r = pc(1 / c)
        for k, e in m:
            A = _atomlist[k]
            if A.kind == 'inv':
                r = p_mul(r, p_ipow(A.args[0], e))
            elif A.sq is not None:      # 1/s = s/sq
                r = p_mul(r, p_mul(p_ipow(pa(A), e), p_ipow(p_inv(A.sq), e)))
            else:
                r = p_mul(r, P({((k, -e),): Fraction(1)}))
        return r
    m, rest = p_content(a)
    l = lead(rest)
    monic = p_scale(rest, 1 / l)
    if len(rest.t) > 1:
        r = p_scale(pa(atom('inv', (monic,))), 1 / l)
    else:
        return p_inv(a)
    if m:
        r = p_mul(r, p_inv(P({m: Fraction(1)})))
    return r

def p_div(a, b):
    k = p_ratio(a, b) if b._const is None else None
    if k is not None:
        return pc(k)
    return p_mul(a, p_inv(b))

def atom_nonneg(A):
    return A.nonneg or A.pos

def mono_sign_known(m):
    """True if the monomial is known to be >= 0"""
    for a, e in m:
        if e % 2 and not atom_nonneg(_atomlist[a]) and not (_atomlist[a].kind == 'inv' and p_nonneg(_atomlist[a].args[0])):
            return False
    return True

def p_nonneg(p):
    return all(c > 0 and mono_sign_known(m) for m, c in p.t.items())

def _isqrt_frac(c):
    if c < 0: return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None

def p_abs(a):
    if a._const is not None: return pc(abs(a._const))
    m, rest = p_content(a)
    r = P1
    if m:
        for k, e in m:
            A = _atomlist[k]
            if e % 2 == 0 or atom_nonneg(A):
                r = p_mul(r, P({((k, e),): Fraction(1)}))
            else:
                if A.kind == 'inv':
                    r = p_mul(r, p_inv(p_ipow(p_abs(A.args[0]), e)))
                else:
                    b = pa(atom('abs', (pa(A),)))
                    r = p_mul(r, p_ipow(b, e))
    if rest._const is not None:
        return p_scale(r, abs(rest._const))
    if p_nonneg(rest): return p_mul(r, rest)
    if p_nonneg(p_neg(rest)): return p_mul(r, p_neg(rest))
    l = lead(rest)
    monic = p_scale(rest, 1 / l)
    return p_scale(p_mul(r, pa(atom('abs', (monic,)))), abs(l))

def p_sqrt(a):
    if a._const is not None:
        s = _isqrt_frac(a._const)
        if s is not None: return pc(s)
        c = a._const
        if ROUND and c > 0: return pc(Fraction(math.sqrt(c)))
        # pull square factors so that equal constants have equal forms
        n, d = c.numerator, c.denominator
        k = n * d
        sq = 1
        f = 2
        while f * f <= k and f < 2000:
            while k % (f * f) == 0:
                k //= f * f
                sq *= f
            f += 1
        return p_scale(pa(atom('sqrt', (pc(k),))), Fraction(sq, d))
    m, rest = p_content(a)
    out = P1
    inside = []
    for k, e in m:
        q, r = divmod(e, 2)
        if q:
            base = pa(_atomlist[k]) if _atomlist[k].kind != 'inv' else pa(_atomlist[k])
            out = p_mul(out, p_abs(p_ipow(base, q) if q > 0 else p_ipow(p_inv(base), -q)))
        if r:
            inside.append((k, 1))
    rest = p_mul(rest, P({tuple(sorted(inside)): Fraction(1)})) if inside else rest
    if rest._const is not None:
        return p_mul(out, p_sqrt(rest))
    l = abs(lead(rest))
    # perfect square of a two..n-term polynomial
    r = p_perfect_sqrt(rest)
    if r is not None:
        return p_mul(out, p_abs(r))
    s = p_sqrt(pc(l))
    monic = p_scale(rest, 1 / l)
    return p_mul(p_mul(out, s), pa(atom('sqrt', (monic,))))

def p_perfect_sqrt(p):
    n = len(p.t)
    if n < 3 or n > 40: return None
    # order monomials; leading term must be a square
    allat = sorted({a for m in p.t for a, _ in m})
    def vec(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in allat)
    ms = sorted(p.t, key=vec, reverse=True)
    m0 = ms[0]
    if any(e % 2 for _, e in m0) or any(e < 0 for m in ms for _, e in m): return None
    c0 = _isqrt_frac(p.t[m0])
    if c0 is None: return None
    r = P({tuple((a, e // 2) for a, e in m0): c0})
    l0 = tuple((a, -(e // 2)) for a, e in m0)
    for _ in range(8):
        d = p_sub(p, p_mul(r, r))
        if d is P0: return r
        mm = max(d.t, key=vec)
        q, _r = _mono_mul(mm, l0)
        if any(e < 0 for _, e in q): return None
        t = P({q: d.t[mm] / (2 * c0)})
        r = p_add(r, t)
    return None

def p_zero_by_clearing(p, depth=0):
    """decide p == 0 after clearing inverse atoms (fraction-field identity)"""
    if p is P0: return True
    if depth > 12: return False
    # find inverse atoms / negative exponents
    worst = {}
    for m in p.t:
        for a, e in m:
            A = _atomlist[a]
            if A.kind == 'inv': worst[a] = max(worst.get(a, 0), e)
            elif e < 0: worst[a] = max(worst.get(a, 0), -e)
    if not worst: return False
    # clear the most recent atom first (it can contain older ones)
    a = max(worst)
    A = _atomlist[a]
    k = worst[a]
    if A.kind == 'inv':
        Q = A.args[0]
        acc = P0
        powers = [P1]
        for _ in range(k): powers.append(p_mul(powers[-1], Q))
        groups = {}
        for m, c in p.t.items():
            d = dict(m); e = d.pop(a, 0)
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
        for e, t in groups.items():
            acc = p_add(acc, p_mul(P(t), powers[k - e]))
    else:
        acc = p_mul(p, P({((a, k),): Fraction(1)}))
    return p_zero_by_clearing(acc, depth + 1)

# --------------------------------------------------------------------------
# integer polynomials mod 2^w
class IPoly:
    __slots__ = ('w', 't', 'id', '_const')
    def __repr__(self): return ipoly_str(self)

_ipolys = {}

def IP(w, terms):
    mask = (1 << w) - 1
    key = (w, tuple(sorted((m, c & mask) for m, c in terms.items() if c & mask)))
    p = _ipolys.get(key)
    if p is None:
        if len(key[1]) > MAXTERMS: raise Unsupported('int polynomial too large')
        p = IPoly()
        p.w = w
        p.t = dict(key[1])
        p.id = len(_ipolys)
        p._const = 0 if not p.t else (p.t[()] if len(p.t) == 1 and () in p.t else None)
        _ipolys[key] = p
    return p

def ipoly_str(p):
    if not p.t: return '0'
    h = 1 << (p.w - 1)
    out = []
    for m, c in p.t.items():
        if c >= h: c -= 1 << p.w
        s = '*'.join(atom_str(_atomlist[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
        out.append(s if (c == 1 and s) else ('-' + s if c == -1 and s else (str(c) + ('*' + s if s else ''))))
    return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]

def ic(w, c): return IP(w, {(): c})
def ia(a, w): return IP(w, {((a.id, 1),): 1})
def i_add(a, b):
    t = dict(a.t)
    for m, c in b.t.items(): t[m] = t.get(m, 0) + c
    return IP(a.w, t)
def i_neg(a): return IP(a.w, {m: -c for m, c in a.t.items()})
def i_sub(a, b): return i_add(a, i_neg(b))
def i_mul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, _ = _mono_mul(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return IP(a.w, t)

def i_signed(p):
    c = p._const
    return c - (1 << p.w) if c >> (p.w - 1) else c

def i_single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atomlist[m[0][0]]
    return None

def atom_bits(A):
    """number of low bits that can be non-zero"""
    if A.kind == 'zext': return A.args[0].w if not hasattr(A.args[0], 't') else i_bits(A.args[0])
    if A.kind == 'trunc' and hasattr(A.args[0], 'w') and A.w: return min(A.w, i_bits(A.args[0]))
    if A.kind == 'lshr' and isinstance(A.args[1], int): return max(1, i_bits(A.args[0]) - A.args[1])
    return A.w

def i_pieces(p):
    """disjoint bit pieces [(shift, atom-or-const, nbits)] if p is a sum of
    power-of-two multiples of single atoms with disjoint bit ranges, else None"""
    out = []
    used = 0
    const = p.t.get((), 0)
    for m, c in p.t.items():
        if m == (): continue
        if len(m) != 1 or m[0][1] != 1: return None
        A = _atomlist[m[0][0]]
        if bin(c).count('1') > 8: return None
        while c:
            k = (c & -c).bit_length() - 1
            c &= c - 1
            n = min(atom_bits(A), p.w - k)
            mask = ((1 << n) - 1) << k
            if used & mask: return None
            used |= mask
            out.append((k, A, n))
    if const & used: return None
    return out, const, used

def i_bits(p):
    pc_ = i_pieces(p)
    if pc_ is None: return p.w
    out, const, used = pc_
    return max(1, (used | const).bit_length())

def i_resize(p, w, signed=False):
    """zext/sext/trunc"""
    if w == p.w: return p
    if p._const is not None:
        return ic(w, i_signed(p) if signed else p._const)
    if w < p.w:
        t = {}
        acc = IP(w, {})
        for m, c in p.t.items():
            q = ic(w, c)
            if q._const == 0: continue
            for a, e in m:
                f = atom_trunc(_atomlist[a], w)
                for _ in range(e): q = i_mul(q, f)
            acc = i_add(acc, q)
        return acc
    if not signed:
        pcs = i_pieces(p)
        if pcs is not None:
            out, const, used = pcs
            ok = True
            r = ic(w, const)
            for k, A, n in out:
                if n < atom_bits(A): ok = False; break
                if A.kind == 'zext' and k + n <= p.w:
                    r = i_add(r, IP(w, {((atom('zext', A.args, w).id, 1),): 1 << k}))
                else:
                    r = i_add(r, IP(w, {((atom('zext', (ia(A, A.w),), w).id, 1),): 1 << k}))
            if ok and len(out) >= 1: return r
        return ia(atom('zext', (p,), w), w)
    A = i_single_atom(p)
    if A is not None and A.kind == 'zext' and i_bits(p) < p.w:
        return i_resize(p, w, False)
    return ia(atom('sext', (p,), w), w)

def atom_trunc(A, w):
    if A.kind in ('zext', 'sext'):
        inner = A.args[0]
        if inner.w >= w: return i_resize(inner, w)
        return i_resize(inner, w, A.kind == 'sext')
    return ia(atom('trunc', (ia(A, A.w),), w), w)

def i_lshr(p, k):
    if p._const is not None: return ic(p.w, p._const >> k)
    if k == 0: return p
    A0 = i_single_atom(p)
    if A0 is not None and A0.kind == 'zext' and hasattr(A0.args[0], 't'):
        X = A0.args[0]
        return ic(p.w, 0) if k >= X.w else i_resize(i_lshr(X, k), p.w)
    pcs = i_pieces(p)
    if pcs is not None:
        out, const, used = pcs
        r = ic(p.w, const >> k)
        ok = True
        for s, A, n in out:
            if s >= k and s + atom_bits(A) <= p.w:
                r = i_add(r, IP(p.w, {((A.id, 1),): 1 << (s - k)}))
            elif s + n <= k:
                pass
            elif s < k and p.w == A.w and s + atom_bits(A) <= p.w and len(out) > 1:
                r = i_add(r, i_lshr(ia(A, A.w), k - s))
            else:
                ok = False; break
        if ok: return r
    if p.w == 64 and k == 32:
        # p = 2^32*H + L with L a zero-extended 32-bit value
        H = {}; L = {}
        for m, c in p.t.items():
            if c % (1 << 32) == 0: H[m] = c >> 32
            else: L[m] = c
        L = IP(64, L)
        if H and i_bits(L) <= 32:
            return i_resize(i_resize(IP(64, H), 32), 64)
    return ia(atom('lshr', (p, k), p.w), p.w)

def halves(p):
    """64-bit value as (low, high) 32-bit values if it is a concatenation"""
    if p.w != 64: return None
    if p._const is not None: return ic(32, p._const), ic(32, p._const >> 32)
    pcs = i_pieces(p)
    if pcs is None: return None
    out, const, used = pcs
    lo = {}; hi = {}
    for s, A, n in out:
        if s + n <= 32: lo[((A.id, 1),)] = 1 << s
        elif s >= 32: hi[((A.id, 1),)] = 1 << (s - 32)
        else: return None
    lo[()] = const; hi[()] = const >> 32
    def narrow(t):
        return i_resize(IP(64, t), 32)
    return narrow(lo), narrow({k: v for k, v in hi.items()})

def concat(lo, hi):
    if isinstance(lo, Node) or isinstance(hi, Node):
        lo = lo if isinstance(lo, Node) else leaf(lo); hi = hi if isinstance(hi, Node) else leaf(hi)
        return iadd(ires(lo, 64), imul(ires(hi, 64), leaf(ic(64, 1 << 32))))
    return i_add(i_resize(lo, 64), i_mul(i_resize(hi, 64), ic(64, 1 << 32)))

def _halfwise(f, a, b):
    if a.w != 64 or a._const is not None and b._const is not None: return None
    x, y = halves(a), halves(b)
    if x is None or y is None: return None
    return concat(f(x[0], y[0]), f(x[1], y[1]))

def i_and(a, b):
    if a is b: return a
    if a.w == 64:
        for x, y in ((a, b), (b, a)):
            if y._const is not None and x._const is None and i_pieces(x) is None:
                if y._const == 0xffffffff: return i_resize(i_resize(x, 32), 64)
                if y._const == 0xffffffff00000000: return i_sub(x, i_resize(i_resize(x, 32), 64))
        r = _halfwise(i_and, a, b)
        if r is not None: return r
    if a._const is not None: a, b = b, a
    if b._const is not None:
        c = b._const
        if c == 0: return b
        if c == (1 << a.w) - 1: return a
        if a._const is not None: return ic(a.w, a._const & c)
        A = i_single_atom(a)
        if c == 1 << (a.w - 1): return ite(_islt0(a), leaf(ic(a.w, c)), leaf(ic(a.w, 0)))
        if A is not None and A.kind == 'lshr' and isinstance(A.args[1], int) and c == 1 << (a.w - 1 - A.args[1]):
            return ite(_islt0(A.args[0]), leaf(ic(a.w, c)), leaf(ic(a.w, 0)))
        if A is not None and A.kind == 'bits':
            f = A.args[0]
            if a.w == 32 and c == 0x7fffffff: return ia(atom('bits', (p_abs(f),), 32), 32)
        low = ((1 << a.w) - c) & ((1 << a.w) - 1)
        if low & (low - 1) == 0 and low > 1:      # c == -2^k
            k = low.bit_length() - 1
            H = {m: q for m, q in a.t.items() if q % low == 0}
            L = IP(a.w, {m: q for m, q in a.t.items() if q % low})
            if i_bits(L) <= k: return IP(a.w, H)
        pcs = i_pieces(a)
        if pcs is not None:
            out, const, used = pcs
            r = ic(a.w, const & c)
            ok = True
            for s, Q, n in out:
                m = ((1 << n) - 1) << s
                if c & m == m: r = i_add(r, IP(a.w, {((Q.id, 1),): 1 << s}))
                elif c & m == 0: pass
                else: ok = False; break
            if ok: return r
    parts = set()
    for x in (a, b):
        X = i_single_atom(x)
        if X is not None and X.kind == 'and': parts |= set(X.args[0])
        else: parts.add(x)
    return ia(atom('and', (frozenset(parts),), a.w), a.w)

def i_not(a): return i_sub(ic(a.w, -1), a)

def i_or(a, b):
    if a is b: return a
    if a.w == 64:
        r = _halfwise(i_or, a, b)
        if r is not None: return r
        # (multiple of 2^32) | (zero-extended 32-bit value)
        for x, y in ((a, b), (b, a)):
            if i_bits(x) <= 32 and i_resize(y, 32)._const == 0: return i_add(x, y)
    if a._const is not None: a, b = b, a
    if b._const is not None:
        c = b._const
        if c == 0: return a
        if c == (1 << a.w) - 1: return b
        if a._const is not None: return ic(a.w, a._const | c)
        A = i_single_atom(a)
        if A is not None and A.kind == 'bits' and a.w == 32 and c == 0x80000000:
            return ia(atom('bits', (p_neg(p_abs(A.args[0])),), 32), 32)
    pa_, pb_ = i_pieces(a), i_pieces(b)
    if pa_ and pb_ and not ((pa_[2] | pa_[1]) & (pb_[2] | pb_[1])):
        return i_add(a, b)
    parts = set()
    for x in (a, b):
        X = i_single_atom(x)
        if X is not None and X.kind == 'or': parts |= set(X.args[0])
        else: parts.add(x)
    return ia(atom('or', (frozenset(parts),), a.w), a.w)

def i_xor(a, b):
    if a is b: return ic(a.w, 0)
    if a.w == 64:
        r = _halfwise(i_xor, a, b)
        if r is not None: return r
    if a._const is not None: a, b = b, a
    if b._const is not None:
        c = b._const
        if c == 0: return a
        if c == (1 << a.w) - 1: return i_not(a)
        if a._const is not None: return ic(a.w, a._const ^ c)
        if c == 1 << (a.w - 1):
            A = i_single_atom(a)
            if A is not None and A.kind == 'bits':
                return ia(atom('bits', (p_neg(A.args[0]),), a.w), a.w)
            return i_add(a, b)
    parts = frozenset(); const = 0
    for x in (a, b):
        X = i_single_atom(x)
        parts = parts ^ (X.args[0] if X is not None and X.kind == 'xor' else frozenset((x,)))
    for x in parts:
        if x._const is not None: const ^= x._const
    parts = frozenset(x for x in parts if x._const is None)
    if const: parts = parts | {ic(a.w, const)}
    if not parts: return ic(a.w, 0)
    if len(parts) == 1: return next(iter(parts))
    return ia(atom('xor', (parts,), a.w), a.w)

# --------------------------------------------------------------------------
# decision diagrams
class Node:
    __slots__ = ('v', 'hi', 'lo', 'leaf', 'id', 'ty')
    # arithmetic sugar for specifications (real-valued)
    def __add__(a, b): return fadd(a, lift(b))
    def __radd__(a, b): return fadd(lift(b), a)
    def __sub__(a, b): return fsub(a, lift(b))
    def __rsub__(a, b): return fsub(lift(b), a)
    def __mul__(a, b): return fmul(a, lift(b))
    def __rmul__(a, b): return fmul(lift(b), a)
    def __truediv__(a, b): return fdiv(a, lift(b))
    def __rtruediv__(a, b): return fdiv(lift(b), a)
    def __neg__(a): return fneg(a)
    def __lt__(a, b): return flt(a, lift(b))
    def __gt__(a, b): return flt(lift(b), a)
    def __le__(a, b): return bnot(flt(lift(b), a))
    def __ge__(a, b): return bnot(flt(a, lift(b)))
    def __and__(a, b): return band(a, b)
    def __or__(a, b): return bor(a, b)
    def __invert__(a): return bnot(a)
    def __repr__(self): return short(self)
    __hash__ = object.__hash__

_nodes = {}
_nodecount = 0

def leaf(x):
    k = ('L', x if isinstance(x, bool) else id(x) if isinstance(x, (Poly, IPoly)) else x)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.v = None; n.hi = n.lo = None; n.leaf = x
        n.id = len(_nodes)
        _nodes[k] = n
    return n

TRUE, FALSE = leaf(True), leaf(False)

def lift(x):
    if isinstance(x, Node): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)): return leaf(pc(Fraction(x)))
    if isinstance(x, float): return leaf(snap(x))
    raise TypeError(x)

# decision variables -------------------------------------------------------
class Var:
    __slots__ = ('id', 'kind', 'args', 'imp')
_vars = {}
_varlist = []
def var(kind, args):
    k = (kind, args)
    v = _vars.get(k)
    if v is None:
        v = Var()
        v.id = len(_varlist); v.kind = kind; v.args = args; v.imp = {}
        _vars[k] = v
        _varlist.append(v)
    return v

def var_str(v):
    if v.kind == 'lt0': return '%s < 0' % short(v.args[0])
    if v.kind == 'eq0': return '%s == 0' % short(v.args[0])
    if v.kind == 'in': return v.args[0]
    return '%s(%s)' % (v.kind, ', '.join(map(str, v.args)))

def _restrict(n, vid, val, memo):
    if n.leaf is not None or n.v > vid: return n
    r = memo.get(n)
    if r is None:
        if n.v == vid: r = n.hi if val else n.lo
        else: r = _mk(n.v, _restrict(n.hi, vid, val, memo), _restrict(n.lo, vid, val, memo))
        memo[n] = r
    return r

def _mk(vid, hi, lo):
    if hi is lo: return hi
    a, b = hi.leaf, lo.leaf
    if a.__class__ is Poly and b.__class__ is Poly:
        # (x == y ? x : y) is y
        v = _varlist[vid]
        if v.kind == 'eq0' and p_ratio(p_sub(a, b), v.args[0]) is not None: return lo
    k = (vid, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.v = vid; n.hi = hi; n.lo = lo; n.leaf = None
        n.id = len(_nodes)
        _nodes[k] = n
    return n

def mk(vid, hi, lo):
    imp = _varlist[vid].imp
    if imp:
        for o, val in imp.items():      # vid true  => o == val
            if o > vid:
                hi = _restrict(hi, o, val, {})
    if hi is lo: return hi
    return _mk(vid, hi, lo)

def exclusive(a, b):
    a.imp[b.id] = False
    b.imp[a.id] = False

class Budget:
    ops = 0
    limit = 3000000

_apply_memo = {}

def apply(op, *args):
    """leafwise application of op(leafvalues...) -> Node"""
    key = (op,) + tuple(a.id for a in args)
    r = _apply_memo.get(key)
    if r is not None: return r
    Budget.ops += 1
    if Budget.ops > Budget.limit: raise Unsupported('decision diagram budget exceeded')
    top = None
    for a in args:
        if a.leaf is None and (top is None or a.v < top): top = a.v
    if top is None:
        r = op(*[a.leaf for a in args])
        if not isinstance(r, Node): r = leaf(r)
    else:
        h = [a.hi if a.leaf is None and a.v == top else a for a in args]
        l = [a.lo if a.leaf is None and a.v == top else a for a in args]
        imp = _varlist[top].imp
        if imp:
            for o, val in imp.items():
                if o > top: h = [_restrict(x, o, val, {}) for x in h]
        hi = apply(op, *h)
        lo = apply(op, *l)
        # op may itself introduce decision variables -> general ite
        if (hi.leaf is None and hi.v <= top) or (lo.leaf is None and lo.v <= top):
            r = _ite_var(top, hi, lo)
        else:
            r = mk(top, hi, lo)
        r = piecewise_canon(r)
    _apply_memo[key] = r
    return r

def _ite_var(vid, hi, lo):
    c = _mk(vid, TRUE, FALSE)
    return ite(c, hi, lo)

_ite_memo = {}
def _ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None: return r
    Budget.ops += 1
    if Budget.ops > Budget.limit: raise Unsupported('decision diagram budget exceeded')
    top = c.v
    for x in (a, b):
        if x.leaf is None and x.v < top: top = x.v
    def co(x, hi):
        if x.leaf is None and x.v == top: x = x.hi if hi else x.lo
        if hi:
            for o, val in _varlist[top].imp.items():
                if o > top: x = _restrict(x, o, val, {})
        return x
    hi = _ite(co(c, 1), co(a, 1), co(b, 1))
    lo = _ite(co(c, 0), co(a, 0), co(b, 0))
    r = piecewise_canon(mk(top, hi, lo))
    _ite_memo[key] = r
    return r

def _two_leaves(n):
    """the two real-valued leaves of a diagram that has exactly two, else None"""
    seen = set(); ls = []; st = [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if len(seen) > 24: return None
        if x.leaf is not None:
            if x.leaf.__class__ is not Poly: return None
            ls.append(x.leaf)
            if len(ls) > 2: return None
        else: st += [x.hi, x.lo]
    return ls if len(ls) == 2 else None
_mm_memo = {}
def minmax(n):
    """a selection of the smaller (larger) of two values is their minimum (maximum)"""
    if n.leaf is not None: return n
    r = _mm_memo.get(n)
    if r is not None: return r
    r = n
    l = _two_leaves(n)
    if l and not any(deep_atoms(x, ('sqrt',)) for x in l):
        x, y = l; X, Y = leaf(x), leaf(y)
        lt, gt = _lt0(p_sub(x, y)), _lt0(p_sub(y, x))
        for c, a, b, f in ((lt, X, Y, p_min), (gt, Y, X, p_min), (lt, Y, X, p_max), (gt, X, Y, p_max)):
            if _ite(c, a, b) is n: r = leaf(f((x, y))); break
    _mm_memo[n] = r
    return r
def ite(c, a, b): return minmax(_ite(c, a, b))

def piecewise_canon(n):
    """recognise sign-conditional definitions of max/min/abs"""
    if n.leaf is not None or n.hi.leaf is None: return n
    v = _varlist[n.v]
    if not isinstance(n.hi.leaf, Poly): return n
    if v.kind == 'lt0':
        d = v.args[0]
        lo = n.lo
        # lo may test eq0(d): value at tie may be either branch
        if lo.leaf is None:
            v2 = _varlist[lo.v]
            if v2.kind == 'eq0' and v2.args[0] is d and lo.hi.leaf is not None and lo.lo.leaf is not None and isinstance(lo.lo.leaf, Poly):
                x, y, z = n.hi.leaf, lo.lo.leaf, lo.hi.leaf
                if z is x or z is y:
                    k = p_ratio(p_sub(y, x), d)
                    if k is not None: return leaf(_maxmin(x, y, k))
                # value at zero of d when branches agree there: e.g. sign-like; leave
            return n
        x, y = n.hi.leaf, lo.leaf
        if not isinstance(y, Poly): return n
        k = p_ratio(p_sub(y, x), d)
        if k is not None: return leaf(_maxmin(x, y, k))
    elif v.kind == 'eq0' and n.lo.leaf is not None and isinstance(n.lo.leaf, Poly):
        d = v.args[0]
        k = p_ratio(p_sub(n.lo.leaf, n.hi.leaf), d)
        if k is not None: return n.lo
    return n

def _maxmin(x, y, k):
    # d<0 -> x, else y, with y-x = k*d.  k>0: d<0 => y<x => result is max
    return p_max((x, y)) if k > 0 else p_min((x, y))

def _lead_pos(p):
    m = min(p.t)
    return p.t[m] > 0

HUGE = Fraction(2) ** 123
def _huge_sign(p):
    """sign of a polynomial whose constant term exceeds any value that did not overflow"""
    c = p.t.get(())
    if c is None or abs(c) < HUGE or len(p.t) < 2: return None
    i = _infatom().id
    if any(abs(k) * HUGE > abs(c) or any(a == i for a, e in m) for m, k in p.t.items() if m): return None
    return 1 if c > 0 else -1

def p_max(xs):
    s = set()
    for x in xs:
        A = None
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and _atomlist[m[0][0]].kind == 'max':
                s |= _atomlist[m[0][0]].args[0]; continue
        s.add(x)
    consts = [x for x in s if x._const is not None]
    if len(consts) > 1:
        c = max(consts, key=lambda x: x._const)
        s = {x for x in s if x._const is None} | {c}
    if consts and any(x._const is not None and x._const <= 0 for x in s):
        if any(x._const is None and p_nonneg(x) for x in s):
            s = {x for x in s if x._const is None}
    if consts and len(s) > 1:
        c = next(x for x in s if x._const is not None) if any(x._const is not None for x in s) else None
        if c is not None and abs(c._const) >= HUGE:       # the largest float bounds every value that did not overflow
            i = _infatom().id
            if not any(a == i for x in s for m in x.t for a, e in m):
                if c._const > 0: return c
                s = s - {c}; consts = []
    if len(s) == 1: return next(iter(s))
    if len(s) == 2:
        a, b = s
        if p_ratio(a, b) == -1: return p_abs(a)
        if consts:                                     # max(c, min(h, ...)) with c <= h is written min(h, max(c, ...))
            c = consts[0]; o = a if b is c else b
            if len(o.t) == 1:
                (m, k), = o.t.items()
                if k == -1 and len(m) == 1 and m[0][1] == 1 and _atomlist[m[0][0]].kind == 'max':
                    ys = _atomlist[m[0][0]].args[0]
                    h = [y for y in ys if y._const is not None]
                    ys = [y for y in ys if y._const is None]
                    if h and len(ys) == 1 and -h[0]._const >= c._const and not _lead_pos(ys[0]):
                        r = p_max([c, p_neg(ys[0])])
                        return p_neg(p_max([h[0], p_neg(r)]))
    # common positive constant factor
    A = atom('max', (frozenset(s),))
    if any(p_nonneg(x) for x in s): A.nonneg = True
    return pa(A)

def p_min(xs):
    return p_neg(p_max([p_neg(x) for x in xs]))

# --------------------------------------------------------------------------
# comparisons
def p_numval(p):
    """numeric value if p only contains constants (pi, roots and quotients of constants)"""
    if p._const is not None: return p._const
    r = _numval(p)
    if r is None: return None
    v, mass, nested = r
    if nested and abs(v) <= 1e-9 * mass: return None          # too close to call
    return v
def _numval(p):
    if p._const is not None: return float(p._const), abs(float(p._const)), False
    v = mass = 0.0; nested = False
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            A = _atomlist[a]
            if A.kind == 'pi': x *= math.pi ** e
            elif A.kind == 'sqrt' and A.args[0]._const is not None: x *= math.sqrt(A.args[0]._const) ** e
            elif A.kind in ('sqrt', 'inv'):
                r = _numcache.get(A.id, 0)
                if r == 0:
                    r = _numval(A.args[0])
                    if r is not None and (abs(r[0]) <= 1e-9 * r[1] or A.kind == 'sqrt' and r[0] < 0): r = None
                    _numcache[A.id] = r
                if r is None: return None
                x *= (math.sqrt(r[0]) if A.kind == 'sqrt' else 1 / r[0]) ** e; nested = True
            else: return None
        v += x; mass += abs(x)
    return v, mass, nested
_numcache = {}

def _sgn_canon(p):
    """(canonical poly, flipped?)"""
    m, rest = p_content(p)
    keep = []
    for a, e in m:
        A = _atomlist[a]
        if e % 2 == 0: continue
        if atom_nonneg(A): continue
        if A.kind == 'inv' and p_nonneg(A.args[0]): continue
        keep.append((a, e))
    q = p_mul(rest, P({tuple(keep): Fraction(1)})) if keep else rest
    l = lead(q)
    return p_scale(q, 1 / abs(l)) if l > 0 else p_scale(q, -1 / abs(l)), l < 0, (m, keep)

def _dropped_zero(m, keep):
    """atoms removed from the product that could be zero"""
    ks = {a for a, _ in keep}
    return [a for a, e in m if a not in ks and not _atomlist[a].pos and e > 0 and _atomlist[a].kind != 'inv']

def _expand_max(p):
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and _atomlist[m[0][0]].kind in ('max', 'abs'):
            if all(m2 == m or all(a != m[0][0] for a, _ in m2) for m2 in p.t):
                A = _atomlist[m[0][0]]
                alts = list(A.args[0]) if A.kind == 'max' else [A.args[0], p_neg(A.args[0])]
                rest = p_sub(p, P({m: c}))
                return c, alts, rest
    return None

def _lt0(p):
    v = p_numval(p)
    if v is None: v = _inf_sign(p)
    if v is None: v = _huge_sign(p)
    if v is not None: return TRUE if v < 0 else FALSE
    if p_nonneg(p): return FALSE
    ex = _expand_max(p)
    if ex:
        c, alts, rest = ex
        r = None
        for a in sorted(alts, key=lambda x: x.id):
            q = _lt0(p_add(rest, p_scale(a, c)))
            r = q if r is None else (band(r, q) if c > 0 else bor(r, q))
        return r
    d, flip, (m, keep) = _sgn_canon(p)
    v = p_numval(d)
    zero = FALSE
    for a in _dropped_zero(m, keep):
        zero = bor(zero, _eq0(pa(_atomlist[a])))
    if v is not None:
        base = TRUE if (v > 0) == flip and v != 0 else FALSE
    else:
        if p_nonneg(d):      # d >= 0 always
            base = bnot(_eq0(d)) if flip else FALSE
        else:
            lt = var('lt0', (d,)); eq = var('eq0', (d,))
            if eq.id not in lt.imp: exclusive(lt, eq)
            ltn = _mk(lt.id, TRUE, FALSE); eqn = _mk(eq.id, TRUE, FALSE)
            base = bnot(bor(ltn, eqn)) if flip else ltn
    return band(base, bnot(zero))

def _inf_sign(p):
    """sign of a polynomial dominated by a single infinite term (all other atoms finite)"""
    i = _infatom(); k = ((i.id, 1),)
    c = p.t.get(k)
    if c is None: return None
    for m in p.t:
        if m == k: continue
        for a, e in m:
            if a == i.id or i in deep_atoms(pa(_atomlist[a]), None): return None
    return 1 if c > 0 else -1

def _eq0(p):
    v = p_numval(p)
    if v is None: v = _inf_sign(p)
    if v is None: v = _huge_sign(p)
    if v is not None: return TRUE if v == 0 else FALSE
    ex = _expand_max(p)
    if ex:
        c, alts, rest = ex
        qs = [p_add(rest, p_scale(a, c)) for a in sorted(alts, key=lambda x: x.id)]
        if c < 0: qs = [p_neg(q) for q in qs]
        anyz = FALSE; allle = TRUE
        for q in qs:
            anyz = bor(anyz, _eq0(q))
            allle = band(allle, bor(_lt0(q), _eq0(q)))
        return band(anyz, allle)
    if len(p.t) == 1:
        r = FALSE
        (m, c), = p.t.items()
        for a, e in m:
            A = _atomlist[a]
            if e < 0 or A.kind == 'inv' or A.pos: continue
            if A.kind == 'sqrt' : r = bor(r, _eq0(A.args[0])); continue
            lt = var('lt0', (pa(A),)); eq = var('eq0', (pa(A),))
            if eq.id not in lt.imp: exclusive(lt, eq)
            r = bor(r, _mk(eq.id, TRUE, FALSE))
        return r
    # sum of squares of the form a^2+b^2+...: keep as one predicate
    m, rest = p_content(p)
    r = FALSE
    if m:
        r = _eq0(P({m: Fraction(1)}))
    l = lead(rest)
    d = p_scale(rest, 1 / l)
    lt = var('lt0', (d,)); eq = var('eq0', (d,))
    if eq.id not in lt.imp: exclusive(lt, eq)
    return bor(r, _mk(eq.id, TRUE, FALSE))

def _op_flt(a, b): return _lt0(p_sub(a, b))
def _op_feq(a, b): return _eq0(p_sub(a, b))
def flt(a, b): return apply(_op_flt, a, b)
def feq(a, b): return apply(_op_feq, a, b)
def fle(a, b): return bnot(flt(b, a))

def _op_not(a): return not a
def bnot(a): return apply(_op_not, a)
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
_under_memo = {}
def under(n, c):
    """n simplified for a path condition c: branches on which c is impossible are dropped"""
    if n.leaf is not None or c.leaf is not None: return n
    k = (n.id, c.id)
    r = _under_memo.get(k)
    if r is None:
        Budget.ops += 1
        if Budget.ops > Budget.limit: raise Unsupported('decision diagram budget exceeded')
        if c.v < n.v: r = under(n, bor(c.hi, c.lo))
        elif c.v > n.v: r = _mk(n.v, under(n.hi, c), under(n.lo, c))
        elif c.hi is FALSE: r = under(n.lo, c.lo)
        elif c.lo is FALSE: r = under(n.hi, c.hi)
        else: r = _mk(n.v, under(n.hi, c.hi), under(n.lo, c.lo))
        _under_memo[k] = r
    return r
def bxor(a, b): return ite(a, bnot(b), b)
def ball(xs):
    r = TRUE
    for x in xs: r = band(r, x)
    return r
def bany(xs):
    r = FALSE
    for x in xs: r = bor(r, x)
    return r

# real ops on diagrams
def fadd(a, b): return apply(p_add, a, b)
def fsub(a, b): return apply(p_sub, a, b)
def fmul(a, b): return apply(p_mul, a, b)
def fdiv(a, b): return apply(p_div, a, b)
def fneg(a): return apply(p_neg, a)
def fabs_(a): return apply(p_abs, a)
def fsqrt(a): return apply(p_sqrt, a)
def _op_max(a, b): return p_max((a, b))
def _op_min(a, b): return p_min((a, b))
def fmax(a, b): return apply(_op_max, a, b)
def fmin(a, b): return apply(_op_min, a, b)

_ODD = {'asinh', 'atanh', 'cbrt', 'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'trunc', 'round'}
_EVEN = {'cos', 'cosh'}
_fnops = {}
def _fn1(name):
    op = _fnops.get(name)
    if op is None:
        def op(x, name=name):
            if x._const is not None:
                c = x._const
                if name in ('floor', 'ceil', 'trunc'):
                    return pc({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](c))
                if c == 0:
                    if name in _ODD: return P0
                    if name in ('cos', 'exp', 'exp2'): return P1
                if c == 1 and name in ('log', 'log2', 'log10'): return P0
            if name in _ODD or name in _EVEN:
                if x._const is not None: l = x._const
                else: l = lead(x)
                if l < 0:
                    y = pa(atom(name, (p_neg(x),)))
                    return p_neg(y) if name in _ODD else y
            return pa(atom(name, (x,)))
        _fnops[name] = op
    return op
def fn1(name, a):
    if name in ('fabs', 'abs'): return fabs_(a)
    if name == 'sqrt': return fsqrt(a)
    return apply(_fn1(name), a)
def _fn2(name):
    op = _fnops.get((name, 2))
    if op is None:
        def op(x, y, name=name):
            if name == 'pow':
                if y._const is not None:
                    c = y._const
                    if c.denominator == 1 and abs(c) <= 32: return p_ipow(x, int(c))
                    if c == Fraction(1, 2): return p_sqrt(x)
                    if c == Fraction(-1, 2): return p_inv(p_sqrt(x))
                    if ROUND and x._const is not None and x._const > 0: return pc(Fraction(math.pow(x._const, c)))
                if x._const == 2: return pa(atom('exp2', (y,)))
                if x._const == 1: return P1
            return pa(atom(name, (x, y)))
        _fnops[(name, 2)] = op
    return op
def fn2(name, a, b): return apply(_fn2(name), a, b)

# --------------------------------------------------------------------------
# ints on diagrams
def iadd(a, b): return apply(i_add, a, b)
def isub(a, b): return apply(i_sub, a, b)
def imul(a, b): return apply(i_mul, a, b)
def iand(a, b): return apply(i_and, a, b)
def ior(a, b): return apply(i_or, a, b)
def ixor(a, b): return apply(i_xor, a, b)
def _mkresize(w, s):
    k = ('rs', w, s)
    op = _fnops.get(k)
    if op is None:
        def op(p): return i_resize(p, w, s)
        _fnops[k] = op
    return op
def ires(a, w, signed=False): return apply(_mkresize(w, signed), a)

def _divop(kind):
    op = _fnops.get(('div', kind))
    if op is None:
        def op(a, b):
            if a._const is not None and b._const is not None and b._const:
                if kind == 'udiv': return ic(a.w, a._const // b._const)
                if kind == 'urem': return ic(a.w, a._const % b._const)
                x, y = i_signed(a), i_signed(b)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return ic(a.w, q if kind == 'sdiv' else x - q * y)
            if b._const == 1: return a if kind in ('udiv', 'sdiv') else ic(a.w, 0)
            if b._const is not None and b._const and b._const & (b._const - 1) == 0:
                k = b._const.bit_length() - 1
                if kind == 'udiv': return i_lshr(a, k)
                if kind == 'urem': return i_and(a, ic(a.w, b._const - 1))
            return ia(atom(kind, (a, b), a.w), a.w)
        _fnops[('div', kind)] = op
    return op
def idiv(kind, a, b): return apply(_divop(kind), a, b)

def _shop(kind):
    op = _fnops.get(('sh', kind))
    if op is None:
        def op(a, b):
            if b._const is not None:
                k = b._const
                if k >= a.w:
                    return ic(a.w, 0) if kind != 'ashr' else ia(atom('ashr', (a, a.w - 1), a.w), a.w)
                if kind == 'shl': return i_mul(a, ic(a.w, 1 << k))
                if kind == 'lshr':
                    if k == a.w - 1:
                        return ite(_islt0(a), leaf(ic(a.w, 1)), leaf(ic(a.w, 0)))
                    return i_lshr(a, k)
                if a._const is not None: return ic(a.w, i_signed(a) >> k)
                if k == a.w - 1:
                    neg = _islt0(a)
                    return ite(neg, leaf(ic(a.w, -1)), leaf(ic(a.w, 0)))
                if i_bits(a) < a.w: return i_lshr(a, k)
                if k == 0: return a
                return ia(atom('ashr', (a, k), a.w), a.w)
            if a._const == 0: return a
            if kind == 'shl':
                return i_mul(a, ia(atom('pow2', (b,), a.w), a.w))
            return ia(atom(kind, (a, b), a.w), a.w)
        _fnops[('sh', kind)] = op
    return op
def ishift(kind, a, b): return apply(_shop(kind), a, b)

def _islt0(p):
    if p._const is not None: return TRUE if i_signed(p) < 0 else FALSE
    A = i_single_atom(p)
    if A is not None:
        if A.kind == 'bits': return _lt0(A.args[0])
        if A.kind == 'sext': return _islt0(A.args[0])
        if A.kind == 'and':
            r = TRUE
            for x in A.args[0]: r = band(r, _islt0(x))
            return r
        if A.kind == 'or':
            r = FALSE
            for x in A.args[0]: r = bor(r, _islt0(x))
            return r
    if i_bits(p) < p.w: return FALSE
    return _ilt(p, ic(p.w, 0), True)

def _ieq(a, b):
    if a is b: return TRUE
    if a._const is not None and b._const is not None: return FALSE
    if a._const is not None: a, b = b, a
    if b._const is not None:
        A = i_single_atom(a)
        if A is not None and (A.kind == 'and' and b._const == (1 << a.w) - 1 or A.kind == 'or' and b._const == 0):
            r = TRUE
            for x in sorted(A.args[0], key=lambda t: t.id): r = band(r, _ieq(x, b))
            return r
        if A is not None and A.kind == 'xor' and len(A.args[0]) == 2 and b._const == 0:
            x, y = A.args[0]
            return _ieq(x, y)
    A, B = i_single_atom(a), i_single_atom(b)
    if b._const == 0 and A is not None:
        if A.kind == 'or': return ball([_ieq(x, b) for x in sorted(A.args[0], key=lambda x: x.id)])
        if A.kind == 'xor':
            x, y = sorted(A.args[0], key=lambda x: x.id)
            return _ieq(x, y)
        if A.kind == 'zext': return _ieq(A.args[0], ic(A.args[0].w, 0))
        if A.kind == 'sext': return _ieq(A.args[0], ic(A.args[0].w, 0))
    if A is not None and B is not None and A.kind == B.kind and A.kind in ('zext', 'sext') and A.args[0].w == B.args[0].w:
        return _ieq(A.args[0], B.args[0])
    if A is not None and A.kind == 'bits':
        if B is not None and B.kind == 'bits': return _eq0(p_sub(A.args[0], B.args[0]))
        if b._const is not None and b.w == 32:
            return _eq0(p_sub(A.args[0], snap_bits32(b._const)))
    # piecewise concatenations
    pa_, pb_ = i_pieces(a), i_pieces(b)
    if pa_ and pb_ and (len(pa_[0]) > 1 or len(pb_[0]) > 1 or (b._const is not None and A is None)):
        cuts = set()
        for out, const, used in (pa_, pb_):
            for k, Q, n in out: cuts |= {k, k + n}
        cuts = sorted(c for c in cuts if c <= a.w)
        cuts = sorted(set(cuts) | {0, a.w})
        r = TRUE
        ok = True
        for lo, hi in zip(cuts, cuts[1:]):
            xs = []
            for out, const, used in (pa_, pb_):
                cov = [(k, Q, n) for k, Q, n in out if k < hi and k + n > lo]
                if not cov:
                    xs.append(ic(hi - lo, (const >> lo) & ((1 << (hi - lo)) - 1)))
                elif len(cov) == 1 and cov[0][0] == lo and cov[0][2] == hi - lo:
                    Q = cov[0][1]
                    xs.append(i_resize(ia(Q, Q.w), hi - lo) if Q.w != hi - lo else ia(Q, Q.w))
                else:
                    ok = False
            if not ok: break
            x, y = xs
            if x._const is not None and y._const is not None:
                if x is not y: r = FALSE
            else:
                X = i_single_atom(x)
                Y = i_single_atom(y)
                if (X is not None and X.kind == 'zext' and x.w > i_bits(x)):
                    pass
                r = band(r, _ieq_basic(x, y) if (X is not None or x._const is not None) and (Y is not None or y._const is not None) else _ieq_basic(x, y))
        if ok: return r
    return _ieq_basic(a, b)

def _ieq_basic(a, b):
    if a is b: return TRUE
    np_ = narrow_pair(a, b)
    if np_: return _ieq(np_[0], np_[1])
    A, B = i_single_atom(a), i_single_atom(b)
    if A is not None and B is not None and A.kind == B.kind == 'bits':
        return _eq0(p_sub(A.args[0], B.args[0]))
    if A is not None and B is not None and A.kind == B.kind == 'bswap': return _ieq(A.args[0], B.args[0])
    d = i_sub(a, b)
    if d._const is not None: return TRUE if d._const == 0 else FALSE
    n = i_neg(d)
    if n.id < d.id: d = n
    e = var('ieq0', (d,))
    return _mk(e.id, TRUE, FALSE)

def _unscale(x):
    """2^k * zext(X) -> (k, X)"""
    if x._const is not None or len(x.t) != 1: return None
    (m, c), = x.t.items()
    if len(m) != 1 or m[0][1] != 1 or c & (c - 1): return None
    A = _atomlist[m[0][0]]
    if A.kind != 'zext' or not hasattr(A.args[0], 't'): return None
    k = c.bit_length() - 1
    if k + A.args[0].w > x.w: return None
    return k, A.args[0]

def narrow_pair(a, b):
    ua, ub = _unscale(a), _unscale(b)
    if ua and ub:
        if ua[0] == ub[0] and ua[1].w == ub[1].w: return ua[1], ub[1]
    for u, x, sw in ((ua, b, False), (ub, a, True)):
        if u and x._const is not None:
            k, X = u
            c = x._const
            if c % (1 << k) == 0 and (c >> k) < (1 << X.w):
                y = ic(X.w, c >> k)
                return (y, X) if sw else (X, y)
    return None

def _ilt(a, b, signed):
    if a is b: return FALSE
    if not signed:
        np_ = narrow_pair(a, b)
        if np_: return _ilt(np_[0], np_[1], False)
    if a._const is not None and b._const is not None:
        return TRUE if ((i_signed(a) < i_signed(b)) if signed else (a._const < b._const)) else FALSE
    if not signed:
        if a.w == 64:
            if a._const is not None and a._const & 0xffffffff == 0xffffffff:
                h = halves(b)
                if h: return _ilt(ic(32, a._const >> 32), h[1], False)
            if b._const is not None and b._const & 0xffffffff == 0:
                h = halves(a)
                if h: return _ilt(h[1], ic(32, b._const >> 32), False)
        if b._const == 0: return FALSE
        if a._const == (1 << a.w) - 1: return FALSE
        if b._const == 1: return _ieq(a, ic(a.w, 0))
        if a._const == 0: return bnot(_ieq(a, b))
    else:
        # biased comparison: slt(a^MIN, b^MIN) == ult(a,b)
        mn = ic(a.w, 1 << (a.w - 1))
        def biased(x): return x.t.get((), 0) == 1 << (x.w - 1)
        if (biased(a) or a._const is not None) and (biased(b) or b._const is not None) and (biased(a) and a._const is None or biased(b) and b._const is None):
            return _ilt(i_add(a, mn), i_add(b, mn), False)
        if i_bits(a) < a.w and i_bits(b) < b.w and (a._const is None or b._const is None):
            return _ilt(a, b, False)
        if b._const == 0:
            A = i_single_atom(a)
            if A is not None and A.kind == 'bits': return _lt0(A.args[0])
            if a.w == 64:
                h = halves(a)
                if h: return _ilt(h[1], ic(32, 0), True)
        if b._const is not None and i_signed(b) == -1 and False: pass
        if a._const is not None and i_signed(a) == -1:   # -1 < b  <=> !(b < 0)
            return bnot(_ilt(b, ic(b.w, 0), True))
    k = 'slt' if signed else 'ult'
    x, y, flip = (a, b, False) if a.id <= b.id else (b, a, True)
    lt = var(k, (x, y))
    eqn = _ieq_basic(a, b)
    if eqn.leaf is None and eqn.v not in lt.imp and eqn.hi is TRUE and eqn.lo is FALSE:
        exclusive(lt, _varlist[eqn.v])
    ltn = _mk(lt.id, TRUE, FALSE)
    return bnot(bor(ltn, eqn)) if flip else ltn

def _op_ieq(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if a.off == b.off: return TRUE
            return FALSE
        raise Unsupported('pointer comparison')
    return _ieq(a, b)
def ieq(a, b): return apply(_op_ieq, a, b)
def _op_slt(a, b): return _ilt(a, b, True)
def _op_ult(a, b): return _ilt(a, b, False)
def ilt(a, b, signed): return apply(_op_slt if signed else _op_ult, a, b)
def imin(a, b, signed): return icanon_min(a, b, signed)
def icanon_min(a, b, signed): return ite(ilt(a, b, signed), a, b)
def imax(a, b, signed): return ite(ilt(a, b, signed), b, a)

def _op_bswap(p):
    if p._const is not None: return ic(p.w, int.from_bytes(p._const.to_bytes(p.w // 8, 'little'), 'big'))
    if p.w == 8: return p
    A = i_single_atom(p)
    if A is not None and A.kind == 'bswap': return A.args[0]
    return ia(atom('bswap', (p,), p.w), p.w)
def bswap(a): return apply(_op_bswap, a)

# conversions -----------------------------------------------------------------
def _op_f2bits(p):
    if p._const is not None:
        return ic(32, struct.unpack('<I', struct.pack('<f', float(p._const)))[0])
    v = p_numval(p)
    if v is not None: return ic(32, struct.unpack('<I', struct.pack('<f', v))[0])
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _atomlist[m[0][0]].kind == 'fbits':
            return _atomlist[m[0][0]].args[0]
    return ia(atom('bits', (p,), 32), 32)
def i_recombine(p):
    """a 32-bit value put together from the four bytes of one value is that value"""
    if not isinstance(p, IPoly) or p.w != 32 or len(p.t) != 4: return p
    X = None
    for m, c in p.t.items():
        if c not in (1, 1 << 8, 1 << 16, 1 << 24) or len(m) != 1 or m[0][1] != 1: return p
        A = _atomlist[m[0][0]]
        if A.kind != 'zext' or A.args[0].w != 8: return p
        T = i_single_atom(A.args[0])
        if T is None or T.kind != 'trunc': return p
        q = T.args[0]; k = c.bit_length() - 1
        if k:
            L = i_single_atom(q)
            if L is None or L.kind != 'lshr' or L.args[1] != k: return p
            q = L.args[0]
        if X is None: X = q
        elif X is not q: return p
    return X if X.w == 32 else p
def recombine(n): return apply(i_recombine, n)
def _op_bits2f(p):
    p = i_recombine(p)
    if p._const is not None: return snap_bits32(p._const)
    A = i_single_atom(p)
    if A is not None and A.kind == 'bits': return A.args[0]
    return pa(atom('fbits', (p,)))
def f2bits(a): return apply(_op_f2bits, a)
def bits2f(a): return minmax(apply(_op_bits2f, a))

def p_single_atom(p):
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    return _atomlist[m[0][0]] if c == 1 and len(m) == 1 and m[0][1] == 1 else None

def _cv(kind, w=None):
    op = _fnops.get(('cv', kind, w))
    if op is None:
        if kind in ('sitofp', 'uitofp'):
            def op(p):
                if p._const is not None: return pc(i_signed(p) if kind == 'sitofp' else p._const)
                A = i_single_atom(p)
                if A is not None and A.kind == 'fptosi' and kind == 'sitofp': return pa(atom('trunc', (A.args[0],)))
                if A is not None and A.kind == 'fptoui' and kind == 'uitofp': return pa(atom('trunc', (A.args[0],)))
                if A is not None and A.kind == 'sext' and kind == 'sitofp': return op(A.args[0])
                if A is not None and A.kind == 'zext':
                    q = A.args[0]
                    return _cv('uitofp')(q)
                if i_bits(p) < p.w: kk = 'uitofp'
                else: kk = kind
                a = atom(kk, (p,))
                if kk == 'uitofp': a.nonneg = True
                return pa(a)
        else:
            def op(p):
                if p._const is not None: return ic(w, int(math.trunc(p._const)))
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        A = _atomlist[m[0][0]]
                        if A.kind in ('sitofp', 'uitofp') and A.args[0].w <= w:
                            return i_resize(A.args[0], w, A.kind == 'sitofp')
                        if A.kind == 'trunc': p = A.args[0]
                        if A.kind == 'floor' and kind == 'fptoui': p = A.args[0]      # a negative operand is undefined
                        if kind == 'fptoui' and w != 32:
                            A = p_single_atom(p)
                            if A is not None and A.kind in ('log2', 'log2f'): return i_resize(_cv('fptoui', 32)(p), w, False)
                return ia(atom(kind, (p,), w), w)
        _fnops[('cv', kind, w)] = op
    return op
def conv(kind, a, w=None): return apply(_cv(kind, w), a)

# --------------------------------------------------------------------------
# constants
PI = atom('pi')
def simplest(lo, hi):
    """simplest fraction in [lo,hi], positive"""
    fl = lo.numerator // lo.denominator
    if fl == lo: return Fraction(fl)
    if fl + 1 <= hi: return Fraction(fl + 1)
    r = simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r

def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]

@lru_cache(None)
def snap(x, dbl=False):
    """float constant -> polynomial over Q[pi] it denotes"""
    if x == 0: return P0
    if math.isinf(x):
        return pa(_infatom()) if x > 0 else p_neg(pa(_infatom()))
    if math.isnan(x): return pa(atom('nan'))
    if x < 0: return p_neg(snap(-x, dbl))
    fx = Fraction(x)
    if x == int(x) and x < 1e9: return pc(int(x))
    m, e = math.frexp(x)
    if not dbl and f32(x) != x: dbl = True
    ulp = Fraction(2) ** (e - (53 if dbl else 24))
    if fx.denominator <= 64: return pc(fx)
    if x < 1e30 and x > 1e-30:
        s = simplest(fx - ulp / 2, fx + ulp / 2)
        if s.numerator * s.denominator < 4096: return pc(s)
        for mult, ex in ((1 / math.pi, 1), (math.pi, -1)):
            y = Fraction(x * mult)
            u = ulp * Fraction(mult)
            s = simplest(y - u * Fraction(51, 100), y + u * Fraction(51, 100))
            if s.numerator * s.denominator < 1024: return p_scale(pa(PI, ex), s)
    if not dbl:
        import re
        for n in range(1, 12):
            t = '%.*g' % (n, x)
            if f32(float(t)) == x: return pc(Fraction(t))
    else:
        return pc(Fraction(repr(x)))
    return pc(fx)

def _infatom():
    a = atom('inf'); a.nonneg = a.pos = True
    return a

def snap_bits32(b):
    return snap(struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0])

# pointers ------------------------------------------------------------------
class Ptr:
    __slots__ = ('obj', 'off')
    _tab = {}
    def __new__(cls, obj, off):
        k = (obj, off)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls); r.obj = obj; r.off = off
            cls._tab[k] = r
        return r
    def __repr__(self): return '&%s+%d' % (self.obj, self.off)

# inputs --------------------------------------------------------------------
def fin(name, pos=False, nonneg=False, sq=None):
    a = atom('in', (name,))
    if pos: a.pos = a.nonneg = True
    if nonneg: a.nonneg = True
    if sq is not None: a.sq = sq
    return leaf(pa(a))
def iin(name, w): return leaf(ia(atom('in', (name,), w), w))
def bin_(name):
    v = var('in', (name,))
    return _mk(v.id, TRUE, FALSE)
def iconst(w, c): return leaf(ic(w, c))

def short(x, n=400):
    s = node_str(x) if isinstance(x, Node) else (poly_str(x) if isinstance(x, Poly) else ipoly_str(x) if isinstance(x, IPoly) else str(x))
    return s if len(s) <= n else s[:n - 3] + '...'

def node_str(n, depth=0):
    if n.leaf is not None: return str(n.leaf)
    if depth > 6: return '...'
    return '[%s ? %s : %s]' % (var_str(_varlist[n.v]), node_str(n.hi, depth + 1), node_str(n.lo, depth + 1))

def p_rebuild(p, sub, memo=None):
    """deep substitution of atoms (id -> Poly) in a normal form, renormalising on the way up"""
    if memo is None: memo = {}
    r = memo.get(p.id)
    if r is not None: return r
    r = P0
    for m, c in p.t.items():
        x = pc(c)
        for a, e in m:
            b = _atom_rebuild(a, sub, memo)
            x = p_mul(x, p_ipow(b, e) if e > 0 else p_ipow(p_inv(b), -e))
        r = p_add(r, x)
    memo[p.id] = r
    return r
def _atom_rebuild(a, sub, memo):
    if a in sub: return sub[a]
    A = _atomlist[a]
    if A.kind in ('in', 'pi', 'inf', 'nan') or not A.args: return pa(A)
    f = lambda q: p_rebuild(q, sub, memo)
    if A.kind == 'max':
        n = [f(q) for q in A.args[0]]
        return pa(A) if set(n) == set(A.args[0]) else p_max(n)
    if not all(isinstance(q, Poly) for q in A.args): return pa(A)
    n = tuple(f(q) for q in A.args)
    if all(x is y for x, y in zip(n, A.args)): return pa(A)
    if A.kind == 'sqrt': return p_sqrt(n[0])
    if A.kind == 'inv': return p_inv(n[0])
    if A.kind == 'abs': return p_abs(n[0])
    if len(n) == 1: return _fn1(A.kind)(n[0])
    if len(n) == 2: return _fn2(A.kind)(*n)
    return pa(atom(A.kind, n, A.w))
def deep_atoms(p, kinds, out=None, seen=None):
    """atoms of the given kinds anywhere inside a normal form, innermost first"""
    if out is None: out, seen = [], set()
    for m in p.t:
        for a, e in m:
            if a in seen: continue
            seen.add(a)
            A = _atomlist[a]
            for q in (sorted(A.args[0], key=lambda x: x.id) if A.kind == 'max' else A.args):
                if isinstance(q, Poly): deep_atoms(q, kinds, out, seen)
            if kinds is None or A.kind in kinds: out.append(A)
    return out
def solve_linear(p):
    """p == 0 solved for an input atom that occurs only linearly with a constant coefficient"""
    if p is P0: return None
    cm, rest = p_content(p)
    if cm:
        if lead(rest) < 0: rest = p_neg(rest)
        if rest._const is not None or (p_nonneg(rest) and rest.t.get((), 0) > 0):
            zs = [a for a, e in cm if not (_atomlist[a].pos or _atomlist[a].kind == 'inv')]
            if len(zs) == 1 and _atomlist[zs[0]].kind == 'in' and _atomlist[zs[0]].sq is None: return zs[0], P0
    for m, c in sorted(p.t.items(), key=repr):
        if len(m) == 1 and m[0][1] == 1 and _atomlist[m[0][0]].kind == 'in' and _atomlist[m[0][0]].sq is None:
            a = m[0][0]
            rest = {k: v for k, v in p.t.items() if k != m}
            r = P(rest)
            if any(x == a for k in rest for x, e in k) or any(A.id == a for A in deep_atoms(r, ('in',))): continue
            return a, p_scale(r, -1 / c)
    for m, c in sorted(p.t.items(), key=repr):
        if len(m) == 1 and m[0][1] == 2 and _atomlist[m[0][0]].kind == 'in' and _atomlist[m[0][0]].sq is None:
            a = m[0][0]
            r = P({k: v for k, v in p.t.items() if k != m})
            if any(A.id == a for A in deep_atoms(r, ('in',))): continue
            r = p_scale(r, -1 / c)
            A = _atomlist[a]
            F = atom('in', (A.args[0], r.id))
            F.sq, F.pos, F.nonneg = r, A.pos, A.nonneg
            return a, pa(F)
    return None

def _sincos(p):
    """sin(x)^2 rewritten to 1-cos(x)^2"""
    sub = {}
    for A in deep_atoms(p, ('sin',)):
        if any(e >= 2 for m in p.t for a, e in m if a == A.id):
            F = atom('sinr', A.args)
            F.sq = p_sub(P1, p_ipow(_fn1('cos')(A.args[0]), 2))
            sub[A.id] = pa(F)
    return p_rebuild(p, sub) if sub else None
def is_zero_field(p):
    if p is P0 or p_zero_by_clearing(p): return True
    q = _sincos(p)
    return q is not None and (q is P0 or p_zero_by_clearing(q))
COEFTOL = None           # relative difference of coefficients that counts as rounding of constants (per obligation)
def _near(a, b):
    if COEFTOL is not None:
        x, y = _numval(a), _numval(b)           # constants with roots: by value
        if x is not None and y is not None: return abs(x[0] - y[0]) <= COEFTOL * max(x[1], y[1])
    if COEFTOL is None: return False
    m = max([abs(c) for c in a.t.values()] + [abs(c) for c in b.t.values()])
    return all(abs(c) <= COEFTOL * m for c in p_sub(a, b).t.values())

def equal(a, b):
    """normal-form equality of two real/int/bool nodes"""
    if a is b: return True
    memo = {}
    def rec(x, y):
        if x is y: return True
        k = (x.id, y.id)
        if k in memo: return memo[k]
        if x.leaf is not None and y.leaf is not None:
            if isinstance(x.leaf, Poly) and isinstance(y.leaf, Poly):
                try: r = is_zero_field(p_sub(x.leaf, y.leaf)) or _near(x.leaf, y.leaf)
                except Unsupported: r = False
            else: r = False
        else:
            top = min(z.v for z in (x, y) if z.leaf is None)
            xh, xl = (x.hi, x.lo) if x.leaf is None and x.v == top else (x, x)
            yh, yl = (y.hi, y.lo) if y.leaf is None and y.v == top else (y, y)
            r = rec(xh, yh) and rec(xl, yl)
        memo[k] = r
        return r
    return rec(a, b)

def clear_memos():
    _apply_memo.clear(); _ite_memo.clear(); _under_memo.clear(); _mm_memo.clear(); Budget.ops = 0
