"""Interval analysis of straight-line float code over the compiler IR, lane by lane.

Every 32-bit lane of the function is given an abstract value for a whole range of its input at once:
 FR  a real number: enclosing interval, enclosing interval of the derivative to the input, value at the middle of the range
 BF  the bits of such a number, with a multiple of 2^23 added and a mask exclusive-or'ed (that is what code does that takes floats apart)
 IB  an integer known exactly,  BL  a truth value known exactly
Where a comparison or a conversion to an integer is not the same over the whole range, the range is continued once per outcome.
Bounds are computed in double precision with the mean value form; nothing of the analysed program is run.
"""
import re, numpy as np
from . import ir
from .ir import s_resolve, sizeof, fieldoff
M32 = (1 << 32) - 1
class Stuck(Exception): pass
np.seterr(all='ignore')

class FR:
    __slots__ = ('c', 'lo', 'hi', 'dl', 'dh')
    def __init__(s, c, lo, hi, dl, dh): s.c, s.lo, s.hi, s.dl, s.dh = c, lo, hi, dl, dh
    def take(s, ix): return FR(*(getattr(s, k)[ix] for k in FR.__slots__))
class IB:
    __slots__ = ('v', 'ok')
    def __init__(s, v, ok): s.v, s.ok = v & M32, ok
    def take(s, ix): return IB(s.v[ix], s.ok[ix])
class BL:
    __slots__ = ('v', 'ok')
    def __init__(s, v, ok): s.v, s.ok = v, ok
    def take(s, ix): return BL(s.v[ix], s.ok[ix])
class BF:
    __slots__ = ('f', 'k', 'x')
    def __init__(s, f, k, x): s.f, s.k, s.x = f, k, x & M32
    def take(s, ix): return BF(s.f.take(ix), s.k[ix], s.x[ix])
def bits_of(v): return np.asarray(v, np.float32).view(np.uint32).astype(np.int64)
def float_of(b): return np.asarray(b & M32, np.int64).astype(np.uint32).view(np.float32).astype(np.float64)
def sext(v): return np.where(v >= 1 << 31, v - (1 << 32), v)
def hull(*xs):
    a = xs[0]; b = xs[0]
    for x in xs[1:]: a = np.minimum(a, x); b = np.maximum(b, x)
    return a, b
def where(c, a, b): return FR(*(np.where(c, getattr(a, k), getattr(b, k)) for k in FR.__slots__))

class Ranges:
    """abstract values of one function of the module for the ranges lo..hi (arrays) of the chosen argument lane"""
    def __init__(s, mod, fname, lanes):
        s.m = mod; s.f = mod.funcs[fname]; s.lanes = lanes     # lanes: {(argument, lane): 'x' | constant}; other lanes are unknown
        s.ins = None
    # ---- values
    def top(s): z = np.full(s.n, np.nan); return FR(z, z, z, z, z)
    def cf(s, v): a = np.full(s.n, float(v)); z = np.zeros(s.n); return FR(a, a, a, z, z)
    def ci(s, v): return IB(np.full(s.n, v & M32, np.int64), np.ones(s.n, bool))
    def asf(s, l):
        if isinstance(l, FR): return l
        if isinstance(l, IB):
            v = float_of(l.v); v = np.where(l.ok, v, np.nan); z = np.where(np.isnan(v), np.nan, 0.0)
            return FR(v, v, v, z, z)
        if isinstance(l, BF):
            f = l.f; sg, good = s.sign(f)
            e1, e2 = s.expo(f)
            t1 = (e1 + 256 * sg + l.k) % 512; t2 = (e2 + 256 * sg + l.k) % 512
            unch = (l.k % 512) == 0
            ok = ((l.x & 0x7fffffff) == 0) & (unch | (good & (e1 >= 1) & (e2 <= 254) & (t2 >= t1) & (t1 // 256 == t2 // 256) & (t1 % 256 >= 1) & (t2 % 256 <= 254)))
            neg = np.where(unch, 0, (t1 // 256) ^ sg) ^ (l.x >> 31)
            sc = np.where(unch, 1.0, np.exp2((t1 % 256 - e1).astype(float))) * np.where(neg == 1, -1.0, 1.0)
            sc = np.where(ok, sc, np.nan)
            return s.scale(f, sc)
        raise Stuck('float of %s' % type(l).__name__)
    def scale(s, f, k):
        lo, hi = hull(f.lo * k, f.hi * k); dl, dh = hull(f.dl * k, f.dh * k)
        return FR(f.c * k, lo, hi, dl, dh)
    def sign(s, f):
        neg = f.hi < 0; pos = f.lo >= 0
        return neg.astype(np.int64), neg | pos
    def expo(s, f):
        a = np.where((f.lo <= 0) & (f.hi >= 0), 0.0, np.minimum(np.abs(f.lo), np.abs(f.hi))); b = np.maximum(np.abs(f.lo), np.abs(f.hi))
        g = lambda v: np.where(v == 0, 0, np.where(np.isfinite(v), np.clip(np.frexp(np.where(np.isfinite(v), v, 1.0))[1] - 1 + 127, 0, 255), 255)).astype(np.int64)
        return g(a), g(b)
    def asi(s, l):
        if isinstance(l, FR):
            pt = (l.lo == l.hi) & (l.dl == 0) & (l.dh == 0)
            z = np.zeros(s.n, np.int64)
            if pt.all(): return IB(bits_of(l.lo), np.ones(s.n, bool))
            return BF(l, z, z)
        return l
    def tob(s, l):
        """as BF"""
        l = s.asi(l)
        z = np.zeros(s.n, np.int64)
        return l if isinstance(l, BF) else BF(s.asf(l), z, z)
    # ---- float arithmetic
    def tight(s, c, lo, hi, dl, dh):
        # mean value form; rows are given by their half widths around the middle
        with np.errstate(all='ignore'):
            r = np.maximum(np.abs(dl), np.abs(dh)) * s.rad
            l2 = c - r; h2 = c + r
            lo = np.where(l2 > lo, l2, lo); hi = np.where(h2 < hi, h2, hi)
        return FR(c, np.minimum(lo, c), np.maximum(hi, c), dl, dh)
    def add(s, a, b): return s.tight(a.c + b.c, a.lo + b.lo, a.hi + b.hi, a.dl + b.dl, a.dh + b.dh)
    def neg(s, a): return FR(-a.c, -a.hi, -a.lo, -a.dh, -a.dl)
    def sub(s, a, b): return s.add(a, s.neg(b))
    def imul(s, al, ah, bl, bh): return hull(al * bl, al * bh, ah * bl, ah * bh)
    def mul(s, a, b):
        if a is b:
            lo, hi = hull(a.lo * a.lo, a.hi * a.hi); lo = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, lo)
            dl, dh = s.imul(2 * a.lo, 2 * a.hi, a.dl, a.dh)
        else:
            lo, hi = s.imul(a.lo, a.hi, b.lo, b.hi)
            p = s.imul(a.dl, a.dh, b.lo, b.hi); q = s.imul(a.lo, a.hi, b.dl, b.dh)
            dl, dh = p[0] + q[0], p[1] + q[1]
        return s.tight(a.c * b.c, lo, hi, dl, dh)
    def inv(s, b):
        bad = ~((b.lo > 0) | (b.hi < 0))
        lo, hi = hull(1 / b.lo, 1 / b.hi)
        r = s.imul(lo, hi, lo, hi); dl, dh = s.imul(b.dl, b.dh, -r[1], -np.maximum(r[0], 0))
        n = np.where(bad, np.nan, 0.0)
        return FR(1 / b.c + n, lo + n, hi + n, dl + n, dh + n)
    def div(s, a, b): return s.mul(a, s.inv(b))
    def fabs(s, a):
        st = (a.lo < 0) & (a.hi > 0); ng = a.hi <= 0
        lo, hi = hull(np.abs(a.lo), np.abs(a.hi)); lo = np.where(st, 0.0, lo)
        dl = np.where(st, -np.maximum(np.abs(a.dl), np.abs(a.dh)), np.where(ng, -a.dh, a.dl)); dh = np.where(st, -dl, np.where(ng, -a.dl, a.dh))
        return FR(np.abs(a.c), lo, hi, dl, dh)
    def sqrt(s, a):
        bad = ~(a.lo > 0); lo, hi = np.sqrt(a.lo), np.sqrt(a.hi)
        dl, dh = s.imul(a.dl, a.dh, 0.5 / hi, 0.5 / lo); n = np.where(bad & ~((a.lo == 0) & (a.hi == 0)), np.nan, 0.0)
        z = (a.lo == 0) & (a.hi == 0)
        return FR(np.sqrt(a.c) + n, lo + n, hi + n, np.where(z, 0, dl) + n, np.where(z, 0, dh) + n)
    # ---- case splits: alternatives per row -> rows repeated
    def split(s, cnt):
        """repeat row i cnt[i] times; returns the number of each repetition"""
        if (cnt == 1).all(): return np.zeros(s.n, np.int64)
        s.last = ix = np.repeat(np.arange(s.n), cnt); first = np.cumsum(cnt) - cnt
        alt = np.arange(len(ix)) - first[ix]
        s.forked = (s.forked | (cnt > 1))[ix]; s.rad = s.rad[ix]; s.row = s.row[ix]; s.n = len(ix)
        for k in list(s.env): s.env[k] = s.takev(s.env[k], ix)
        for k in list(s.mem): s.mem[k] = s.mem[k].take(ix)
        s.x = s.x.take(ix)
        if s.n > 4000000: raise Stuck('too many cases')
        return alt
    def takev(s, v, ix): return [l.take(ix) for l in v] if isinstance(v, list) else v
    def cmpf(s, pred, get):
        """get() returns the two operands in the current rows"""
        a, b = get(); nan = np.isnan(a.c) | np.isnan(b.c) | np.isnan(a.lo) | np.isnan(b.lo) | np.isnan(a.hi) | np.isnan(b.hi)
        if pred in ('uno', 'ord', 'true', 'false'): return BL(np.full(s.n, pred in ('ord', 'true')), ~nan)
        p = pred[1:]
        flip = {'gt': ('lt', 1), 'ge': ('le', 1), 'lt': ('lt', 0), 'le': ('le', 0), 'eq': ('eq', 0), 'ne': ('eq', 0)}[p]
        if flip[1]: a, b = b, a
        if flip[0] == 'lt': t, f = a.hi < b.lo, a.lo >= b.hi
        elif flip[0] == 'le': t, f = a.hi <= b.lo, a.lo > b.hi
        else: t, f = (a.lo == a.hi) & (b.lo == b.hi) & (a.lo == b.lo), (a.hi < b.lo) | (b.hi < a.lo)
        both = ~t & ~f & ~nan
        alt = s.split(np.where(both, 2, 1))
        if len(alt) != len(t):
            ix = s.lastix(both); t, nan, both = t[ix], nan[ix], both[ix]
        v = np.where(both, alt == 0, t)
        if p == 'ne': v = ~v
        return BL(v, ~nan)
    def lastix(s, both): return np.repeat(np.arange(len(both)), np.where(both, 2, 1))
    def toint(s, get, lo, hi, sat):
        a = get(); tl, th = np.trunc(a.lo), np.trunc(a.hi)
        ok = np.isfinite(tl) & np.isfinite(th) & (th - tl <= 3)
        if sat: tl, th = np.clip(tl, lo, hi), np.clip(th, lo, hi)
        ok &= (tl >= lo) & (th <= hi)
        cnt = np.where(ok, th - tl + 1, 1); cnt = np.where(ok, cnt, 1).astype(np.int64)
        alt = s.split(cnt)
        if len(alt) != len(tl):
            ix = np.repeat(np.arange(len(tl)), cnt); tl, ok = tl[ix], ok[ix]
        return IB(np.where(ok, tl, 0).astype(np.int64) + alt, ok)
    def whole(s, get, fn):
        """rounded to a whole number, a constant in every continuation"""
        a = get(); tl, th = fn(a.lo), fn(a.hi); ok = np.isfinite(tl) & np.isfinite(th)
        cnt = np.where(ok & (th - tl <= 3), th - tl + 1, 1); ok &= th - tl <= 3
        cnt = np.where(ok, cnt, 1).astype(np.int64)
        alt = s.split(cnt)
        if len(alt) != len(tl): tl, ok = tl[s.last], ok[s.last]
        v = np.where(ok, tl + alt, np.nan); z = np.where(ok, 0.0, np.nan)
        return FR(v, v, v, z, z)
    def exponent(s, get):
        """biased exponent with the sign bit above it"""
        b = get(); e1, e2 = s.expo(b.f); sg, good = s.sign(b.f)
        ok = good & (b.x & 0x7fffffff == 0) & (b.k == 0) & (e1 >= 1) & (e2 - e1 <= 2)      # beyond the largest float: 255
        cnt = np.where(ok, e2 - e1 + 1, 1)
        sg = sg ^ (b.x >> 31)
        alt = s.split(cnt)
        if len(alt) != len(e1):
            ix = np.repeat(np.arange(len(e1)), cnt); e1, ok, sg = e1[ix], ok[ix], sg[ix]
        return IB(e1 + alt + 256 * sg, ok)
    # ---- integer arithmetic
    def bitop(s, op, ga, gb):
        a, b = s.asi(ga()), s.asi(gb())
        if isinstance(a, BL): a = IB(np.where(a.v, M32, 0), a.ok)
        if isinstance(b, BL): b = IB(np.where(b.v, M32, 0), b.ok)
        if isinstance(a, IB) and isinstance(b, IB):
            f = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[op]
            ok = a.ok & b.ok
            if op == 'and': ok |= (a.ok & (a.v == 0)) | (b.ok & (b.v == 0))
            v = f(a.v, b.v)
            if op == 'and': v = np.where((a.ok & (a.v == 0)) | (b.ok & (b.v == 0)), 0, v)
            return IB(v, ok)
        if isinstance(a, BF) and isinstance(b, BF):
            if op != 'or': return s.top()
            fa, fb = s.asf(a), s.asf(b)
            za = (fa.lo == 0) & (fa.hi == 0); zb = (fb.lo == 0) & (fb.hi == 0)
            return where(za, fb, where(zb, fa, s.top()))
        if isinstance(a, IB): a, b, ga, gb = b, a, gb, ga
        m = np.where(b.ok, b.v, 1)
        if op == 'and':
            k0 = np.unique(m)
            if set(k0) <= {0, M32}: return where((m == M32) & b.ok, s.asf(a), where(m == 0, s.cf(0), s.top()))
            if set(k0) <= {0, 0x80000000}:
                sg, good = s.sign(a.f)
                return IB(((sg << 31) ^ a.x) & m, (good & (a.k % 512 == 0)) | (m == 0))
            if set(k0) == {0x7fffffff}:
                f = s.asf(BF(a.f, a.k, a.x & 0x80000000)); r = s.fabs(f)
                return where(a.x & 0x7fffffff == 0, r, s.top())
            if set(k0) == {0x7f800000}:
                e = s.exponent(lambda: s.tob(ga())); return IB((e.v & 255) << 23, e.ok)
            return s.top()
        if op == 'xor': return BF(where(b.ok, a.f, s.top()), a.k, a.x ^ m)
        if op == 'or':
            sg, good = s.sign(a.f)
            keep = (m == 0) & b.ok; setneg = (m == 0x80000000) & good & (a.k == 0)
            x = np.where(setneg, (a.x & 0x7fffffff) | np.where(sg == 1, 0, 0x80000000), a.x)
            return BF(where(keep | setneg, a.f, s.top()), a.k, x)
    def addi(s, a, b, sg):
        a, b = s.asi(a), s.asi(b)
        if isinstance(a, IB) and isinstance(b, IB): return IB(a.v + sg * b.v, a.ok & b.ok)
        if isinstance(a, IB) and sg == 1: a, b = b, a
        if isinstance(a, BF) and isinstance(b, IB):
            good = b.ok & (b.v & 0x7fffff == 0) & (a.x == 0)
            return BF(where(good, a.f, s.top()), (a.k + sg * (b.v >> 23)) % 512, a.x)
        return s.top()
    def shift(s, kind, ga, gb):
        a, b = s.asi(ga()), s.asi(gb())
        if isinstance(b, BF): return s.top()
        if isinstance(a, BF):
            if kind == 'l' or not ((b.v == 23) & b.ok).all(): return s.top()
            e = s.exponent(lambda: s.tob(ga()))
            return e if kind == 'lr' else IB(np.where(e.v >= 256, e.v - 512, e.v), e.ok)
        n = np.clip(b.v, 0, 63); ok = a.ok & b.ok & (b.v < 32)
        if kind == 'l': return IB(a.v << np.minimum(n, 31), ok)
        if kind == 'lr': return IB(a.v >> np.minimum(n, 31), ok)
        return IB(sext(a.v) >> np.minimum(n, 31), ok)
    def divi(s, op, a, b):
        if not (isinstance(a, IB) and isinstance(b, IB)): return s.top()
        x, y = (sext(a.v), sext(b.v)) if op[0] == 's' else (a.v, b.v)
        ok = a.ok & b.ok & (y != 0); y = np.where(ok, y, 1); q = np.sign(x) * np.sign(y) * (np.abs(x) // np.abs(y))
        return IB(q if op.endswith('div') else x - q * y, ok)
    def vshift(s, kind, ga, gb):
        """shift by a signed amount, right when negative"""
        b = s.asi(gb())
        if isinstance(b, BF): return s.top()
        c = np.where(b.v & 255 >= 128, (b.v & 255) - 256, b.v & 255); u = np.unique(c)
        if len(u) != 1 or not b.ok.all() or abs(u[0]) > 31: return s.top()
        cn = lambda k: (lambda: s.ci(k))
        return s.shift('l', ga, cn(int(u[0]))) if u[0] >= 0 else s.shift('lr' if kind == 'u' else 'ar', ga, cn(int(-u[0])))
    def cmpi(s, pred, a, b):
        if isinstance(a, BL): a = IB(a.v.astype(np.int64), a.ok)
        if isinstance(b, BL): b = IB(b.v.astype(np.int64), b.ok)
        a, b = s.asi(a), s.asi(b)
        bad = BL(np.zeros(s.n, bool), np.zeros(s.n, bool))
        if isinstance(b, BF): return bad
        if isinstance(a, BF):
            sg, good = s.sign(a.f); good = good & (a.k % 512 == 0); neg = (sg ^ (a.x >> 31)) == 1
            if pred == 'slt' and (b.v == 0).all(): return BL(neg, good)
            if pred == 'sgt' and (b.v == M32).all(): return BL(~neg, good)
            return bad
        x, y = (sext(a.v), sext(b.v)) if pred[0] == 's' else (a.v, b.v)
        f = {'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal}[pred if pred in ('eq', 'ne') else pred[1:]]
        return BL(f(x, y), a.ok & b.ok)
    def cmpwide(s, pred, a, b):
        """integers of several words: the upper word decides where it differs, or where the lower words of the bound cannot"""
        b = [s.asi(x) for x in b]
        if not all(isinstance(x, IB) for x in b): raise Stuck('icmp')
        low = [x.v for x in b[:-1]]
        if pred in ('eq', 'ne'):
            r = [s.cmpi('eq', x, y) for x, y in zip(a, b)]; v = np.logical_and.reduce([x.v for x in r]); ok = np.logical_and.reduce([x.ok for x in r]) | np.logical_or.reduce([x.ok & ~x.v for x in r])
            return BL(v if pred == 'eq' else ~v, ok)
        if pred[1:] in ('gt', 'le') and all((x == M32).all() for x in low) or pred[1:] in ('lt', 'ge') and all((x == 0).all() for x in low): return s.cmpi(pred, a[-1], b[-1])
        raise Stuck('icmp')
    def sel(s, c, a, b, isf):
        if isinstance(c, IB): c = BL(c.v & 1 == 1, c.ok)
        if isinstance(a, BL) and isinstance(b, BL): return BL(np.where(c.v, a.v, b.v), c.ok & np.where(c.v, a.ok, b.ok))
        if not isf:
            a, b = s.asi(a), s.asi(b)
            if isinstance(a, IB) and isinstance(b, IB): return IB(np.where(c.v, a.v, b.v), c.ok & np.where(c.v, a.ok, b.ok) | a.ok & b.ok & (a.v == b.v))
            if a is b: return a
            a, b = s.tob(a), s.tob(b)
            return BF(where(c.ok, where(c.v, a.f, b.f), s.top()), np.where(c.v, a.k, b.k), np.where(c.v, a.x, b.x))
        return where(c.ok, where(c.v, s.asf(a), s.asf(b)), s.top())
    # ---- instructions
    def parts(s, ty):
        """number of 32-bit lanes (or truth values) per element, elements"""
        ty = s_resolve(s.m, ty)
        if ty.k == 'vec': e, n = s_resolve(s.m, ty.e), ty.n
        else: e, n = ty, 1
        if e.k == 'float': return 1, n, 'f'
        if e.k == 'int': 
            if e.n == 1: return 1, n, 'b'
            if e.n == 32: return 1, n, 'i'
            if e.n % 32 == 0: return e.n // 32, n, 'i'
        if e.k == 'ptr': return 0, n, 'p'
        raise Stuck('type %r' % ty)
    def const(s, ty, v):
        ty = s_resolve(s.m, ty); k = v[0]
        if ty.k == 'vec':
            if k == 'agg': return [l for t, x in v[1] for l in s.const(t, x)]
            return [l for _ in range(ty.n) for l in s.const(ty.e, v[2] if k == 'splat' else v)]
        if ty.k == 'float': return [s.top() if k == 'undef' or v[0] == 'fp' and v[1] != v[1] else s.cf(v[1] if k == 'fp' else 0.0)]
        if ty.k == 'int':
            if ty.n == 1: return [BL(np.full(s.n, k == 'int' and v[1] & 1 == 1), np.full(s.n, k != 'undef'))]
            c = v[1] if k == 'int' else 0
            r = [s.ci(c >> (32 * j)) for j in range(max(1, ty.n // 32))]
            if k == 'undef':
                for x in r: x.ok = np.zeros(s.n, bool)
            return r
        if ty.k == 'ptr':
            if k == 'glob': return ('p', v[1], 0)
            if k == 'cgep':
                b = s.const(ir.PTR, v[2]); return s.gep(b, v[1], [(t, x[1]) for t, x in v[3]])
        raise Stuck('constant %r' % (v,))
    def gep(s, base, ety, idx):
        off = 0; ty = ety
        for n, (it, c) in enumerate(idx):
            if not isinstance(c, int): raise Stuck('address')
            r = s_resolve(s.m, ty)
            if n == 0: off += c * sizeof(s.m, ty)
            elif r.k in ('arr', 'vec'): off += c * sizeof(s.m, r.e); ty = r.e
            else: off += fieldoff(s.m, r, c); ty = r.e[c]
        return ('p', base[1], base[2] + off)
    def val(s, ty, v):
        if v[0] == 'loc':
            if v[1] not in s.env: raise Stuck('value ' + v[1])
            return s.env[v[1]]
        return s.const(ty, v)
    def getter(s, ty, v, i): return lambda: s.val(ty, v)[i]
    def lane_in(s, obj, k):
        w = s.lanes.get((obj, k))
        if w is None: return s.top()
        return s.x if isinstance(w, str) else s.cf(w)
    def load(s, p, n):
        r = []
        for j in range(n):
            o = p[2] + 4 * j
            if (p[1], o) in s.mem: r.append(s.mem[(p[1], o)])
            elif isinstance(p[1], int): r.append(s.lane_in(p[1], o // 4))
            else:
                b = s.globalword(p[1], o); r.append(s.ci(b) if b is not None else s.top())
        return r
    def globalword(s, name, o):
        c = getattr(s.m, 'gwords', None)
        if c is None: c = s.m.gwords = global_words(s.m)
        return c.get((name, o))
    def run(s, lo, hi):
        lo = np.asarray(lo, float); hi = np.asarray(hi, float)
        s.n = len(lo); s.rad = (hi - lo) / 2; s.row = np.arange(s.n); s.forked = np.zeros(s.n, bool)
        s.x = FR((lo + hi) / 2, lo, hi, np.ones(s.n), np.ones(s.n)); s.env = {}; s.mem = {}
        for i, p in enumerate(s.f.params): s.env[p[1]] = ('p', i, 0)
        if s.ins is None:
            if len(s.f.order) != 1: raise Stuck('the function branches')
            s.ins = list(ir.parse_instr(l, s.m) if isinstance(l, str) else l for l in s.f.blocks[s.f.order[0]])
        uses = {}
        for k, i in enumerate(s.ins):
            for t in set(re.findall(r'%[-a-zA-Z$._0-9]+', i.text.split('=', 1)[-1])): uses[t] = k
        for k, i in enumerate(s.ins):
            r = s.step(i)
            if i.res is not None: s.env[i.res] = r
            for t in [t for t in s.env if uses.get(t, -1) <= k and isinstance(s.env[t], list) and t != i.res]: del s.env[t]
        return s
    def step(s, i):
        op = i.op
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = s.val(i.ty, i.a[0]), s.val(i.ty, i.a[1]); f = {'fadd': s.add, 'fsub': s.sub, 'fmul': s.mul, 'fdiv': s.div}[op]
            out = []
            for x, y in zip(a, b):
                fx = s.asf(x); out.append(f(fx, fx if x is y else s.asf(y)))
            return out
        if op == 'fneg': return [s.neg(s.asf(x)) for x in s.val(i.ty, i.a[0])]
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if s.parts(i.ty)[0] != 1: raise Stuck(op)
            return [s.divi(op, s.asi(x), s.asi(y)) for x, y in zip(s.val(i.ty, i.a[0]), s.val(i.ty, i.a[1]))]
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul'):
            w, n, kd = s.parts(i.ty); out = []
            if kd == 'b':
                for x, y in zip(s.val(i.ty, i.a[0]), s.val(i.ty, i.a[1])):
                    f = {'and': np.logical_and, 'or': np.logical_or, 'xor': np.logical_xor}[op]; ok = x.ok & y.ok
                    if op == 'and': ok = ok | (x.ok & ~x.v) | (y.ok & ~y.v)
                    if op == 'or': ok = ok | (x.ok & x.v) | (y.ok & y.v)
                    out.append(BL(np.where(x.ok & y.ok, f(x.v, y.v), op == 'or'), ok))
                return out
            q = s.words(i.ty, i.a[1], w) if w > 1 and op in ('shl', 'lshr') else None
            if q is not None: return moved(s.val(i.ty, i.a[0]), w, q if op == 'lshr' else -q, s.ci(0))
            if w > 1 and op not in ('and', 'or', 'xor'): return [s.top() for _ in range(w * n)]
            for j in range(w * n):
                ga, gb = s.getter(i.ty, i.a[0], j), s.getter(i.ty, i.a[1], j); m = s.n
                if op in ('and', 'or', 'xor'): r = s.bitop(op, ga, gb)
                elif op in ('add', 'sub'): r = s.addi(ga(), gb(), 1 if op == 'add' else -1)
                elif op == 'mul':
                    a, b = s.asi(ga()), s.asi(gb()); r = IB(a.v * b.v, a.ok & b.ok) if isinstance(a, IB) and isinstance(b, IB) else s.top()
                else: r = s.shift({'shl': 'l', 'lshr': 'lr', 'ashr': 'ar'}[op], ga, gb)
                out = s.grown(out, m); out.append(r)
            return out
        if op == 'fcmp':
            out = []
            for j in range(s.parts(i.ty)[1]):
                m = s.n; r = s.cmpf(i.a[0], lambda: (s.asf(s.val(i.ty, i.a[1])[j]), s.asf(s.val(i.ty, i.a[2])[j])))
                out = s.grown(out, m); out.append(r)
            return out
        if op == 'icmp':
            w = s.parts(i.ty)[0]
            if w > 1: return [s.cmpwide(i.a[0], s.val(i.ty, i.a[1])[j:j + w], s.val(i.ty, i.a[2])[j:j + w]) for j in range(0, w * s.parts(i.ty)[1], w)]
            return [s.cmpi(i.a[0], x, y) for x, y in zip(s.val(i.ty, i.a[1]), s.val(i.ty, i.a[2]))]
        if op == 'select':
            c = s.val(i.a[0], i.a[1]); a, b = s.val(i.ty, i.a[2]), s.val(i.ty, i.a[3]); w, n, kd = s.parts(i.ty)
            if len(c) == 1: c = c * n
            return [s.sel(c[j // w], a[j], b[j], kd == 'f') for j in range(w * n)]
        if op == 'bitcast' or op == 'freeze': return s.val(i.a[0] if op == 'bitcast' else i.ty, i.a[1 if op == 'bitcast' else 0])
        if op in ('trunc', 'zext') and s.parts(i.a[0])[2] == 'i' and s.parts(i.ty)[2] == 'i': return resized(s.val(*i.a), s.parts(i.a[0])[0], s.parts(i.ty)[0], s.ci(0))
        if op in ('sext', 'zext'):
            w, n, kd = s.parts(i.a[0])
            if kd != 'b' or s.parts(i.ty)[0] != 1: raise Stuck(op)
            return [IB(np.where(x.v, M32 if op == 'sext' else 1, 0), x.ok) for x in s.val(*i.a)]
        if op == 'trunc':
            w, n, kd = s.parts(i.a[0])
            if w != 1 or s.parts(i.ty)[2] != 'b': raise Stuck(op)
            return [BL(x.v & 1 == 1, x.ok) if isinstance(x, IB) else BL(np.zeros(s.n, bool), np.zeros(s.n, bool)) for x in map(s.asi, s.val(*i.a))]
        if op in ('sitofp', 'uitofp'):
            out = []
            for x in s.val(*i.a):
                x = s.asi(x)
                if isinstance(x, IB):
                    v = np.where(x.ok, sext(x.v) if op == 'sitofp' else x.v, np.nan).astype(float); z = np.where(x.ok, 0.0, np.nan); out.append(FR(v, v, v, z, z))
                elif isinstance(x, BL): v = np.where(x.v, -1.0 if op == 'sitofp' else 1.0, 0.0) + np.where(x.ok, 0, np.nan); out.append(FR(v, v, v, v * 0, v * 0))
                else: out.append(s.top())
            return out
        if op in ('fptosi', 'fptoui'): return s.conv(i.a[0], i.a[1], op == 'fptosi', False)
        if op == 'load':
            p = s.val(ir.PTR, i.a[0]); w, n, kd = s.parts(i.ty)
            if kd == 'p' or kd == 'b': raise Stuck('load')
            return s.load(p, w * n)
        if op == 'store':
            w, n, kd = s.parts(i.ty)
            if kd in 'pb': raise Stuck('store')
            p = s.val(ir.PTR, i.a[1])
            for j, l in enumerate(s.val(i.ty, i.a[0])): s.mem[(p[1], p[2] + 4 * j)] = l
            return None
        if op == 'getelementptr':
            return s.gep(s.val(ir.PTR, i.a[1]), i.a[0], [(t, x[1] if x[0] == 'int' else None) for t, x in i.a[2]])
        if op == 'alloca': return ('p', i.res, 0)
        if op == 'extractelement':
            w = s.parts(i.a[0])[0]; k = i.a[3]
            if k[0] != 'int': raise Stuck('element')
            return s.val(i.a[0], i.a[1])[w * k[1]:w * k[1] + w]
        if op == 'insertelement':
            w = s.parts(i.ty)[0]; k = i.a[4]
            if k[0] != 'int': raise Stuck('element')
            v = list(s.val(i.ty, i.a[0])); v[w * k[1]:w * k[1] + w] = s.val(i.a[1], i.a[2]); return v
        if op == 'shufflevector':
            w, n, kd = s.parts(i.a[0]); a = s.val(i.a[0], i.a[1]); b = s.val(i.a[0], i.a[2]); mk = s.const(i.a[3], i.a[4]); ab = a + b
            return [ab[w * int(m.v[0]) + q] if m.ok[0] else s.top() for m in mk for q in range(w)]
        if op == 'ret': return None
        if op == 'call': return s.call(i)
        raise Stuck(op)
    def words(s, ty, v, w):
        """a shift by whole words"""
        if v[0] == 'loc': return None
        try: c = const_words(s.m, ty, v)
        except Stuck: return None
        k = c[0]
        return k // 32 if k % 32 == 0 and k // 32 <= w and all(x == (k if j % w == 0 else 0) for j, x in enumerate(c)) else None
    def grown(s, out, m): return out if s.n == m else [l.take(s.lastgrow(m)) for l in out]
    def lastgrow(s, m): return s.last
    def conv(s, ty, v, signed, sat):
        out = []
        for j in range(s.parts(ty)[1]):
            m = s.n; r = s.toint(lambda: s.asf(s.val(ty, v)[j]), -(1 << 31) if signed else 0, (1 << 31) - 1 if signed else M32, sat)
            out = s.grown(out, m); out.append(r)
        return out
    def call(s, i):
        n = i.a[0][1]; A = i.a[1]; v = lambda k: s.val(*A[k])
        if 'lifetime' in n or 'dbg' in n or 'assume' in n or 'noalias.scope' in n: return None
        F = lambda k: [s.asf(x) for x in v(k)]
        if re.search(r'llvm\.(fma|fmuladd)\.', n): return [s.add(s.mul(x, x if p is q else y), z) for x, y, z, p, q in zip(F(0), F(1), F(2), v(0), v(1))]
        if 'llvm.fabs.' in n: return [s.fabs(x) for x in F(0)]
        if 'llvm.sqrt.' in n: return [s.sqrt(x) for x in F(0)]
        m = re.search(r'llvm\.(floor|ceil|trunc|rint|nearbyint|roundeven)\.', n); fn = m and ROUND[m[1]]
        if 'sse41.round.ps' in n:
            k = A[1][1]; fn = {0: np.rint, 8: np.rint, 1: np.floor, 9: np.floor, 2: np.ceil, 10: np.ceil, 3: np.trunc, 11: np.trunc}.get(k[1] if k[0] == 'int' else None)
        if fn:
            out = []
            for j in range(s.parts(A[0][0])[1]):
                m = s.n; r = s.whole(lambda: s.asf(s.val(*A[0])[j]), fn); out = s.grown(out, m); out.append(r)
            return out
        if 'cvttps2dq' in n: return s.conv(*A[0], True, False)
        if 'neon.fcvtzs' in n or 'llvm.fptosi.sat' in n: return s.conv(*A[0], True, True)
        if 'neon.fcvtzu' in n or 'llvm.fptoui.sat' in n: return s.conv(*A[0], False, True)
        if re.search(r'neon\.[us]shl\.', n):
            out = []
            for j in range(s.parts(A[0][0])[1]):
                m = s.n; r = s.vshift('u' if '.ushl' in n else 's', s.getter(*A[0], j), s.getter(*A[1], j)); out = s.grown(out, m); out.append(r)
            return out
        if 'blendvps' in n: return [s.sel(s.cmpi('slt', s.asi(c), s.ci(0)), y, x, True) for x, y, c in zip(v(0), v(1), v(2))]
        if 'llvm.copysign' in n:
            out = []
            for x, y in zip(F(0), F(1)):
                sg, good = s.sign(y); out.append(s.scale(s.fabs(x), np.where(good, np.where(sg == 1, -1.0, 1.0), np.nan)))
            return out
        raise Stuck('call ' + n)
    def out(s, arg, k):
        l = s.mem.get((arg, 4 * k))
        return s.top() if l is None else s.asf(l)

def moved(v, w, q, z):
    """elements of w words, moved right by q words (left when negative)"""
    return [v[j + k + q] if 0 <= k + q < w else z for j in range(0, len(v), w) for k in range(w)]
def resized(v, w, w2, z): return [v[j + k] if k < w else z for j in range(0, len(v), w) for k in range(w2)]
def const_words(m, ty, v):
    """bits of a constant, a list of 32-bit words"""
    ty = s_resolve(m, ty); k = v[0]
    if ty.k in ('vec', 'arr'):
        if k == 'agg': return [l for t, x in v[1] for l in const_words(m, t, x)]
        return [l for _ in range(ty.n) for l in const_words(m, ty.e, v[2] if k == 'splat' else v)]
    if ty.k == 'struct': return [l for t, x in (v[1] if k == 'agg' else [(e, v) for e in ty.e]) for l in const_words(m, t, x)]
    if ty.k == 'float': return [int(bits_of(v[1] if k == 'fp' else 0.0))]
    if ty.k == 'int':
        c = v[1] if k == 'int' else 0
        if ty.n % 32: raise Stuck('constant')
        return [(c >> (32 * j)) & M32 for j in range(ty.n // 32)]
    raise Stuck('constant')
def offset(m, ty, idx):
    """bytes a constant address computation adds, None if not constant"""
    o = 0
    for n, (t, c) in enumerate(idx):
        if c[0] != 'int': return None
        r = s_resolve(m, ty); c = c[1]
        if n == 0: o += c * sizeof(m, ty)
        elif r.k in ('arr', 'vec'): o += c * sizeof(m, r.e); ty = r.e
        else: o += fieldoff(m, r, c); ty = r.e[c]
    return o
def global_words(m):
    """words of the globals that are constant, or written by their initialiser alone and there with constants"""
    g = {}; bad = set()
    for n, (ty, init, const, pre) in m.globals.items():
        try:
            if init is not None:
                for j, w in enumerate(const_words(m, ty, init)): g[(n, 4 * j)] = w
        except (Stuck, AttributeError, TypeError): pass
    for fn, f in m.funcs.items():
        init = '__cxx_global_var_init' in fn or '_GLOBAL__sub_I' in fn
        for ls in f.blocks.values():
            for l in ls:
                if not l.startswith('store') and ' store ' not in l: continue
                i = ir.parse_instr(l, m)
                if i.op != 'store': continue
                p, o = i.a[1], 0
                if p[0] == 'cgep' and p[2][0] == 'glob':
                    o = offset(m, p[1], p[3])
                    if o is not None: p = p[2]
                if p[0] == 'cgep' and p[2][0] == 'glob': bad.add(p[2][1]); continue
                if p[0] != 'glob': continue
                if not init or i.a[0][0] == 'loc': bad.add(p[1]); continue
                try:
                    for j, w in enumerate(const_words(m, i.ty, i.a[0])): g[(p[1], o + 4 * j)] = w
                except Stuck: bad.add(p[1])
    return {k: v for k, v in g.items() if k[0] not in bad}

ROUND = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'nearbyint': np.rint, 'roundeven': np.rint}
class Fold:
    """constant propagation through the same function with single-precision arithmetic (special values)"""
    def __init__(s, mod, fname, args):
        s.m = mod; s.f = mod.funcs[fname]; s.args = args      # list per argument of lists of float32 or None
    def run(s):
        r = Ranges(s.m, s.f.name if s.f.name in s.m.funcs else next(k for k, f in s.m.funcs.items() if f is s.f), {}); r.n = 1
        s.env = {}; s.mem = {}
        for i, p in enumerate(s.f.params): s.env[p[1]] = ('p', i, 0)
        if len(s.f.order) != 1: raise Stuck('the function branches')
        f32 = np.float32
        u2f = lambda u: np.array([u & M32], np.uint32).view(f32)[0]
        f2u = lambda f: int(np.array([f], f32).view(np.uint32)[0])
        sx = lambda u: u - (1 << 32) if u >> 31 else u
        def const(ty, v):
            ty = s_resolve(s.m, ty); k = v[0]
            if ty.k == 'vec':
                if k == 'agg': return [l for t, x in v[1] for l in const(t, x)]
                return [l for _ in range(ty.n) for l in const(ty.e, v[2] if k == 'splat' else v)]
            if ty.k == 'float': return [f2u(v[1] if k == 'fp' else 0.0)]
            if ty.k == 'int':
                c = v[1] if k == 'int' else 0
                return [c & 1] if ty.n == 1 else [(c >> (32 * j)) & M32 for j in range(max(1, ty.n // 32))]
            if ty.k == 'ptr': return r.const(ty, v)
            raise Stuck('constant')
        def val(ty, v): return s.env[v[1]] if v[0] == 'loc' else const(ty, v)
        def toi(u, lo, hi, sat):
            f = float(u2f(u))
            if sat: return (0 if f != f else int(min(max(f, lo), hi))) & M32
            return (int(f) if f == f and abs(f) < 2 ** 40 and lo <= int(f) <= hi else 0x80000000) & M32
        FB = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b}
        IBn = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
               'shl': lambda a, b: a << b if b < 32 else 0, 'lshr': lambda a, b: a >> b if b < 32 else 0, 'ashr': lambda a, b: sx(a) >> min(b, 31)}
        for l in s.f.blocks[s.f.order[0]]:
            i = ir.parse_instr(l, s.m) if isinstance(l, str) else l; op = i.op; R = None
            if op in FB: R = [f2u(FB[op](u2f(x), u2f(y))) for x, y in zip(val(i.ty, i.a[0]), val(i.ty, i.a[1]))]
            elif op in ('sdiv', 'udiv', 'srem', 'urem'):
                R = []
                for x, y in zip(val(i.ty, i.a[0]), val(i.ty, i.a[1])):
                    if op[0] == 's': x, y = sx(x), sx(y)
                    if y == 0 or r.parts(i.ty)[0] != 1: raise Stuck(op)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); R.append((q if op.endswith('div') else x - q * y) & M32)
            elif op == 'fneg': R = [x ^ 0x80000000 for x in val(i.ty, i.a[0])]
            elif op in IBn:
                w = r.parts(i.ty)[0]; q = r.words(i.ty, i.a[1], w) if w > 1 and op in ('shl', 'lshr') else None
                if q is not None: s.env[i.res] = moved(val(i.ty, i.a[0]), w, q if op == 'lshr' else -q, 0); continue
                if r.parts(i.ty)[0] > 1 and op not in ('and', 'or', 'xor'): raise Stuck(op)
                bit = r.parts(i.ty)[2] == 'b'
                R = [IBn[op](x, y) & (1 if bit else M32) for x, y in zip(val(i.ty, i.a[0]), val(i.ty, i.a[1]))]
            elif op == 'fcmp':
                p = i.a[0]; R = []
                for x, y in zip(val(i.ty, i.a[1]), val(i.ty, i.a[2])):
                    x, y = float(u2f(x)), float(u2f(y)); nan = x != x or y != y
                    if p in ('uno', 'ord'): R.append(int(nan == (p == 'uno')))
                    elif nan: R.append(int(p[0] == 'u'))
                    else: R.append(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[p[1:]]))
            elif op == 'icmp':
                p = i.a[0]; R = []; w = r.parts(i.ty)[0]; wide = lambda l: [sum(x << (32 * q) for q, x in enumerate(l[j:j + w])) for j in range(0, len(l), w)]
                for x, y in zip(wide(val(i.ty, i.a[1])), wide(val(i.ty, i.a[2]))):
                    if p[0] == 's': x, y = (v - (1 << 32 * w) if v >> (32 * w - 1) else v for v in (x, y))
                    R.append(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[p if p in ('eq', 'ne') else p[1:]]))
            elif op == 'select':
                c = val(i.a[0], i.a[1]); a, b = val(i.ty, i.a[2]), val(i.ty, i.a[3]); w, n, kd = r.parts(i.ty)
                if len(c) == 1: c = c * n
                R = [a[j] if c[j // w] else b[j] for j in range(w * n)]
            elif op in ('bitcast', 'freeze'): R = val(i.a[0] if op == 'bitcast' else i.ty, i.a[1 if op == 'bitcast' else 0])
            elif op in ('sext', 'zext'): R = [(M32 if op == 'sext' else 1) if x else 0 for x in val(*i.a)] if r.parts(i.a[0])[2] == 'b' else resized(val(*i.a), r.parts(i.a[0])[0], r.parts(i.ty)[0], 0)
            elif op == 'trunc': R = [x & 1 for x in val(*i.a)] if r.parts(i.ty)[2] == 'b' else resized(val(*i.a), r.parts(i.a[0])[0], r.parts(i.ty)[0], 0)
            elif op in ('sitofp', 'uitofp'): R = [f2u(f32(sx(x) if op == 'sitofp' else x)) for x in val(*i.a)]
            elif op in ('fptosi', 'fptoui'): R = [toi(x, -(1 << 31), (1 << 31) - 1, False) for x in val(*i.a)]
            elif op == 'load':
                p = val(ir.PTR, i.a[0]); w, n, kd = r.parts(i.ty); R = []
                for j in range(w * n):
                    o = p[2] + 4 * j
                    if (p[1], o) in s.mem: R.append(s.mem[(p[1], o)])
                    elif isinstance(p[1], int): R.append(f2u(s.args[p[1]][o // 4]))
                    else:
                        g = r.globalword(p[1], o)
                        if g is None: raise Stuck('global ' + p[1])
                        R.append(g)
            elif op == 'store':
                p = val(ir.PTR, i.a[1])
                for j, x in enumerate(val(i.ty, i.a[0])): s.mem[(p[1], p[2] + 4 * j)] = x
            elif op == 'getelementptr': R = r.gep(val(ir.PTR, i.a[1]), i.a[0], [(t, x[1] if x[0] == 'int' else None) for t, x in i.a[2]])
            elif op == 'extractelement': w = r.parts(i.a[0])[0]; k = i.a[3][1]; R = val(i.a[0], i.a[1])[w * k:w * k + w]
            elif op == 'insertelement': w = r.parts(i.ty)[0]; k = i.a[4][1]; R = list(val(i.ty, i.a[0])); R[w * k:w * k + w] = val(i.a[1], i.a[2])
            elif op == 'shufflevector':
                w = r.parts(i.a[0])[0]; ab = val(i.a[0], i.a[1]) + val(i.a[0], i.a[2]); R = [ab[w * m + q] for m in const(i.a[3], i.a[4]) for q in range(w)]
            elif op == 'alloca': R = ('p', i.res, 0)
            elif op == 'ret': pass
            elif op == 'call':
                n = i.a[0][1]; A = i.a[1]
                if re.search(r'llvm\.(fma|fmuladd)\.', n): R = [f2u(f32(float(u2f(x)) * float(u2f(y)) + float(u2f(z)))) for x, y, z in zip(val(*A[0]), val(*A[1]), val(*A[2]))]
                elif 'llvm.fabs.' in n: R = [x & 0x7fffffff for x in val(*A[0])]
                elif 'llvm.sqrt.' in n: R = [f2u(np.sqrt(u2f(x))) for x in val(*A[0])]
                elif re.search(r'llvm\.(floor|ceil|trunc|rint|nearbyint|roundeven)\.', n): R = [f2u(ROUND[re.search(r'llvm\.(\w+)\.', n)[1]](u2f(x))) for x in val(*A[0])]
                elif 'sse41.round.ps' in n and A[1][1][0] == 'int' and A[1][1][1] & 7 < 4: R = [f2u([np.rint, np.floor, np.ceil, np.trunc][A[1][1][1] & 7](u2f(x))) for x in val(*A[0])]
                elif 'cvttps2dq' in n: R = [toi(x, -(1 << 31), (1 << 31) - 1, False) for x in val(*A[0])]
                elif 'fcvtzs' in n or 'fptosi.sat' in n: R = [toi(x, -(1 << 31), (1 << 31) - 1, True) for x in val(*A[0])]
                elif 'fcvtzu' in n or 'fptoui.sat' in n: R = [toi(x, 0, M32, True) for x in val(*A[0])]
                elif re.search(r'neon\.[us]shl\.', n):
                    R = []
                    for x, c in zip(val(*A[0]), val(*A[1])):
                        c = (c & 255) - 256 if c & 128 else c & 255
                        R.append((x << c if c < 32 else 0) & M32 if c >= 0 else ((x if '.ushl' in n else sx(x)) >> min(-c, 31 if '.sshl' in n else 63)) & M32)
                elif 'blendvps' in n: R = [y if c >> 31 else x for x, y, c in zip(val(*A[0]), val(*A[1]), val(*A[2]))]
                elif 'llvm.copysign' in n: R = [(x & 0x7fffffff) | (y & 0x80000000) for x, y in zip(val(*A[0]), val(*A[1]))]
                elif 'lifetime' in n or 'assume' in n: continue
                else: raise Stuck('call ' + n)
            else: raise Stuck(op)
            if i.res is not None: s.env[i.res] = R
        return s
    def out(s, arg, k):
        b = s.mem.get((arg, 4 * k))
        if b is None: raise Stuck('no result')
        return float(np.array([b], np.uint32).view(np.float32)[0])
