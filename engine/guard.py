"""False-alarm guard.  When two normal forms differ syntactically the analysis
is only *inconclusive*; an alarm needs the difference of the two forms to be
refutable, i.e. a point of the input space on which the two terms denote
different values.  This evaluates the *normal forms* (never the program)."""
import math
import numpy as np
from . import dom as D

N = 3000

def _rng(seed): return np.random.default_rng(seed)

class Env:
    floor = 1e-3
    def __init__(s, seed, ranges=None, n=N, pre=None):
        s.seed = seed; s.n = n; s.memo = {}; s.inp = {}; s.ranges = ranges or {}
        s.np_ = {}; s.nb = {}; s.tm = {}; s.invalid = np.zeros(n, bool)
    def _r(s, name):
        import zlib
        return _rng([s.seed, zlib.crc32(name.encode())])
    def fin(s, A):
        name = A.args[0]
        if name in s.inp: return s.inp[name]
        r = s._r(name); n = s.n
        rg = s.ranges.get(name)
        if rg is None and name.startswith('unit_'): rg = (-0.75, 0.75)
        if rg is None:
            for k, v in s.ranges.items():
                if k.endswith('*') and name.startswith(k[:-1]): rg = v
        if rg is not None:
            if callable(rg): v = rg(r, n)
            else:
                lo, hi = rg
                v = r.uniform(lo, hi, n)
                q = r.integers(0, 5, n) / 4.0 * (hi - lo) + lo
                v = np.where(r.random(n) < 0.25, q, v)
        else:
            k = n // 4
            v = np.concatenate([r.integers(-2, 3, k).astype(float), r.uniform(-1, 1, k), r.uniform(-8, 8, k),
                                (r.integers(-8, 9, n - 3 * k) * 0.5)])
            # blocks are aligned between inputs so ties do occur
        if A.pos or A.nonneg: v = np.abs(v) + (0.0 if not A.pos else (np.abs(v) < 1e-9) * 0.5)
        s.inp[name] = v
        return v
    def iin(s, A):
        name = A.args[0]
        if name in s.inp: return s.inp[name]
        r = s._r(name); n = s.n; w = A.w
        rg = s.ranges.get(name)
        if callable(rg): v = rg(r, n).astype(np.uint64)
        elif rg is not None: v = r.integers(rg[0], rg[1] + 1, n).astype(np.int64).astype(np.uint64)
        else:
            k = n // 4
            special = np.array([0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 127 % (1 << w), 128 % (1 << w), 255 % (1 << w)], dtype=np.uint64)
            v = np.concatenate([special[r.integers(0, len(special), k)], r.integers(0, 6, k).astype(np.uint64),
                                r.integers(0, 1 << min(w, 62), k, dtype=np.uint64), r.integers(0, 1 << min(w, 10), n - 4 * k + k // 2, dtype=np.uint64),
                                (np.uint64(1) << r.integers(0, w, k - k // 2).astype(np.uint64)) - np.uint64(1)])
        v = v & np.uint64((1 << w) - 1)
        s.inp[name] = v
        return v
    def bin(s, v):
        name = v.args[0]
        if name not in s.inp: s.inp[name] = s._r(name).integers(0, 2, s.n).astype(bool)
        return s.inp[name]

    # polynomials
    def poly(s, p):
        r = s.np_.get(p)
        if r is None:
            r = np.zeros(s.n)
            for m, c in p.t.items():
                x = np.full(s.n, float(c))
                for a, e in m: x = x * s.at(a) ** e if e != 1 else x * s.at(a)
                r = r + x
            s.np_[p] = r
        return r
    def at(s, aid):
        r = s.memo.get(aid)
        if r is None:
            r = s._at(D._atomlist[aid]); s.memo[aid] = r
        return r
    def _at(s, A):
        k = A.kind
        if k == 'in':
            if A.w is not None: return s.iin(A)
            if A.sq is not None:
                q = s.poly(A.sq); s.invalid = s.invalid | (q < 0)
                return np.sqrt(np.maximum(q, 0)) * np.where(s._r('sgn' + A.args[0]).random(s.n) < 0.5, -1.0, 1.0)
            return s.fin(A)
        if k == 'pi': return np.full(s.n, math.pi)
        if k == 'inf': return np.full(s.n, np.inf)
        if k == 'nan': return np.full(s.n, np.nan)
        if k == 'undef':
            import zlib
            if A.w is None: return s._r('undef').uniform(-1, 1, s.n)
            return s._r('undef').integers(0, 255, s.n).astype(np.uint64)
        X = []
        for x in A.args:
            if isinstance(x, D.Poly): X.append(s.poly(x))
            elif isinstance(x, D.IPoly): X.append(s.ipoly(x))
            else: X.append(x)
        if k == 'prod': return X[0] * X[1]
        if k == 'inv': return 1.0 / X[0]
        if k == 'sqrt': return np.sqrt(X[0])
        if k == 'abs': return np.abs(X[0])
        if k == 'max': return np.maximum.reduce([s.poly(x) for x in A.args[0]])
        if k in ('sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'log10', 'floor', 'ceil', 'trunc', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'cbrt'):
            return getattr(np, k)(X[0])
        if k == 'log2f': return np.log2(X[0].astype(np.float32)).astype(float)
        if k in ('asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh'): return getattr(np, 'arc' + k[1:])(X[0])
        if k == 'round': return np.copysign(np.floor(np.abs(X[0]) + 0.5), X[0])
        if k == 'nearbyint': return np.rint(X[0])
        if k == 'pow': return np.power(X[0], X[1])
        if k == 'atan2': return np.arctan2(X[0], X[1])
        if k == 'fmod': return np.fmod(X[0], X[1])
        if k == 'hypot': return np.hypot(X[0], X[1])
        w = A.w
        M = np.uint64((1 << w) - 1) if w else None
        def sg(v, w0):
            v = v.astype(np.int64) if w0 == 64 else ((v.astype(np.int64) ^ (1 << (w0 - 1))) - (1 << (w0 - 1)))
            return v
        if k == 'sitofp': return sg(X[0], A.args[0].w).astype(float)
        if k == 'uitofp': return X[0].astype(float)
        if k == 'fptosi':
            v = np.nan_to_num(np.trunc(X[0]), nan=-2.0 ** 31, posinf=-2.0 ** 31, neginf=-2.0 ** 31)
            v = np.where(np.abs(v) >= 2.0 ** 31, -2.0 ** 31, v) if w == 32 else v
            return v.astype(np.int64).astype(np.uint64) & M
        if k == 'fptoui':
            v = np.clip(np.nan_to_num(np.trunc(X[0])), 0, 2.0 ** min(w, 53) - 1)
            return v.astype(np.uint64) & M
        if k == 'bits': return X[0].astype(np.float32).view(np.uint32).astype(np.uint64)
        if k == 'fbits': return X[0].astype(np.uint32).view(np.float32).astype(float)
        if k == 'zext': return X[0]
        if k == 'sext': return sg(X[0], A.args[0].w).astype(np.uint64) & M
        if k == 'trunc': return X[0] & M
        if k == 'lshr':
            sh = X[1] if not isinstance(X[1], int) else np.uint64(X[1])
            return X[0] >> sh if isinstance(A.args[1], int) else np.where(sh >= np.uint64(w), np.uint64(0), X[0] >> np.minimum(sh, np.uint64(63)))
        if k == 'ashr':
            sh = X[1] if not isinstance(X[1], int) else np.full(s.n, X[1])
            return (sg(X[0], w) >> np.minimum(sh.astype(np.int64), 63)).astype(np.uint64) & M
        if k == 'pow2': return np.where(X[0] < np.uint64(w), np.uint64(1) << np.minimum(X[0], np.uint64(63)), np.uint64(0))
        if k in ('and', 'or', 'xor'):
            f = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[k]
            return f.reduce([s.ipoly(x) for x in A.args[0]])
        if k in ('udiv', 'urem', 'sdiv', 'srem'):
            a, b = X
            if k[0] == 'u':
                b = np.where(b == 0, np.uint64(1), b)
                return a // b if k == 'udiv' else a % b
            a, b = sg(a, w), sg(b, w)
            b = np.where(b == 0, 1, b)
            q = (np.abs(a) // np.abs(b)) * np.sign(a) * np.sign(b)
            return (q if k == 'sdiv' else a - q * b).astype(np.uint64) & M
        if k == 'bswap':
            nb = w // 8; r = np.zeros(s.n, dtype=np.uint64)
            for j in range(nb): r |= ((X[0] >> np.uint64(8 * j)) & np.uint64(255)) << np.uint64(8 * (nb - 1 - j))
            return r
        if k == 'memcmp':
            h = len(X) // 2
            res = np.zeros(s.n, dtype=np.int64)
            for x, y, p in zip(X[:h], X[h:], A.args[:h]):
                nb = p.w // 8
                for j in range(nb):
                    bx = ((x >> np.uint64(8 * j)) & np.uint64(255)).astype(np.int64); by = ((y >> np.uint64(8 * j)) & np.uint64(255)).astype(np.int64)
                    res = np.where(res == 0, np.sign(bx - by), res)
            return res.astype(np.uint64) & M
        raise D.Unsupported('no interpretation for ' + k)
    def ipoly(s, p):
        r = s.np_.get(p)
        if r is None:
            M = np.uint64((1 << p.w) - 1)
            r = np.zeros(s.n, dtype=np.uint64)
            for m, c in p.t.items():
                x = np.full(s.n, np.uint64(c), dtype=np.uint64)
                for a, e in m:
                    for _ in range(e): x = x * s.at(a).astype(np.uint64)
                r = r + x
            r = r & M
            s.np_[p] = r
        return r
    def varv(s, vid):
        r = s.nb.get(vid)
        if r is None:
            v = D._varlist[vid]
            if v.kind == 'lt0': r = s.poly(v.args[0]) < 0
            elif v.kind == 'eq0':
                # exact up to rounding noise
                x = s.poly(v.args[0]); sc = np.zeros(s.n)
                for m, c in v.args[0].t.items():
                    t = np.full(s.n, abs(float(c)))
                    for a, e in m: t = t * np.abs(s.at(a)) ** e
                    sc = sc + t
                r = np.abs(x) <= 1e-12 * sc
            elif v.kind == 'in': r = s.bin(v)
            elif v.kind == 'ieq0': r = s.ipoly(v.args[0]) == 0
            elif v.kind == 'ult': r = s.ipoly(v.args[0]) < s.ipoly(v.args[1])
            elif v.kind == 'slt':
                w = v.args[0].w
                def sg(x): return (x.astype(np.int64) ^ (1 << (w - 1))) - (1 << (w - 1)) if w < 64 else x.astype(np.int64)
                r = sg(s.ipoly(v.args[0])) < sg(s.ipoly(v.args[1]))
            else: raise D.Unsupported('var ' + v.kind)
            s.nb[vid] = r
        return r
    def node(s, n):
        r = s.memo.get(n)
        if r is None:
            if n.leaf is not None:
                x = n.leaf
                if isinstance(x, bool): r = np.full(s.n, x)
                elif isinstance(x, D.Poly): r = s.poly(x)
                elif isinstance(x, D.IPoly): r = s.ipoly(x)
                else: raise D.Unsupported('leaf')
            else:
                c = s.varv(n.v)
                r = np.where(c, s.node(n.hi), s.node(n.lo))
            s.memo[n] = r
        return r

    def taint(s, n):
        """points at which a real predicate on the selected path has no finite value (division by zero)"""
        if n.leaf is not None: return False
        r = s.tm.get(n)
        if r is None:
            v = D._varlist[n.v]; c = s.varv(n.v)
            hi, lo = s.taint(n.hi), s.taint(n.lo)
            r = np.where(c, hi, lo)
            if v.kind in ('lt0', 'eq0'): r = r | ~np.isfinite(s.poly(v.args[0]))
            s.tm[n] = r
        return r

def support(*nodes):
    seen = set(); vs = set(); st = []
    for n in nodes: st += n if isinstance(n, tuple) else [n]
    while st:
        n = st.pop()
        if n in seen or n.leaf is not None: continue
        seen.add(n); vs.add(n.v); st.append(n.hi); st.append(n.lo)
    return vs

def _noise(E, vs):
    """points at which some real predicate is decided within rounding noise"""
    bad = np.zeros(E.n, bool)
    for vid in vs:
        v = D._varlist[vid]
        if v.kind not in ('lt0', 'eq0'): continue
        x = E.poly(v.args[0]); sc = np.zeros(E.n)
        for m, c in v.args[0].t.items():
            t = np.full(E.n, abs(float(c)))
            for a, e in m: t = t * np.abs(E.at(a)) ** e
            sc = sc + t
        bad |= ~(np.abs(x) > 1e-11 * sc)
    return bad

def _compare(E, a, b, assume, tol):
    if isinstance(b, tuple):
        rs = [_compare(E, a, bb, assume, tol) for bb in b]
        bad = rs[0][2]
        for r in rs[1:]: bad = bad & r[2]
        return rs[0][0], rs[0][1], bad, rs[0][3]
    x, y = E.node(a), E.node(b)
    ok = np.ones(E.n, bool)
    if assume is not None: ok &= E.node(assume)
    ok &= ~E.invalid
    Z0 = np.zeros(E.n, bool); ta, tb = Z0 | E.taint(a), Z0 | E.taint(b)
    if np.count_nonzero(ta) <= E.n // 20 + np.count_nonzero(tb): ok &= ~(ta | tb)
    if x.dtype == np.float64 or y.dtype == np.float64:
        x = x.astype(float); y = y.astype(float)
        fx, fy = np.isfinite(x), np.isfinite(y)
        d = np.abs(x - y) > tol * (np.maximum(np.abs(x), np.abs(y)) + E.floor)
        big = (np.abs(x) > 1e12) & (np.abs(y) > 1e12)
        bad = (fx & fy & d & ~big)
        nbad = np.count_nonzero((fx != fy) & ok)
        if nbad > E.n // 20: bad |= (fx != fy)
    else:
        bad = x != y
    return x, y, bad & ok, ok

def _witness(E, x, y, bad, ok):
    idx = np.nonzero(bad)[0]
    i = idx[len(idx) // 2]
    w = {nm: v[i].item() for nm, v in E.inp.items() if nm[0] != '='}
    return {'inputs': w, 'got': x[i].item(), 'want': y[i].item(), 'fraction': len(idx) / max(1, np.count_nonzero(ok))}

def boundary(a, b, assume, ranges, seed, tol, need, maxvars=40):
    """look next to the switching surfaces of the predicates of either term"""
    sa, sb = support(a), support(b); bs = b if isinstance(b, tuple) else (b,)
    vs = sorted(sa ^ sb) or sorted(sa | sb)
    vs = [v for v in vs if D._varlist[v].kind == 'lt0'][:maxvars]
    allv = sa | sb | (support(assume) if assume is not None else set())
    for vid in vs:
        p = D._varlist[vid].args[0]
        E0 = Env(seed + 11, ranges)
        E0.poly(p); E0.node(a)
        for bb in bs: E0.node(bb)
        if assume is not None: E0.node(assume)
        base = {k: v for k, v in E0.inp.items()}
        fl = [k for k, v in base.items() if v.dtype == np.float64]
        if not fl: continue
        f0 = E0.poly(p)
        perm = np.random.default_rng(seed).permutation(E0.n)
        other = {k: (base[k][perm] if k in fl else base[k]) for k in base}
        def at(t):
            E = Env(seed, ranges); E.inp = {k: (base[k] * (1 - t) + other[k] * t if k in fl else base[k]) for k in base}
            return E
        f1 = at(np.ones(E0.n)).poly(p)
        sel = (np.sign(f0) * np.sign(f1) < 0) & np.isfinite(f0) & np.isfinite(f1)
        if not sel.any(): continue
        lo = np.zeros(E0.n); hi = np.ones(E0.n)
        for _ in range(52):
            mid = (lo + hi) / 2
            fm = at(mid).poly(p)
            same = np.sign(fm) == np.sign(f0)
            lo = np.where(same, mid, lo); hi = np.where(same, hi, mid)
        for eps in (1e-2, 1e-4, 1e-6, 1e-7, 1e-8):
            for sgn in (1, -1):
                E = at(np.clip(lo + sgn * eps, 0, 1)); E.floor = 1e-3
                x, y, bad, ok = _compare(E, a, b, assume, tol)
                bad &= sel
                if np.count_nonzero(bad) < need: continue
                bad &= ~_noise(E, allv)
                if np.count_nonzero(bad) >= need: return _witness(E, x, y, bad, ok)
    return None

def scaled(ranges, k):
    """inputs shrunk to a common small magnitude (separates thresholds)"""
    class S(Env):
        def fin(s, A):
            fresh = A.args[0] not in s.inp
            v = Env.fin(s, A)
            if fresh and s.ranges.get(A.args[0]) is None:
                g = s._r('scale').uniform(-9, 3, s.n)
                v = v * 10.0 ** g; s.inp[A.args[0]] = v
            return v
    return S

def tied(mode):
    """inputs that agree with the same component of the other arguments (0), or with the other components (1), more often than not"""
    class S(Env):
        def tie(s, A, v):
            nm = A.args[0]
            if '.' not in nm: return v
            key = nm.split('.', 1)[1 - mode] if mode == 0 else nm.rsplit('.', 1)[0]
            r = s._r('tie' + nm); p = np.repeat([0.5, 0.8, 0.9, 0.97], (s.n + 3) // 4)[:s.n]
            sh = s.inp.get('=' + key)
            if sh is None: s.inp['=' + key] = sh = v
            v = np.where(r.random(s.n) < p, sh, v); s.inp[nm] = v
            return v
        def fin(s, A):
            if A.args[0] in s.inp or A.pos or A.nonneg or A.args[0].startswith('unit_') or s.limited(A.args[0]): return Env.fin(s, A)
            return s.tie(A, Env.fin(s, A))
        def iin(s, A):
            if A.args[0] in s.inp or s.limited(A.args[0]): return Env.iin(s, A)
            return s.tie(A, Env.iin(s, A)) if A.w == 32 else Env.iin(s, A)
        def limited(s, nm): return nm in s.ranges or any(k.endswith('*') and nm.startswith(k[:-1]) for k in s.ranges)
    return S

def discriminate(a, b, assume=None, ranges=None, seed=1, tol=1e-4, need=2):
    """None if no evaluation point separates the two terms, else a witness dict"""
    with np.errstate(all='ignore'):
        for k in range(3):
            E = Env(seed + k, ranges)
            x, y, bad, ok = _compare(E, a, b, assume, tol)
            if np.count_nonzero(bad) >= need: return _witness(E, x, y, bad, ok)
        for k in (0, 1):
            E = tied(k)(seed + 5, ranges)
            x, y, bad, ok = _compare(E, a, b, assume, tol)
            if np.count_nonzero(bad) >= need: return _witness(E, x, y, bad, ok)
        E = scaled(ranges, 0)(seed + 7, ranges); E.floor = 1e-30
        try: 
            x, y, bad, ok = _compare(E, a, b, assume, max(tol, 1e-3))
            if np.count_nonzero(bad) >= need:
                bad &= ~_noise(E, support(a, b))
                if x.dtype == np.float64: bad &= (np.maximum(np.abs(x), np.abs(y)) > 1e-12)
                if np.count_nonzero(bad) >= max(need, 5): return _witness(E, x, y, bad, ok)
        except FloatingPointError: pass
        return boundary(a, b, assume, ranges, seed, tol, need)
