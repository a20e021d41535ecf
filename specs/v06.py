"""Logarithm, exponential, power, sine and cosine of vectors are computed by polynomials within a bounded error."""
from .lib import *
import numpy as np
from engine import ir
EXPLAIN = ('Range analysis of the compiled approximations: the whole domain of the argument is divided into ranges; for each range, lane and instruction set every value of the function is enclosed in an interval together '
           'with its derivative, the bits of floating-point numbers are followed symbolically through extraction and insertion of exponents and signs, and the distance to the mathematical function is bounded with the mean value form; '
           'ranges whose bound is too wide are halved. Special values (zero, infinities, not-a-number, outside of the range) follow by constant propagation. No code of the library is executed.')
ASSUME = ['the bounds are for real arithmetic with the written coefficients; accumulated rounding of the operations is not part of them']
SRC = '''using namespace math;
extern "C" {
void P_log(const f32x4* v, f32x4* o) { *o = log(*v); }
void P_exp(const f32x4* v, f32x4* o) { *o = exp(*v); }
void P_fastPow(const f32x4* v, const f32x4* e, f32x4* o) { *o = fastPow(*v, *e); }
void P_fastGamma(const f32x4* v, f32x4* o) { *o = fastGammaCorrection(*v); }
void P_fastGammaBy(const f32x4* v, const f32x4* e, f32x4* o) { *o = fastGammaCorrection(*v, e->getX()); }
void P_sinCos(const f32x4* v, f32x4* o) { sinCos(*v, o[0], o[1]); }
}
'''
f32 = np.float32
def floats_below(hi): return np.nextafter(hi.astype(f32), f32(-np.inf)).astype(float)
def cut(edges):
    """ranges of floats between the edges: both ends belong to the range, none to two"""
    e = np.array(edges, dtype=f32); return e[:-1].astype(float), floats_below(e[1:])
def grid(a, b, n): return cut(np.unique(np.linspace(a, b, n + 1).astype(f32)))
def logs():
    e = [2.0 ** k * m for k in range(-126, 128) for m in (1, 1.125, 1.25, 1.3333, 1.3334, 1.5, 1.75)]
    d = [2.0 ** k for k in range(-149, -126)]
    return cut(d + e + [float(np.finfo(f32).max)])
def rel(r, o, inv): return r.sub(r.mul(o, inv), r.cf(1.0))
def FRx(r, c, lo, hi, dl, dh):
    from engine.ranges import FR
    return FR(c, lo, hi, dl, dh)
def d_log(r, o):
    x = r.x; return r.sub(o, FRx(r, np.log(x.c), np.log(x.lo), np.log(x.hi), 1 / x.hi, 1 / x.lo))
def d_exp(r, o):
    x = r.x; f = lambda v: np.exp(-v)
    return rel(r, o, FRx(r, f(x.c), f(x.hi), f(x.lo), -f(x.lo), -f(x.hi)))
def d_pow(e, sgn):
    def d(r, o):
        x = r.x; A = np.abs
        f = lambda v: A(v) ** -e * sgn
        g = lambda v: -e * A(v) ** (-e - 1) * sgn * np.sign(v)
        lo, hi = np.minimum(f(x.lo), f(x.hi)), np.maximum(f(x.lo), f(x.hi)); dl, dh = np.minimum(g(x.lo), g(x.hi)), np.maximum(g(x.lo), g(x.hi))
        return rel(r, o, FRx(r, f(x.c), lo, hi, dl, dh))
    return d
def wave(fn, dfn):
    def d(r, o):
        x = r.x; w = x.hi - x.lo
        def rng(f):          # both functions change by at most the width of the range
            m = f(x.c); return np.maximum(m - w / 2, -1), np.minimum(m + w / 2, 1)
        lo, hi = rng(fn); dl, dh = rng(dfn)
        return r.sub(o, FRx(r, fn(x.c), lo, hi, dl, dh))
    return d
def away(v):
    """results are this constant exactly"""
    def d(r, o):
        from engine.ranges import FR
        e = np.where((o.lo == v) & (o.hi == v), 0.0, np.where(np.isnan(o.lo), np.nan, np.inf)); z = np.zeros(r.n)
        return FR(e, e, e, z, z)
    return d
def tasks(tier):
    T = []
    deep = tier != 'quick'
    T.append(('log', 'P_log', 0, {}, 1, 0, logs(), d_log, 1e-6, 'the natural logarithm, absolute error 1e-6'))
    T.append(('exp', 'P_exp', 0, {}, 1, 0, grid(-103.99, 103.99, 4000), d_exp, 1e-6, 'the exponential function, relative error 1e-6'))
    T.append(('exp_small', 'P_exp', 0, {}, 1, 0, cut([-3e38, -1e20, -1e9, -1e5, -1000, -150, -104.01]), away(0.0), 0, 'zero below -104'))
    T.append(('exp_large', 'P_exp', 0, {}, 1, 0, cut([104.01, 150, 1000, 1e5, 1e9, 1e20, 3e38]), away(np.inf), 0, 'infinity above 104'))
    span = 256 if not deep else 2048
    w = [grid(-span, span, span * 32)] + [grid(a, a + 8, 256) for a in (1000, 3000, 8180, -5000)]
    pcs = tuple(np.concatenate(z) for z in zip(*w))
    T.append(('sin', 'P_sinCos', 0, {}, 1, 0, pcs, wave(np.sin, np.cos), 1e-6, 'the sine, absolute error 1e-6'))
    T.append(('cos', 'P_sinCos', 0, {}, 1, 4, pcs, wave(np.cos, lambda v: -np.sin(v)), 1e-6, 'the cosine, absolute error 1e-6'))
    ex = [2.0, 3.0, 4.0, -2.0, -1.0, -3.0, 0.5, 1 / 2.2, 2.4, -0.75, 5.0, 1.0] + ([7.0, 6.0, 0.25, 2.2, 1.5, 8.0] if deep else [])
    pos = cut(np.unique(np.geomspace(1e-4, 1e4, 1200).astype(f32))); neg = (-pos[1][::-1], -pos[0][::-1])
    for e in ex:
        e = float(f32(e)); T.append(('fastPow_%g' % e, 'P_fastPow', 0, {1: e}, 2, 0, pos, d_pow(e, 1.0), 1e-5, 'the base to the power of %g, relative error 1e-5' % e))
        if e == int(e): T.append(('fastPow_negative_%g' % e, 'P_fastPow', 0, {1: e}, 2, 0, neg, d_pow(e, -1.0 if e % 2 else 1.0), 1e-5, 'the negative base to the power of %g, relative error 1e-5' % e))
    g = 1 / float(f32(2.2))
    T.append(('fastGamma', 'P_fastGamma', 0, {}, 1, 0, pos, d_pow(g, 1.0), 1e-5, 'the colour to the power of 1/2.2, relative error 1e-5'))
    T.append(('fastGammaBy', 'P_fastGammaBy', 0, {1: float(f32(0.4))}, 2, 0, pos, d_pow(float(f32(0.4)), 1.0), 1e-5, 'the colour to the power of 0.4, relative error 1e-5'))
    return T
INF, NAN = float('inf'), float('nan')
SPECIAL = [('P_log', (0.0,), 0, -INF), ('P_log', (-0.0,), 0, -INF), ('P_log', (-1.0,), 0, NAN), ('P_log', (-INF,), 0, NAN), ('P_log', (INF,), 0, INF), ('P_log', (NAN,), 0, NAN), ('P_log', (1.0,), 0, 0.0),
           ('P_exp', (0.0,), 0, 1.0), ('P_exp', (-0.0,), 0, 1.0), ('P_exp', (-INF,), 0, 0.0), ('P_exp', (INF,), 0, INF), ('P_exp', (-1e30,), 0, 0.0), ('P_exp', (1e30,), 0, INF), ('P_exp', (-200.0,), 0, 0.0), ('P_exp', (200.0,), 0, INF),
           ('P_fastPow', (2.0, 0.0), 0, 1.0), ('P_fastPow', (0.0, 0.0), 0, 1.0), ('P_fastPow', (-3.0, 0.0), 0, 1.0), ('P_fastPow', (0.0, 2.0), 0, 0.0), ('P_fastPow', (0.0, 0.5), 0, 0.0), ('P_fastPow', (1.0, 1000.0), 0, 1.0),
           ('P_fastPow', (-1.0, 3.0), 0, -1.0), ('P_fastPow', (-1.0, 4.0), 0, 1.0), ('P_fastPow', (-1.0, -3.0), 0, -1.0),
           ('P_fastGamma', (0.0,), 0, 0.0), ('P_fastGamma', (1.0,), 0, 1.0), ('P_sinCos', (0.0,), 0, 0.0), ('P_sinCos', (0.0,), 4, 1.0), ('P_sinCos', (-0.0,), 4, 1.0)]
def decide(mod, t, lane, budget=16):
    """halve the ranges until the bound holds; a range whose middle is outside by twice the bound is a violation"""
    from engine import ranges as R
    name, fn, arg, consts, oarg, k0, (lo, hi), dist, tol, what = t
    fname = '@' + fn if '@' + fn in mod.funcs else fn
    lanes = {(arg, lane): 'x'}; lanes.update({(a, 0 if fn == 'P_fastGammaBy' else lane): v for a, v in consts.items()})
    n = len(lo); src = np.arange(n); wit = None; worst = 0.0; stuck = 0
    for depth in range(budget):
        nl, nh, ns = [], [], []; known = False
        for a in range(0, len(lo), 60000):
            r = R.Ranges(mod, fname, lanes).run(lo[a:a + 60000], hi[a:a + 60000]); o = r.out(oarg, k0 + lane)
            d = dist(r, o)
            b = np.maximum(np.abs(d.lo), np.abs(d.hi)); good = b <= tol; known |= bool(np.isfinite(b).any())
            worst = max(worst, float(np.max(np.where(good, b, 0), initial=0)))
            bad = (~r.forked) & ((np.abs(d.c) > 2 * tol) & np.isfinite(d.c) | np.isinf(d.c))
            for row in np.unique(r.row[bad])[:8]:
                x = f32(r.x.c[r.row == row][0]).astype(float)
                p = R.Ranges(mod, fname, lanes).run([x], [x]); q = dist(p, p.out(oarg, k0 + lane))
                if p.n == 1 and not p.forked.any() and (abs(q.c[0]) > 2 * tol): wit = wit or (x, float(p.out(oarg, k0 + lane).c[0]), float(q.c[0]))
            fail = np.zeros(len(lo[a:a + 60000]), bool); np.logical_or.at(fail, r.row, ~good)
            if wit: break
            nl.append(lo[a:a + 60000][fail]); nh.append(hi[a:a + 60000][fail]); ns.append(src[a:a + 60000][fail])
        if wit: return n, 0, wit, worst
        lo, hi, src = np.concatenate(nl), np.concatenate(nh), np.concatenate(ns)
        if not len(lo): return n, n, None, worst
        if depth == 3 and len(np.unique(src)) == n:        # nothing is bounded: the values of single arguments decide
            wit = points(mod, t, lane, lo, hi)
            if wit: return n, 0, wit, worst
        stuck += not known
        if len(lo) > 400000 or stuck > 2: break
        mid = np.maximum(((lo + hi) / 2).astype(f32), np.nextafter(lo.astype(f32), f32(np.inf))).astype(float); left = np.nextafter(mid.astype(f32), f32(-np.inf)).astype(float)
        split = (left >= lo) & (mid <= hi) & (mid > lo)
        keep = ~split
        lo, hi, src = np.concatenate([lo[split], mid[split], lo[keep]]), np.concatenate([left[split], hi[split], hi[keep]]), np.concatenate([src[split], src[split], src[keep]])
        if keep.all(): break
    wit = points(mod, t, lane, lo, hi)
    if wit: return n, 0, wit, worst
    return n, n - len(np.unique(src)), None, worst
def points(mod, t, lane, lo, hi, most=60):
    """arguments out of the ranges that are not bounded, followed by constant propagation: an error no rounding explains is a violation"""
    from engine import ranges as R
    name, fn, arg, consts, oarg, k0, _, dist, tol, what = t
    for j in np.unique(np.linspace(0, len(lo) - 1, most).astype(int)):
        x = float(f32((lo[j] + hi[j]) / 2)); args = []
        for a in range(oarg): args.append([0.7 + l for l in range(4)])
        args[arg][lane] = x
        for a, v in consts.items(): args[a][0 if fn == 'P_fastPowBy' or fn == 'P_fastGammaBy' else lane] = v
        try: g = R.Fold(mod, '@' + fn, args).run().out(oarg, k0 + lane)
        except (R.Stuck, KeyError, TypeError, ir.ParseError): return None
        z = np.zeros(1); r = R.Ranges(mod, '@' + fn, {}); r.n = 1; r.rad = z; r.x = R.FR(z + x, z + x, z + x, z + 1, z + 1)
        at = lambda v: float(dist(r, R.FR(z + v, z + v, z + v, z, z)).c[0])
        g = float(g); d = at(g)
        if tol and fn != 'P_log' and fn != 'P_sinCos':        # relative: results too small or too large for the format say nothing
            inv = 1 + at(1.0)
            if not 1e-38 < abs(inv) < 1e36: continue
        if not abs(d) <= 1e-3: return x, g, d
def job(a):
    path, cfg, i, lane, tier = a
    from engine import ir, ranges as R
    mod = _mod(path); t = tasks(tier)[i]
    try: return (t[0], t[1], cfg, lane, t[-1], decide(mod, t, lane), None)
    except (R.Stuck, ir.ParseError, KeyError, TypeError) as e: return (t[0], t[1], cfg, lane, t[-1], (len(t[6][0]), 0, None, 0.0), '%s: %s' % (type(e).__name__, e))
_mods = {}
def _mod(path):
    from engine import ir
    if path not in _mods: _mods[path] = ir.parse_module(open(path).read())
    return _mods[path]
def special(path, cfg):
    from engine import ranges as R, ir
    mod = _mod(path); out = []
    for fn, vals, k0, want in SPECIAL:
        for lane in range(3 if 'Gamma' in fn else 4):
            args = [[v] * 4 for v in vals]
            for l in range(4):
                if l != lane:
                    for q in args: q[l] = 0.7 + l
            nm = '%s_at_%s' % (fn[2:], '_'.join('%g' % v for v in vals)) + ('_second' if k0 else '')
            try:
                r = R.Fold(mod, '@' + fn, args).run(); g = r.out(len(vals), k0 + lane)
                same = (g != g) if want != want else (g == want if abs(want) == INF or want == 0 else abs(g - want) <= 1e-6)
                out.append((nm, lane, same, g, want, None))
            except (R.Stuck, ir.ParseError, KeyError, TypeError) as e: out.append((nm, lane, None, None, want, '%s: %s' % (type(e).__name__, e)))
    return out
def run(scratch, tier):
    import multiprocessing as mp
    from engine import probe as P
    from engine.ir import Dbg
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    cfgs = ('sse2', 'sse41', 'avx2', 'neon', 'scalar') + (('sse2-O1', 'avx2-O3', 'neon-O3') if tier != 'quick' else ())
    inc = '#include "math/simd/vector/float.hpp"\n#include "math/tone-mapping.hpp"\n#define NOMINMAX\n'
    paths = {c: P.compile_ir(inc + SRC, c, 'v06', workdir=scratch) for c in cfgs}
    T = range(len(tasks(tier)))
    jobs = [(paths[c], c, i, lane, tier) for i in T for c in cfgs for lane in range(3 if 'Gamma' in tasks(tier)[i][1] else 4)]
    with mp.get_context('fork').Pool(8) as pool: out = pool.map(job, jobs, chunksize=1)
    worst = {}
    lines = {}
    for c in cfgs:
        mod = _mod(paths[c]); dbg = Dbg(mod)
        for fn in ('P_log', 'P_exp', 'P_fastPow', 'P_sinCos', 'P_fastGamma', 'P_fastGammaBy'): lines[(c, fn)] = P.slice_lines(mod, '@' + fn, dbg); res['reach'].update(lines[(c, fn)])
    for name, fn, cfg, lane, what, (n, good, wit, w), err in out:
        res['obligations'] += n; res['discharged'] += good; worst[name] = max(worst.get(name, 0.0), w)
        if wit: res['violations'].append({'probe': name, 'cfg': cfg, 'slot': 'lane %d' % lane, 'got': 'the value %g at %.9g, off by %g' % (wit[1], wit[0], wit[2]), 'want': what, 'what': fn[2:] + '(v)', 'slice': lines[(cfg, fn)], 'witness': {'v': wit[0]}})
        elif good < n: res['undecided'].append({'probe': name, 'cfg': cfg, 'slot': 'lane %d' % lane, 'why': err or '%d of %d ranges could not be bounded' % (n - good, n)})
    for c in cfgs:
        for nm, lane, same, g, want, err in special(paths[c], c):
            res['obligations'] += 1
            if same: res['discharged'] += 1
            elif same is None: res['undecided'].append({'probe': nm, 'cfg': c, 'slot': 'lane %d' % lane, 'why': err})
            else: res['violations'].append({'probe': nm, 'cfg': c, 'slot': 'lane %d' % lane, 'got': '%g' % g, 'want': '%g' % want, 'what': 'special value', 'slice': lines[(c, 'P_' + nm.split('_')[0])], 'witness': nm})
    res['summary'] = {'largest_bound_accepted': {k: float('%.3g' % v) for k, v in sorted(worst.items())}, 'ranges': res['obligations']}
    return res
def build():
    p = Prop('V06', ['math/simd/vector/float.hpp'], 'Approximated functions')
    p.extra = [run]
    return p
