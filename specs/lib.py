"""shared specification vocabulary: component-wise mathematical definitions"""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.probe import *
from engine import dom as D
from fractions import Fraction as Q

TRUE32 = iconst(32, -1)
FALSE32 = iconst(32, 0)
def mask(c): return ite(c, TRUE32, FALSE32)
C = lift
def f32c(x): return leaf(snap(f32(float(x)))) if not isinstance(x, int) else lift(x)
from engine.dom import f32
INF = leaf(D.pa(D._infatom())) if hasattr(D, '_infatom') else None
PI = leaf(D.pa(D.atom('pi')))

def fsum(xs):
    r = None
    for x in xs: r = x if r is None else r + x
    return r
def dot(a, b): return fsum([x * y for x, y in zip(a, b)])
def lensq(a): return dot(a, a)
def length(a): return fsqrt(lensq(a))
def sub(a, b): return Vec([x - y for x, y in zip(a, b)])
def add(a, b): return Vec([x + y for x, y in zip(a, b)])
def scale(a, k): return Vec([x * k for x in a])
def cross(a, b): return Vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
def normalize(a):
    l = length(a)
    return Vec([x / l for x in a])
def isneg(x): return flt(x, lift(0))
def sign(x): return ite(isneg(x), lift(-1), lift(1))
def msb(m): return ilt(m, iconst(32, 0), True)      # sign bit of a 32-bit mask lane
def libm(n): return lambda x: fn1(n, x)
def libm2(n): return lambda x, y: fn2(n, x, y)
def fmod(x, y): return fn2('fmod', x, y)
def repeat(v):
    return ite(flt(v, lift(0)), lift(1) - fmod(lift(0) - v, lift(1)), ite(fle(lift(1), v), fmod(v, lift(1)), v))
def repeat_any(v):
    fl = lambda x: x - fn1('floor', x)
    return Alt(repeat(v), ite(flt(v, lift(0)), lift(1) - fl(lift(0) - v), ite(fle(lift(1), v), fl(v), v)))
def gain(x, k):
    lo = flt(x, lift(Q(1, 2)))
    a = lift(Q(1, 2)) * fn2('pow', lift(2) * ite(lo, x, lift(1) - x), k)
    return ite(lo, a, lift(1) - a)
XYZW = 'xyzw'
def fv(n): return 'float%d' % n
def uv(n): return 'uint%d' % n
def iv(n): return 'int%d' % n
ARITH = [('add', '+', fadd), ('sub', '-', fsub), ('mul', '*', fmul), ('div', '/', fdiv)]
CMPS = [('lt', '<', lambda a, b: flt(a, b)), ('gt', '>', lambda a, b: flt(b, a)), ('le', '<=', lambda a, b: fle(a, b)), ('ge', '>=', lambda a, b: fle(b, a))]
def each(f, *vs): return Vec([f(*t) for t in zip(*vs)])
def bcast(f, v, s): return Vec([f(x, s) for x in v])
def matmul(A, B, n):
    """column-major n x n"""
    return [fsum([A[k * n + r] * B[c * n + k] for k in range(n)]) for c in range(n) for r in range(n)]

def build_witness(p, cases, std=None):
    """cases: (name, code, must_build, what). A program that has to be rejected must fail to compile, one that has to be accepted must compile."""
    import subprocess
    from engine import probe as P
    def run(scratch, tier):
        res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': []}
        head = ''.join('#include <%s>\n' % i for i in (std or ('cstdint', 'cstdlib', 'cassert', 'vector'))) + ''.join('#include "%s"\n' % i for i in p.includes) + 'using namespace math;\n'
        def ok(code):
            f = os.path.join(scratch, 'w.cpp'); open(f, 'w').write(head + code)
            r = subprocess.run(['clang++-18', '-std=c++17', '-D_USE_MATH_DEFINES', '-march=haswell', '-Wno-everything', '-fsyntax-only', '-I' + P.REPO + '/include', '-I' + P.HERE + '/engine/include', f], capture_output=True, text=True)
            return r.returncode == 0, r.stderr
        base, err = ok('')
        for nm, code, must, what in cases:
            res['obligations'] += 1
            if not base: res['undecided'].append({'probe': nm, 'cfg': '', 'slot': '*', 'why': 'the headers alone do not compile: ' + err[:300]}); continue
            good, err2 = ok(code)
            if good == must: res['discharged'] += 1
            else: res['violations'].append({'probe': nm, 'cfg': 'front end', 'slot': 'type check', 'got': 'accepted' if good else 'rejected: ' + err2[:300], 'want': 'accepted' if must else 'rejected', 'what': what, 'witness': code})
        res['summary'] = '%d build witnesses' % res['obligations']
        return res
    p.extra.append(run)

def isumi(xs):
    r = xs[0]
    for x in xs[1:]: r = iadd(r, x)
    return r

def witness_lines(scratch, tag, includes, cases, compilers, pre='', what=None):
    """cases: (name, declaration on one line, what). Every declaration has to be accepted by every front end; each stands on its own line, so a rejection names the ones at fault."""
    import subprocess, concurrent.futures as cf
    from engine import probe as P
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    head = pre + ''.join('#include "%s"\n' % i for i in includes)
    first = head.count('\n') + 1
    f = os.path.join(scratch, tag + '.cpp'); open(f, 'w').write(head + ''.join(c[1] + '\n' for c in cases))
    def one(c):
        nm, cmd = c
        r = subprocess.run(cmd + ['-I' + P.REPO + '/include', '-fsyntax-only', '-w', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return nm, r.returncode, r.stderr
    with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(one, compilers))
    for nm, rc, err in out:
        res['obligations'] += len(cases); bad = {}
        for l in err.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: (fatal )?error: (.*)', l)
            if m and m[1] == f and int(m[2]) >= first: bad.setdefault(int(m[2]) - first, m[4])
        if rc and not bad: res['undecided'].append({'probe': tag, 'cfg': nm, 'slot': '*', 'why': 'the headers do not compile: ' + err[:300]}); continue
        res['discharged'] += len(cases) - len(bad)
        for k, why in sorted(bad.items()):
            n, code, wh = cases[k]
            if not any(v['probe'] == n for v in res['violations']): res['violations'].append({'probe': n, 'cfg': nm, 'slot': 'type check', 'got': 'rejected: ' + why, 'want': 'accepted', 'what': wh, 'slice': [code], 'witness': code})
    return res
def front_ends(std=('17', '20'), flags=(('sse2', []), ('avx2', ['-march=haswell']))):
    from engine import probe as P
    r = []
    for s in std:
        for n, fl in flags:
            r.append(('clang %s c++%s' % (n, s), ['clang++-18', '-std=c++' + s, '-D_USE_MATH_DEFINES', '-ferror-limit=0'] + fl))
            r.append(('gcc %s c++%s' % (n, s), ['g++', '-std=c++' + s, '-D_USE_MATH_DEFINES', '-fmax-errors=0'] + fl))
    r.append(('clang neon c++17', ['clang++-18', '-std=c++17', '-D_USE_MATH_DEFINES', '-ferror-limit=0'] + P.CONFIGS['neon']))
    return r
def merge(*rs):
    o = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    for r in rs:
        for k in ('obligations', 'discharged'): o[k] += r[k]
        for k in ('violations', 'undecided'): o[k] += r[k]
        o['reach'] |= set(r.get('reach', ())); o['summary'].update(r['summary'] if isinstance(r.get('summary'), dict) else {})
    return o
