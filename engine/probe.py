"""Obligations, probe translation units, compilation to IR and the checker."""
import os, re, signal, subprocess, sys, time, tempfile, hashlib, multiprocessing as mp, json, traceback, resource
from . import dom as D
from .dom import *
from .ir import parse_module, Dbg, ParseError, instrs, I
from .absint import Interp, Mem, leaf_int, Stop
from . import guard, feas, bits

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---- types -------------------------------------------------------------------
class T:
    def __init__(s, cpp, cells, size=None):
        s.cpp, s.cells = cpp, cells
        s.size = size or (cells[-1][0] + {'f': 4, 'i': 4, 'u': 4, 'b': 1, 'c': 1, 'q': 8, 'h': 2}[cells[-1][1]])
def F(n, names='xyzw'): return [(4 * i, 'f', names[i]) for i in range(n)]
def U(n, k, names='xyzw'): return [(4 * i, k, names[i]) for i in range(n)]
TYPES = {
 'float': T('float', [(0, 'f', '')]), 'uint32': T('uint32', [(0, 'i', '')]), 'int32': T('int32', [(0, 'i', '')]),
 'bool': T('bool', [(0, 'b', '')]), 'uint8': T('uint8', [(0, 'c', '')]), 'psize': T('psize', [(0, 'q', '')]),
 'uint16': T('uint16', [(0, 'h', '')]), 'uint64': T('uint64', [(0, 'q', '')]), 'int64': T('int64', [(0, 'q', '')]),
}
for n in (2, 3, 4):
    TYPES['float%d' % n] = T('float%d' % n, F(n))
    TYPES['uint%d' % n] = T('uint%d' % n, U(n, 'i'))
    TYPES['int%d' % n] = T('int%d' % n, U(n, 'i'))
TYPES['f32x4'] = T('f32x4', F(4)); TYPES['u32x4'] = T('u32x4', U(4, 'i')); TYPES['i32x4'] = T('i32x4', U(4, 'i'))
TYPES['quat'] = T('quat', F(4))
def M(c, r, stride): return [(4 * (stride * i + j), 'f', 'c%d.%s' % (i, 'xyzw'[j])) for i in range(c) for j in range(r)]
for c in (2, 3, 4):
    TYPES['float%dx%d' % (c, c)] = T('float%dx%d' % (c, c), M(c, c, c))
TYPES['float4x3'] = T('float4x3', M(4, 3, 3))
TYPES['f32x4x4'] = T('f32x4x4', M(4, 4, 4))
for n, k in (('arr4', 4), ('arr8', 8), ('arr9', 9), ('arr16', 16), ('arr3', 3), ('arr2', 2), ('arr12', 12), ('arr6', 6), ('arr1', 1), ('arr27', 27), ('arr32', 32), ('arr24', 24), ('arr36', 36), ('arr64', 64), ('arr5', 5), ('arr25', 25)):
    TYPES[n] = T('Arr<%d>' % k, [(4 * i, 'f', str(i)) for i in range(k)])
for k in (1, 2, 3, 4, 6, 8, 12, 16, 32, 64):
    TYPES['uarr%d' % k] = T('UArr<%d>' % k, [(4 * i, 'i', str(i)) for i in range(k)])
    TYPES['barr%d' % k] = T('BArr<%d>' % k, [(i, 'b', str(i)) for i in range(k)])
for k in (4, 5, 7, 11, 16, 32): TYPES['carr%d' % k] = T('CArr<%d>' % k, [(i, 'c', str(i)) for i in range(k)])
TYPES['Color'] = T('Color', [(i, 'c', 'rgba'[i]) for i in range(4)])

def V(off, k, nm): return [(off + 4 * i, k, nm + '.' + 'xyzw'[i]) for i in range(4)]
TYPES['Aabb'] = T('Aabb', V(0, 'f', 'min') + V(16, 'f', 'max'))
TYPES['Plane'] = T('Plane', [(0, 'f', 'n.x'), (4, 'f', 'n.y'), (8, 'f', 'n.z'), (12, 'f', 'd')])
TYPES['Sphere'] = T('Sphere', [(0, 'f', 'c.x'), (4, 'f', 'c.y'), (8, 'f', 'c.z'), (12, 'f', 'r')])
TYPES['Line'] = T('Line', V(0, 'f', 'start') + V(16, 'f', 'end'))
TYPES['Triangle'] = T('Triangle', V(0, 'f', 'p0') + V(16, 'f', 'p1') + V(32, 'f', 'p2'))
TYPES['Ray'] = T('Ray', V(0, 'f', 'd') + V(16, 'i', 'par') + V(32, 'f', 'o'))

STDINC = ('cmath', 'cassert', 'cstdlib', 'cstdint', 'cstring', 'string', 'vector', 'algorithm', 'random', 'limits')
PRELUDE = '''%(std)s
%(pre)s
%(includes)s
using namespace math;
template<int N> struct Arr { float v[N]; float& operator[](int i){return v[i];} float operator[](int i)const{return v[i];} };
template<int N> struct UArr { uint32_t v[N]; uint32_t& operator[](int i){return v[i];} uint32_t operator[](int i)const{return v[i];} };
template<int N> struct BArr { bool v[N]; bool& operator[](int i){return v[i];} bool operator[](int i)const{return v[i];} };
'''

CONFIGS = {
 'sse2': ['--target=x86_64-linux-gnu'],
 'sse41': ['--target=x86_64-linux-gnu', '-msse4.1'],
 'avx2': ['--target=x86_64-linux-gnu', '-march=haswell'],
 'neon': ['--target=aarch64-linux-gnu', '-nostdinc++', '-isystem', HERE + '/shim', '-isystem', '/usr/include/c++/13',
          '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu'],
}
for _c, _o in (('sse2', '-O1'), ('sse41', '-O3'), ('avx2', '-O1'), ('avx2', '-O3'), ('neon', '-O3'), ('sse2', '-Oz')):
    CONFIGS[_c + _o] = CONFIGS[_c] + [_o]
CONFIGS['scalar'] = CONFIGS['neon'] + ['-U__aarch64__', '-D__arm__=1']        # the branches for targets without SIMD instructions
CONFIGS['avx2-cpp20'] = CONFIGS['avx2'] + ['-std=c++20']
EXTRA_CONFIGS = ('sse2-O1', 'sse41-O3', 'avx2-O1', 'avx2-O3', 'neon-O3', 'avx2-cpp20')
PRE = {}
DEFAULT_CONFIGS = ('sse2', 'sse41', 'avx2', 'neon', 'scalar')
COMMON = ['-std=c++17', '-D_USE_MATH_DEFINES', '-DNOMINMAX', '-DNDEBUG', '-O2', '-fno-slp-vectorize', '-fno-vectorize', '-ffp-contract=off',
          '-fno-math-errno', '-fno-exceptions', '-gline-tables-only', '-S', '-emit-llvm', '-mllvm', '-inline-threshold=100000',
          '-mllvm', '-unroll-threshold=20000', '-Wno-everything', '-ferror-limit=5']

class Ob:
    """one proof obligation: outputs of a probe == specification"""
    def __init__(s, name, expr, args, ret, spec, what=None, configs=None, body=None, assume=None, ranges=None, inputs=None, must=True, need=2, tol=1e-4, mulcap=None, coef=None, models=(), stops=None, fold=False, sec=100):
        s.name, s.expr, s.args, s.ret, s.spec = name, expr, args, ret, spec
        s.what = what or expr; s.configs = configs; s.body = body
        s.fold = fold; s.sec = sec
        s.stops = stops        # condition under which the entry point has to stop (a failed assertion)
        s.models = models      # [(regex of a function name, contract standing for its calls)]
        s.assume, s.ranges, s.inputs, s.need, s.tol, s.mulcap, s.coef = assume, ranges, inputs or {}, need, tol, mulcap, coef

class Prop:
    def __init__(s, pid, includes, title=''):
        s.pid, s.includes, s.title = pid, includes, title
        s.obs = []; s.configs = DEFAULT_CONFIGS; s.helpers = ''; s.pre = ''
        s.extra = []           # extra structural analyses: fn(ctx) -> list of findings
        s.defs = []; s.std = STDINC; s.flags = ()
    def ob(s, *a, **k):
        o = Ob(*a, **k)
        s.obs.append(o)
        return o

class Vec(list):
    """list of nodes with component access"""
    @property
    def x(s): return s[0]
    @property
    def y(s): return s[1]
    @property
    def z(s): return s[2]
    @property
    def w(s): return s[3]

class Alt(tuple):
    """any of several specified results is acceptable"""
    def __new__(cls, *xs): return tuple.__new__(cls, xs)

def cname(s): return 'P_' + re.sub(r'[^A-Za-z0-9]+', '_', s)

def render(prop, cfg, obs):
    src = [PRELUDE % dict(std='\n'.join('#include <%s>' % h for h in prop.std), pre=PRE.get(cfg, '') + prop.pre, includes='\n'.join('#include "%s"' % i for i in prop.includes)), prop.helpers]
    for o in obs:
        ps = ', '.join('const %s* __restrict p_%s' % (TYPES[t].cpp, n) for t, n in o.args)
        ds = ' '.join('const %s& %s = *p_%s;' % (TYPES[t].cpp, n, n) for t, n in o.args)
        body = o.body if o.body else '*out = %s(%s);' % (TYPES[o.ret].cpp, o.expr) if o.ret in ('float', 'bool', 'uint32', 'int32', 'uint8', 'psize') else '*out = %s;' % o.expr
        src.append('extern "C" void %s(%s%s%s* __restrict out) { %s %s }' % (cname(o.name), ps, ', ' if ps else '', TYPES[o.ret].cpp, ds, body))
    return '\n'.join(src) + '\n'

class BuildError(Exception): pass

def compile_ir(src, cfg, tag, extra=(), workdir=None):
    d = workdir
    f = os.path.join(d, '%s_%s.cpp' % (tag, cfg))
    open(f, 'w').write(src)
    out = f[:-4] + '.ll'
    cmd = ['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'] + COMMON + CONFIGS[cfg] + ['-I' + REPO + '/include', '-I' + HERE + '/engine/include'] + list(extra) + [f, '-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('%s [%s]:\n%s' % (tag, cfg, r.stdout[:3000]))
    return out

_KW = {'f': 32, 'i': 32, 'u': 32, 'b': 8, 'c': 8, 'q': 64, 'h': 16}

class GInterp(Interp):
    """adds dynamically initialised constant globals (inline static const)"""
    models = ()
    def call_model(s, n, i, env, mem, args, bc):
        for rx, fn in s.models:
            if re.search(rx, n): return fn(s, [(t, s.val(env, t, v)) for t, v in args], mem, bc)
        return NotImplemented
    def global_init_map(s):
        if not hasattr(s.m, 'ginit'):
            s.m.ginit = {}
            for fn, f in s.m.funcs.items():
                if '__cxx_global_var_init' in fn:
                    # the initialiser of g is the function that writes it (directly or through a call or an address)
                    txt = '\n'.join(l for ls in f.blocks.values() for l in ls if ' = load ' not in l)
                    for g in set(re.findall(r'@[-a-zA-Z$._0-9]+', txt)):
                        if g in s.m.globals and not g.startswith('@_ZGV'): s.m.ginit.setdefault(g, []).append(fn)
        return s.m.ginit
    def global_cells(s, name):
        if not hasattr(s.m, 'gcache'): s.m.gcache = {}
        if name in s.m.gcache: return dict(s.m.gcache[name])
        g = s.m.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        ty, init, const, pre = g
        if const:
            r = Interp.global_cells(s, name)
        else:
            if name.startswith('@_ZGV'): return {0: (8, iconst(64, 0), 'i')}
            fns = s.global_init_map().get(name, [])
            mem = Mem({name: {}})
            s.store(mem, Ptr(name, 0), ty, s.const(ty, init))
            if fns:
                sub = GInterp(s.m)
                for fn in fns:
                    sub.run(fn, [], mem)
            elif not s.never_written(name): raise Unsupported('mutable global ' + name)
            r = mem.o[name]
        s.m.gcache[name] = dict(r)
        return dict(r)
    def never_written(s, name):
        if not hasattr(s.m, 'gw'):
            s.m.gw = set()
            for fn, f in s.m.funcs.items():
                for ls in f.blocks.values():
                    for l in ls:
                        if l.startswith('store'):
                            for g in re.findall(r'@[-a-zA-Z$._0-9]+', l.split(', ptr', 1)[-1]): s.m.gw.add(g)
        return name not in s.m.gw
    def load_scalar(s, mem, p, ty):
        if p.obj.startswith('@_ZGV') and p.obj not in mem.o:
            return iconst(ty.n, 0)
        return Interp.load_scalar(s, mem, p, ty)

def make_inputs(o):
    vals = []; cells = {}
    for t, n in o.args:
        ty = TYPES[t]; vs = Vec(); cl = {}
        over = o.inputs.get(n)
        for k, (off, kind, fn) in enumerate(ty.cells):
            nm = n + ('.' + fn if fn else '')
            if over is not None and not isinstance(over, (list, tuple)) and callable(over): pass
            if over is not None and over[k] is not None: v = over[k]
            elif kind == 'f': v = fin(nm)
            elif kind == 'b': v = bin_(nm)
            else: v = iin(nm, _KW[kind])
            vs.append(v)
            if kind == 'f': cl[off] = (4, v, 'f')
            elif kind == 'b': cl[off] = (1, ite(v, iconst(8, 1), iconst(8, 0)), 'i')
            else: cl[off] = (_KW[kind] // 8, v, 'i')
        vals.append(vs); cells['arg_' + n] = cl
    return vals, cells

_IRTY = {'f': None, 'i': I(32), 'u': I(32), 'c': I(8), 'q': I(64), 'h': I(16), 'b': I(1)}
from .ir import FLOAT

def slice_lines(mod, fname, dbg, off=None):      # off: the functions called
    """source functions of the repository contributing to the probe"""
    out = {}
    for b in (b for g in sorted({fname} | set(off or ())) if g in mod.funcs for b in instrs(mod.funcs[g]).values()):
        for i in b:
            if i.dbg is not None:
                for fn, fl, ln in dbg.chain(i.dbg):
                    if '/include/math/' in fl or '/source/' in fl:
                        k = (fl.replace(REPO + '/', ''), fn)
                        out.setdefault(k, ln); out[k] = min(out[k], ln)
    return ['%s:%d (%s)' % (k[0], ln, k[1]) for k, ln in sorted(out.items())]

INVARIANT = {'Aabb': lambda v: [fle(a, b) for a, b in zip(v[:3], v[4:7])], 'Sphere': lambda v: [fle(lift(0), v[3])]}

class Late(Exception): pass
def _ring(sig, frm): raise Late()
T0 = [time.time()]
def limited(sec, f, dflt):
    """f() within sec seconds of wall time, else dflt"""
    used = time.time() - T0[0]
    if used > 420: sec = min(sec, 4)
    if used > 650: sec = min(sec, 0.7)
    signal.signal(signal.SIGALRM, _ring)
    try:
        signal.setitimer(signal.ITIMER_REAL, sec)
        return f()
    except Late: return dflt
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

def check_ob(mod, dbg, o, cfg):
    """returns dict with verdict"""
    D.clear_memos(); D.MULCAP = o.mulcap; D.COEFTOL = o.coef; D.ROUND = o.fold
    fn = '@' + cname(o.name)
    vals, cells = make_inputs(o)
    it = GInterp(mod); it.models = o.models
    mem = Mem(cells)
    mem.o['out'] = {}
    args = [leaf(Ptr('arg_' + n, 0)) for t, n in o.args] + [leaf(Ptr('out', 0))]
    res = {'name': o.name, 'cfg': cfg, 'slots': 0, 'proved': 0, 'undecided': [], 'violations': [], 'ninstr': 0}
    stopped = False
    try:
        if limited(o.sec, lambda: (it.run(fn, args, mem), 1), None) is None: raise Unsupported('analysis time limit')
    except Stop: stopped = True
    except (Unsupported, RecursionError, ParseError, OverflowError) as e:
        res['slots'] = len(TYPES[o.ret].cells)
        res['undecided'].append(('*', 'not analysable: %s' % (e,)))
        res['ninstr'] = it.ninstr
        return res
    res['ninstr'] = it.ninstr
    res['reach'] = slice_lines(mod, fn, dbg, it.visited_funcs)
    spec = o.spec(*vals)
    if isinstance(spec, (Node, Alt)) or not isinstance(spec, (list, tuple)): spec = [spec]
    rt = TYPES[o.ret]
    assert len(spec) == len(rt.cells), (o.name, len(spec), len(rt.cells))
    assume = o.assume(*vals) if o.assume else None
    # counterexamples are only looked for among meaningful values: ordered boxes and spheres with a radius
    gassume = assume
    for (ty, n), v in zip(o.args, vals):
        for c in (INVARIANT[ty](v) if ty in INVARIANT else ()):
            if c is not TRUE: gassume = c if gassume is None else band(gassume, c)
    nfeas = 0
    stop = FALSE
    for n, c in it.aborts: stop = bor(stop, c)
    must = o.stops(*vals) if o.stops else FALSE
    if it.aborts or must is not FALSE:
        res['slots'] += 1
        if assume is not None: stop, must = band(assume, stop), band(assume, must)
        if stop is must or o.stops and (limited(20, lambda: bits.bit_equal(stop, must), False) or limited(40, lambda: feas.equal_refined(stop, must, assume), False)): res['proved'] += 1
        else:
            try: w = limited(40, lambda: guard.discriminate(stop, must, gassume, o.ranges, need=o.need, tol=o.tol), None)
            except (Unsupported, RecursionError, OverflowError): w = None
            nm = it.aborts[0][0] if it.aborts else 'nothing that stops'
            if w is None: res['undecided'].append(('terminates', 'may call ' + nm))
            else: res['violations'].append({'slot': 'terminates', 'got': 'calls ' + nm + ' when ' + short(stop, 200), 'want': 'stops exactly when ' + short(must, 200) if o.stops else 'returns', 'witness': w, 'what': o.what, 'slice': slice_lines(mod, fn, dbg, it.visited_funcs)})
    for (off, kind, fld), want in zip(rt.cells, spec):
        if want is None or stopped: continue
        res['slots'] += 1
        alts = ()
        if isinstance(want, Alt): alts = want; want = want[0]
        if not isinstance(want, Node):
            if kind in 'iuqch': want = iconst(_KW[kind], int(want))
            else: want = lift(want)
        try:
            got = it.load_scalar(mem, Ptr('out', off), FLOAT if kind == 'f' else _IRTY[kind])
            if assume is not None:
                got2, want2 = ite(assume, got, want), want
            else: got2, want2 = got, want
            if limited(30, lambda: equal(got2, want2), False): res['proved'] += 1; continue
            if kind != 'f':
                def bitwise():
                    used, cap = D.Budget.ops, D.Budget.limit
                    D.Budget.limit = min(cap, used + 400000)
                    try: return any(bits.bit_equal(got, x, assume) for x in (alts or (want,)))
                    except Unsupported: return False
                    finally: D.Budget.ops, D.Budget.limit = used, cap
                if limited(20, bitwise, False): res['proved'] += 1; continue
            def refined():
                if feas.equal_refined(got, want, assume): return True
                return any(equal(got if assume is None else ite(assume, got, x), x) or feas.equal_refined(got, x, assume) for x in alts[1:])
            sec = 45 if nfeas < 90 else 5; t1 = time.time()
            if limited(sec, refined, False): res['proved'] += 1; nfeas += time.time() - t1; continue
            nfeas += time.time() - t1
            w = limited(40, lambda: guard.discriminate(got, tuple(alts) if alts else want, gassume, o.ranges, need=o.need, tol=o.tol), None)
        except (Unsupported, RecursionError, OverflowError) as e:
            res['undecided'].append((fld, 'not analysable: %s' % (e,))); continue
        if w is None:
            res['undecided'].append((fld, 'normal forms differ but no separating point: got %s want %s' % (short(got, 200), short(want, 200))))
        else:
            res['violations'].append({'slot': fld, 'got': short(got, 300), 'want': short(want, 300), 'witness': w,
                                      'what': o.what, 'slice': slice_lines(mod, fn, dbg, it.visited_funcs)})
    return res

def _worker(job):
    prop, cfg, obs, llpath = job
    sys.setrecursionlimit(20000)
    mod = parse_module(open(llpath).read())
    dbg = Dbg(mod)
    out = []
    for o in obs:
        t = time.time()
        try: r = check_ob(mod, dbg, o, cfg)
        except Exception as e:
            r = {'name': o.name, 'cfg': cfg, 'slots': 0, 'proved': 0, 'undecided': [], 'violations': [], 'ninstr': 0,
                 'error': traceback.format_exc()[-1500:]}
        r['t'] = time.time() - t
        out.append(r)
    return out

_JOBS = None
def _go(i): return _worker(_JOBS[i])
def _comp(i):
    """[(obligations, ir file)], [(obligation, error)]: an entry point that does not compile costs only its own obligations"""
    prop, cfg, obs, tag, wd = _CJ[i]
    good, bad = [], []
    pos = {id(o): k for k, o in enumerate(obs)}
    ix = lambda obs: [pos[id(o)] for o in obs]
    def go(obs, tag):
        try: good.append((ix(obs), compile_ir(render(prop, cfg, obs), cfg, tag, prop.flags, wd)))
        except BuildError as e:
            if len(obs) == 1 or len(bad) > 40: bad.extend((k, str(e)[-400:]) for k in ix(obs)); return
            h = len(obs) // 2
            go(obs[:h], tag + 'l'); go(obs[h:], tag + 'r')
    try: good.append((ix(obs), compile_ir(render(prop, cfg, obs), cfg, tag, prop.flags, wd)))
    except BuildError as e:
        try: compile_ir(render(prop, cfg, []), cfg, tag + 'e', prop.flags, wd)
        except BuildError as e: return e
        go(obs, tag + 'b')
    return good, bad

def run_prop(prop, workdir, tier='quick', only=None):
    """compile and decide all obligations of prop; returns list of result dicts"""
    global _JOBS, _CJ
    T0[0] = time.time()
    _CJ = []
    names = set()
    for o in prop.obs:
        k = cname(o.name)
        assert k not in names, 'duplicate ' + o.name
        names.add(k)
    cfgs = list(prop.configs) + ([c for c in EXTRA_CONFIGS if c.split('-')[0] in prop.configs] if tier == 'thorough' else [])
    for cfg in cfgs:
        obs = [o for o in prop.obs if (o.configs is None or cfg.split('-')[0] in o.configs) and (only is None or re.search(only, o.name))]
        chunk = 120
        for k in range(0, len(obs), chunk):
            _CJ.append((prop, cfg, obs[k:k + chunk], '%s_%d' % (prop.pid, k), workdir))
    with mp.get_context('fork').Pool(8) as pool: lls = pool.map(_comp, range(len(_CJ)), 1)
    errs = [l for l in lls if isinstance(l, BuildError)]
    if errs: raise errs[0]
    _JOBS = []; out = []
    for (p, cfg, all_, *_), (good, bad) in zip(_CJ, lls):
        for k, e in bad:
            o = all_[k]
            out.append({'name': o.name, 'cfg': cfg, 'slots': len(TYPES[o.ret].cells), 'proved': 0, 'violations': [], 'ninstr': 0, 't': 0,
                        'undecided': [('*', 'the entry point does not compile: ' + e)]})
        for ks, ll in good:
            obs = [all_[k] for k in ks]; n = max(1, (len(obs) + 29) // 30)
            for k in range(n):
                if obs[k::n]: _JOBS.append((p, cfg, obs[k::n], ll))
    with mp.get_context('fork').Pool(8) as pool: rs = pool.map(_go, range(len(_JOBS)), 1)
    return out + [r for x in rs for r in x]
