"""Sweeps over the entry points of all specifications that look at what the code does on the way instead of at its
results: memory accesses, operations with undefined result (compiler inserted conditions), failed assertions."""
import importlib, os, sys, re, time, traceback, multiprocessing as mp
from . import probe, guard, bits, feas, dom as D
from .probe import *
from .ir import sizeof
from .absint import s_resolve

def size_table(o):
    ts = [TYPES[t].cpp for t, n in o.args] + [TYPES[o.ret].cpp]
    return 'extern "C" const unsigned long Z_%s[] = { %s };' % (cname(o.name), ', '.join('sizeof(%s), alignof(%s)' % (t, t) for t in ts))

def interpret(mod, o, track, limit=60):
    D.clear_memos(); D.MULCAP = o.mulcap; D.COEFTOL = o.coef; D.ROUND = o.fold
    vals, cells = make_inputs(o)
    # preconditions; counterexamples are only looked for among meaningful values: ordered boxes
    assume = o.assume(*vals) if o.assume else None
    gassume = assume
    for (ty, n), v in zip(o.args, vals):
        for c in (INVARIANT[ty](v) if ty in INVARIANT else ()):
            if c is not TRUE: gassume = c if gassume is None else band(gassume, c)
        f = {fld: x for (_, _, fld), x in zip(TYPES[ty].cells, v)} if ty.startswith('boxes') else {}
        for k, x in f.items():
            if '.lo' in k and k.replace('.lo', '.hi') in f:
                try:
                    c = fle(x, f[k.replace('.lo', '.hi')])
                    gassume = c if gassume is None else band(gassume, c)
                except Unsupported: D.Budget.ops = 0; break
    D.Budget.ops = 0
    it = GInterp(mod); it.models = o.models; it.track = [] if track else None
    mem = Mem(cells); mem.o['out'] = {}
    args = [leaf(Ptr('arg_' + n, 0)) for t, n in o.args] + [leaf(Ptr('out', 0))]
    bad = None
    try:
        if limited(limit, lambda: (it.run('@' + cname(o.name), args, mem), 1), None) is None: raise Unsupported('analysis time limit')
    except Stop: pass
    except (Unsupported, RecursionError, ParseError, OverflowError) as e: bad = str(e)
    it.mem = mem
    return it, bad, assume, gassume

def where(dbg, ins):
    if ins.dbg is None: return []
    return ['%s:%d (%s)' % (f.replace(REPO + '/', ''), ln, nm) for nm, f, ln in dbg.chain(ins.dbg) if '/include/math/' in f or '/source/' in f]

def feasible(c, assume, gassume, o, sec=20):
    """False: cannot happen; None: unknown; dict: a point at which it happens"""
    D.Budget.ops = 0
    try:
        if assume is not None: c = band(assume, c)
        if c is FALSE: return False
        if gassume is not None and band(gassume, c) is FALSE: return False
    except Unsupported: D.Budget.ops = 0
    if c is TRUE and gassume is None: return {'always': True}
    if gassume is not None:
        used, cap = D.Budget.ops, D.Budget.limit
        D.Budget.limit = min(cap, used + 400000)
        try:
            if limited(sec, lambda: bits.bit_equal(c, FALSE, gassume), False): return False
        except (Unsupported, RecursionError, OverflowError): pass
        finally: D.Budget.ops, D.Budget.limit = used, cap
    try:
        if limited(sec, lambda: feas.equal_refined(c, FALSE, gassume), False): return False
    except (Unsupported, RecursionError, OverflowError): pass
    try: return limited(sec, lambda: guard.discriminate(c, FALSE, gassume, o.ranges, need=o.need, tol=o.tol), None)
    except (Unsupported, RecursionError, OverflowError): return None

def blank(o, cfg): return {'name': o.name, 'cfg': cfg, 'slots': 0, 'proved': 0, 'undecided': [], 'violations': [], 'ninstr': 0}

def accesses(mod, dbg, o, cfg, opt):
    res = blank(o, cfg); fn = '@' + cname(o.name)
    it, bad, assume, gassume = interpret(mod, o, True)
    zs = [c[1].leaf._const for _, c in sorted(GInterp(mod).global_cells('@Z_' + cname(o.name)).items())]
    size = {}
    for k, (ob, ty) in enumerate([('arg_' + n, t) for t, n in o.args] + [('out', o.ret)]):
        z, al = zs[2 * k], zs[2 * k + 1]
        if opt['aligned'](o, ob): al = max(al, 16)
        size[ob] = (z, al)
    res['ninstr'] = it.ninstr; res['reach'] = slice_lines(mod, fn, dbg, it.visited_funcs)
    def size_of(ob):
        if ob in size: return size[ob]
        if ob in it.objsize: return it.objsize[ob], it.objalign.get(ob) or 1
        if ob in mod.globals:
            ty = mod.globals[ob][0]
            if ty is not None: return sizeof(mod, ty), 1 << 20
        return None
    seen = {}
    for ob, off, n, al, ins, c, what in it.track:
        z = size_of(ob)
        if z is None: continue
        res['slots'] += 1
        why = None
        if off < 0 or off + n > z[0]: why = '%s of %d bytes at offset %d of an object of %d bytes' % (what, n, off, z[0])
        elif al > z[1] or (z[1] < (1 << 20) and off % al): why = '%s that assumes an alignment of %d bytes at offset %d of an object aligned to %d' % (what, al, off, z[1])
        if why is None: res['proved'] += 1; continue
        k = (ob, off, n, al, c.id)
        if k not in seen: seen[k] = feasible(c, assume, gassume, o)
        w = seen[k]
        if w is False: res['proved'] += 1; continue
        if w is None: res['undecided'].append((ob, why)); continue
        at = where(dbg, ins) or slice_lines(mod, fn, dbg, it.visited_funcs)
        if not any(v['slot'] == ob and v['slice'] == at for v in res['violations']):
            res['violations'].append({'slot': ob, 'got': why, 'want': 'accesses inside the object, aligned as its type', 'witness': w, 'what': o.what, 'slice': at})
    if bad: res['undecided'].append(('*', 'not analysable: ' + bad)); res['slots'] += 1
    return res

TRAPS = {'0': 'addition overflows', '1': 'unreachable built-in', '2': 'control flow', '3': 'division by zero or overflowing', '5': 'conversion of a floating-point value out of range', '10': 'invalid value of a bool or enumeration',
         '11': 'missing return', '12': 'multiplication overflows', '13': 'negation overflows', '18': 'index out of bounds', '20': 'shift by the width of the type or more', '21': 'subtraction overflows', '8': 'value out of range', '22': 'misuse of a pointer', '7': 'invalid value'}
def traps(mod, dbg, o, cfg, opt):
    res = blank(o, cfg); fn = '@' + cname(o.name)
    it, bad, assume, gassume = interpret(mod, o, False)
    res['ninstr'] = it.ninstr; res['reach'] = slice_lines(mod, fn, dbg, it.visited_funcs)
    sites = sum(1 for f in it.visited_funcs for b in instrs(mod.funcs[f]).values() for i in b
                if i.op in ('call', 'invoke') and i.a[0] != '<asm>' and i.a[0][0] == 'glob' and re.match(r'@(llvm\.(ubsan)?trap|__assert_fail|abort)$', i.a[0][1]))
    res['slots'] = sites + 1; failing = set()
    if bad: res['undecided'].append(('*', 'not analysable: ' + bad))
    for (n, c), ins in zip(it.aborts, it.abort_at):
        w = feasible(c, assume, gassume, o)
        if w is False: continue
        at = where(dbg, ins) or slice_lines(mod, fn, dbg, it.visited_funcs)
        k = n.split(); what = TRAPS.get(k[1], 'condition %s' % k[1]) if k[0] == 'ubsantrap' and len(k) > 1 else {'llvm.trap': 'a container is used outside of its contract', '__assert_fail': 'an assertion fails'}.get(n, n)
        failing.add(id(ins))
        if w is None: res['undecided'].append((what, '%s if %s at %s' % (what, short(c, 150), at[:1]))); continue
        if not any(v['slot'] == what and v['slice'] == at for v in res['violations']):
            res['violations'].append({'slot': what, 'got': '%s when %s' % (what, short(c, 200)), 'want': opt.get('want', 'never happens for valid arguments'), 'witness': w, 'what': o.what, 'slice': at})
    res['proved'] = 0 if bad else res['slots'] - min(len(failing), res['slots'])
    return res

# functions whose result depends on, or which change, something other than their arguments
IMPURE = re.compile(r'@(s?rand(_r)?|random|drand48|time|clock|clock_gettime|gettimeofday|getenv|setlocale|localeconv|strtok|v?f?printf|puts|putchar|fputs|fwrite|fopen|fclose|fflush|scanf|getpid|fe(set|get)(round|env)|feclearexcept|feraiseexcept|signal|'
                    r'pthread_\w+|_ZNSo\w*|_ZSt4c(out|err|in)|_ZNSt\w*random_device\w*|_ZNSt6chrono\w*now\w*|__cxa_thread_atexit|_ZTW\w+|llvm\.set\.rounding|llvm\.x86\.sse\.(ldmxcsr))$')
def impure_calls(mod, fns):
    return [(i.a[0][1], i) for f in fns for b in instrs(mod.funcs[f]).values() for i in b if i.op in ('call', 'invoke') and i.a[0] != '<asm>' and i.a[0][0] == 'glob' and i.a[0][1] not in mod.funcs and IMPURE.match(i.a[0][1])]

def fixed(x):
    """the same value whatever the arguments are"""
    if isinstance(x, tuple): return all(fixed(y) for y in x)
    return x.leaf is not None and (isinstance(x.leaf, Ptr) or getattr(x.leaf, '_const', None) is not None)
def effects(mod, dbg, o, cfg, opt):
    """nothing but the result (and the named outputs) is written, nothing is kept between calls"""
    res = blank(o, cfg); fn = '@' + cname(o.name)
    it, bad, assume, gassume = interpret(mod, o, True)
    res['ninstr'] = it.ninstr; res['reach'] = slice_lines(mod, fn, dbg, it.visited_funcs)
    def report(slot, got, ins, w=None):
        at = (where(dbg, ins) if ins is not None else []) or slice_lines(mod, fn, dbg, it.visited_funcs)
        if not any(v['slot'] == slot and v['slice'] == at for v in res['violations']):
            res['violations'].append({'slot': slot, 'got': got, 'want': 'only results are written, nothing is kept between calls', 'witness': w, 'what': o.what, 'slice': at})
    kept = getattr(it, 'kept', {})          # objects that must not change between two marks
    done = {}
    for k, (ob, off, n, al, ins, c, what) in enumerate(it.track):
        if what != 'store': continue
        res['slots'] += 1
        bad_ = None
        if ob.startswith('arg_'): bad_ = 'an argument passed for reading is written'
        elif ob in mod.globals and not ob.startswith('@_ZGV'):
            if '@_ZGV' + ob[3:] not in mod.globals: bad_ = 'a variable that outlives the call is written'
            elif not all(fixed(x[1]) for x in it.mem.o.get(ob, {}).values()): bad_ = 'a variable that outlives the call is given a value that depends on the arguments'
        elif ob in kept and any(a <= k < b for a, b in kept[ob]): bad_ = 'an object that the call only reads is written'
        if bad_ is None: res['proved'] += 1; continue
        key = (ob, bad_, c.id)
        if key not in done: done[key] = feasible(c, assume, gassume, o)
        w = done[key]
        if w is False: res['proved'] += 1
        elif w is None: res['undecided'].append((ob, bad_))
        else: report(ob, bad_, ins, w)
    ext = impure_calls(mod, it.visited_funcs)
    res['slots'] += 1
    for n, i in ext: report(n, 'calls %s' % n[1:], i)
    if bad and 'mutable global' in bad: report('*', 'reads a variable that keeps its value between calls (%s)' % bad, None)
    elif bad: res['undecided'].append(('*', 'not analysable: ' + bad))
    elif not ext: res['proved'] += 1
    return res

_J = None; _C = None
def _go(i):
    worker, cfg, obs, ll, opt = _J[i]
    sys.setrecursionlimit(20000)
    mod = parse_module(open(ll).read()); dbg = Dbg(mod); out = []
    for o in obs:
        try: out.append(worker(mod, dbg, o, cfg, opt))
        except Exception: out.append({'name': o.name, 'cfg': cfg, 'slots': 1, 'proved': 0, 'undecided': [('*', traceback.format_exc()[-250:])], 'violations': [], 'ninstr': 0})
    return out
def _comp(i):
    p, cfg, obs, tag, wd, flags = _C[i]
    good, bad = [], []
    ix = {id(o): k for k, o in enumerate(obs)}
    def go(obs, tag):
        src = render(p, cfg.split('/')[0], obs) + '\n'.join(size_table(o) for o in obs) + '\n'
        try: good.append(([ix[id(o)] for o in obs], compile_ir(src, cfg, tag, flags, wd)))
        except BuildError as e:
            if len(obs) <= 1 or len(bad) > 20: bad.extend((ix[id(o)], str(e)[-300:]) for o in obs); return
            h = len(obs) // 2; go(obs[:h], tag + 'l'); go(obs[h:], tag + 'r')
    go(obs, tag)
    return good, bad

def sweep(scratch, worker, jobs, only=None):
    """jobs: [(spec id, configuration, extra flags, filter of obligations or None, options)]"""
    global _J, _C
    probe.T0[0] = time.time()
    _C = []; opts = []
    props = {}
    for j, (pid, cfg, flags, filt, opt) in enumerate(jobs):
        if pid not in props: props[pid] = importlib.import_module('specs.' + pid.lower()).build(); props[pid].pid = pid
        p = props[pid]; base = cfg.split('-')[0]
        obs = [o for o in p.obs if (o.configs is None or base in o.configs) and base in p.configs and (filt is None or filt(o)) and (only is None or re.search(only, o.name))]
        for k in range(0, len(obs), 60): _C.append((p, cfg, obs[k:k + 60], '%s_%d_%d' % (pid, j, k), scratch, tuple(p.flags) + tuple(flags))); opts.append(opt)
    ctx = mp.get_context('fork')
    with ctx.Pool(8) as pool: lls = pool.map(_comp, range(len(_C)), 1)
    _J = []; und = []
    for (p, cfg, obs, tag, *_), opt, (good, bad) in zip(_C, opts, lls):
        for k, e in bad: und.append({'probe': '%s/%s' % (p.pid, obs[k].name), 'cfg': cfg, 'slot': '*', 'why': 'does not compile: ' + e[:200]})
        for ks, ll in good:
            os_ = [obs[k] for k in ks]; n = max(1, (len(os_) + 19) // 20)
            for j in range(n):
                if os_[j::n]: _J.append((worker, cfg, os_[j::n], ll, dict(opt, pid=p.pid)))
    order = {'B01': 0, 'B02': 1}
    _J.sort(key=lambda j: order.get(j[4]['pid'], 2))
    with ctx.Pool(8) as pool: rs = pool.map(_go, range(len(_J)), 1)
    out = [(j[4]['pid'], r) for j, x in zip(_J, rs) for r in x]
    viol = [dict(v, probe='%s/%s' % (pid, r['name']), cfg=r['cfg']) for pid, r in out for v in r['violations']]
    und += [{'probe': '%s/%s' % (pid, r['name']), 'cfg': r['cfg'], 'slot': s, 'why': w[:300]} for pid, r in out for s, w in r['undecided']]
    reach = set()
    for _, r in out: reach.update(r.get('reach', ()))
    return {'obligations': sum(r['slots'] for _, r in out), 'discharged': sum(r['proved'] for _, r in out), 'violations': viol, 'undecided': und, 'reach': reach,
            'summary': {'entry_points': len({(pid, r['name']) for pid, r in out}), 'instructions_interpreted': sum(r['ninstr'] for _, r in out), 'specifications_swept': sorted({pid for pid, _ in out})}}
ALL = 'V01 V02 V03 V04 V05 M01 M02 M03 T01 T02 T03 P01 Q01 Q02 G01 G02 G03 G04 G05 C01 C02 S01 S02 S03 K01 K02 K03 B01 B02 B03'.split()
