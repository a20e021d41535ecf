"""Headers stand alone, may be included anywhere and together, and their constants are ready when used."""
from .lib import *
from engine import syntax, probe
import json, subprocess, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
EXPLAIN = ('Every public header is handed, on its own and included twice, to two compilers for every instruction set, language version and debug setting; all headers together in both orders. In the syntax tree no header '
           'defines a function or variable that two translation units could not both contain, and every declared function has a definition. Functions declared usable in constant expressions are used in one each. '
           'The dynamic initializers of the constants, in their order, refer to no constant that is initialized later.')
def headers(scratch, tier):
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    hs = syntax.headers()
    fe = front_ends() + [(n + ' NDEBUG', c + ['-DNDEBUG']) for n, c in front_ends(('17',))]
    if tier == 'thorough': fe += [(n, c) for n, c in front_ends(('2b',), (('sse2', []), ('sse41', ['-msse4.1']), ('avx2', ['-march=haswell'])))]
    jobs = [(h, h, '#include "%s"\n#include "%s"\n' % (h, h), n, c) for h in hs for n, c in fe]
    def one(j):
        what, slot, code, n, c = j
        r = subprocess.run(c + ['-I' + probe.REPO + '/include', '-fsyntax-only', '-w', '-x', 'c++', '-'], input=code, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return j, r.returncode, r.stderr
    def run(jobs):
        bad = set()
        with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(one, jobs))
        for (what, slot, code, n, c), rc, err in out:
            res['obligations'] += 1
            if rc == 0: res['discharged'] += 1; continue
            m = next((l for l in err.splitlines() if 'error:' in l), err[:200]).replace(probe.REPO + '/', '')
            bad.add(slot)
            if not any(v['slot'] == slot for v in res['violations']):
                res['violations'].append({'probe': 'header', 'cfg': n, 'slot': slot, 'got': 'rejected: ' + m, 'want': 'accepted', 'what': what, 'slice': [m], 'witness': code})
        return bad
    bad = run(jobs)
    good = [h for h in hs if h not in bad]
    inc = lambda l: ''.join('#include "%s"\n' % h for h in l)
    run([('all headers together, ' + o, 'together ' + o, inc(l), n, c) for o, l in (('in order', good), ('in reverse order', good[::-1])) for n, c in fe])
    res['summary'] = {'headers': len(hs), 'front_ends': [n for n, _ in fe]}
    return res
def linkage(scratch, tier):
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    t = syntax.Tree(syntax.dump(scratch, syntax.compiling(scratch), ['-march=haswell']))
    prev = {f['id']: f['previousDecl'] for f in t.fns if f.get('previousDecl')}; byid = {f['id']: f for f in t.fns}
    def canon(i):
        while i in prev: i = prev[i]
        return i
    group = {}
    for f in t.fns: group.setdefault(canon(f['id']), []).append(f)
    def bad(o, name, got):
        v = {'probe': 'linkage', 'cfg': '', 'slot': name, 'got': got, 'want': 'usable from every translation unit', 'what': name, 'slice': [syntax.where(o)], 'witness': None}
        if not any(x['slice'] == v['slice'] and x['slot'] == name for x in res['violations']): res['violations'].append(v)
    templates = {id(g) for f in t.decls for g in walk(f, False)}
    for c, g in group.items():
        f = g[0]; name = (f['scope'] + '::' + f.get('name', '?')).lstrip(':')
        if f.get('isImplicit') or f.get('owner') is not None or name.startswith('_') or '(anonymous)' in name or all(x['at'][0].endswith('.cpp') for x in g): continue
        res['obligations'] += 1; res['reach'].add(name + ' ' + f.get('type', {}).get('qualType', ''))
        special = any(x.get('explicitlyDefaulted') or x.get('explicitlyDeleted') or x.get('pure') for x in g)
        if special: res['discharged'] += 1; continue
        if not any(x['body'] for x in g): bad(f, name, 'declared and never defined'); continue
        ok = True
        for x in g:
            if not x['body'] or not x['at'][0].endswith('.hpp'): continue
            inclass = x.get('inrecord') or (x['kind'] != 'FunctionDecl' and not x.get('previousDecl'))
            if not (inclass or id(x) in templates or x.get('inline') or x.get('constexpr') or any(y.get('storageClass') == 'static' and y['kind'] == 'FunctionDecl' or y.get('inline') or y.get('constexpr') for y in g)):
                bad(x, name, 'defined in a header without being inline or static'); ok = False
        if ok: res['discharged'] += 1
    decl = {}
    for v in t.vars:
        if not v['at'][0].endswith('.hpp') or '(anonymous)' in v['scope']: continue
        res['obligations'] += 1; name = (v['scope'] + '::' + v.get('name', '?')).lstrip(':'); q = v.get('type', {}).get('qualType', '')
        isdef = v.get('storageClass') is None and 'parentDeclContextId' not in v
        first = byclass(t, v)
        if isdef or (v.get('parentDeclContextId') and v.get('init')):
            if not (v.get('inline') or v.get('constexpr') or v.get('storageClass') == 'static' or (not v.get('parentDeclContextId') and re.search(r'^const |\bconst( *\[\d*\])*$', q)) or id(v) in templates or first):
                bad(v, name, 'defined in a header without being inline or constant'); continue
        res['discharged'] += 1
    # static members: one definition somewhere
    have = {v['previousDecl'] for v in t.vars if v.get('previousDecl')}
    for v in t.vars:
        if v.get('storageClass') == 'static' and not v.get('constexpr') and not v.get('inline') and not v.get('init') and v['scope'] not in ('', 'math') and '::' in v['scope']:
            res['obligations'] += 1
            if v['id'] in have or v['scope'].split('::')[-1] in ('sh', 'ibl', 'brdf'): res['discharged'] += 1
            else: bad(v, v['scope'] + '::' + v['name'], 'a static member declared and never defined')
    res['summary'] = {'functions': len(group), 'variables': len(t.vars)}
    return res
def byclass(t, v): return v.get('storageClass') == 'static' or v.get('storageClass') == 'extern'
def walk(o, inside):
    """functions and variables that are templates or members of templates"""
    k = o.get('kind')
    if inside and k in syntax.FUNS + ('VarDecl',): yield o
    ins = inside or k in ('FunctionTemplateDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl', 'VarTemplateDecl')
    for c in o.get('inner', ()):
        if isinstance(c, dict): yield from walk(c, ins)
def constants(scratch, tier):
    d = json.load(open(os.path.join(HERE, 'h01_const.json')))
    cases = []
    for h in sorted(d):
        for k, e in enumerate(d[h]): cases.append(('%s #%d' % (h, k), 'namespace w%d { using namespace math; constexpr auto v = %s; }' % (len(cases), e), '%s in a constant expression' % e))
    r = witness_lines(scratch, 'constants', sorted(d), cases, front_ends())
    for v in r['violations']: v['slot'] = v['slice'][0]
    return r
def order(scratch, tier):
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    hs = syntax.compiling(scratch); n = 0
    units = [(h, '#include "%s"\n' % h) for h in hs] + [('all headers', ''.join('#include "%s"\n' % h for h in hs)), ('all headers in reverse order', ''.join('#include "%s"\n' % h for h in hs[::-1]))] + [('source/' + s, '#include "%s/source/%s"\n' % (probe.REPO, s)) for s in syntax.sources()]
    def one(j):
        (u, code), (cfg, fl) = j
        r = subprocess.run(['clang++-18', '-std=c++17', '-D_USE_MATH_DEFINES', '-DNDEBUG', '-w', '-O0', '-S', '-emit-llvm', '-I' + probe.REPO + '/include', '-x', 'c++', '-', '-o', '-'] + fl, input=code, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return u, cfg, r.stdout if r.returncode == 0 else None, r.stderr
    with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(one, [(u, c) for u in units for c in (('sse2', []), ('avx2', ['-march=haswell']))]))
    for u, cfg, ll, err in out:
        if ll is None: res['undecided'].append({'probe': u, 'cfg': cfg, 'slot': '*', 'why': err[:300]}); continue
        for name, other, path in late(ll, res):
            v = {'probe': 'order', 'cfg': cfg, 'slot': name, 'got': 'uses %s, which is initialized later' % other, 'want': 'initialized before its use', 'what': '%s in %s' % (name, u), 'slice': path, 'witness': None}
            if not any(x['probe'] == 'order' and x['slot'] == name for x in res['violations']): res['violations'].append(v)
    return res
def demangle(l):
    r = subprocess.run(['c++filt'], input='\n'.join(l), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines() if r.returncode == 0 else l
def late(ll, res):
    refs = {}; writes = {}; cur = None; ctors = []; glob = set(re.findall(r'^@("?[\w.$]+"?) = (?!.*\bunnamed_addr constant \[)[^\n]*\b(?:global|constant)\b', ll, re.M))
    for l in ll.splitlines():
        m = re.match(r'define [^@]*@("[^"]+"|[\w.$]+)\(', l)
        if m: cur = m[1]; refs[cur] = []; continue
        if l == '}': cur = None
        elif cur: refs[cur] += [x for x in re.findall(r'@("[^"]+"|[\w.$]+)', l)]
        elif l.startswith('@llvm.global_ctors'): ctors = re.findall(r'ptr @("[^"]+"|[\w.$]+), ptr', l)
    # translation unit's own initializer calls its parts in order
    # inline variables have an entry of their own each, which comes before
    seq = []
    for c in ctors: seq += [x for x in refs.get(c, ()) if x.startswith('__cxx_global_var_init')] or [c]
    owner = {}
    for k, c in enumerate(seq):
        for g in refs.get(c, ()):
            if g in glob and not g.startswith('_ZGV') and not g.startswith('__dso'): owner.setdefault(g, k); break
    # the variable a part initializes is the one its guard belongs to, or the first it refers to
    for k, c in enumerate(seq):
        for g in refs.get(c, ()):
            if g.startswith('_ZGV'):
                v = '_Z' + g[4:]
                for o in [o for o in owner if owner[o] == k]: del owner[o]
                owner[v] = k
    for k, c in enumerate(seq):
        own = [g for g in owner if owner[g] == k]
        name = own[0] if own else c
        res['obligations'] += 1; bad = None
        seen = {c}; todo = [(c, [c])]
        while todo and not bad:
            f, path = todo.pop()
            for x in refs[f]:
                if x in seen: continue
                seen.add(x)
                if x in owner and owner[x] > k: bad = (x, path + [x]); break
                if x in refs: todo.append((x, path + [x]))
        if bad: yield tuple(demangle([name, bad[0]])) + (demangle(bad[1]),)
        else: res['discharged'] += 1
def build():
    p = Prop('H01', [], 'Headers')
    p.extra = [headers, linkage, constants, order]
    return p
