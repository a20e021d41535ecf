"""No hidden state: nothing but results and named outputs is written, nothing is kept between calls."""
from .lib import *
from engine import safety, probe, syntax
import os, re, json, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLAIN = ('Every store met while interpreting the entry points of all other specifications goes to the result, a named output or an object the call itself creates: not to an argument passed for reading, and not '
           'to a variable with static storage. All functions of all headers and sources, also those no specification enters, are then compiled and scanned for stores to variables that outlive the call and for calls of stateful functions of the platform.')
SPECS = [i for i in safety.ALL if i not in ('B01', 'B03', 'G02')]
def shared():
    """a BVH between two marks is only read"""
    from . import b02
    q = b02.build()
    p = Prop('E01b', q.includes, 'Collecting from a shared tree'); p.std = q.std; p.flags = q.flags + ('-fno-inline',); p.configs = ('sse2', 'sse41', 'avx2')
    p.helpers = q.helpers + '\nextern "C" void verif_reads(const void*); extern "C" void verif_ends(const void*);\n'
    def begin(it, args, mem, bc):
        for q, k in ((args[0][1].leaf, len(it.track)),): it.__dict__.setdefault('kept', {}).setdefault(q.obj, []).append([k, 1 << 60])
    def end(it, args, mem, bc): it.kept[args[0][1].leaf.obj][-1][1] = len(it.track)
    mods = [(r'verif_reads', begin), (r'verif_ends', end)]
    for n in (1, 2, 3):
        for si, t in enumerate(b02.shapes(n)):
            nodes, par, total = b02.layout(t, (1, 2, 3, 1)[:n])
            box = ''.join('{ auto d = t.n()[%d]; auto a = d.getPrimitiveCount(); auto b = d.getLeftNode(); float s = h[%d] ? 1.0f : -4.0f; d.aabb.set(f32x4(s, 1, 1), f32x4(s + 2.0f, 2, 2)); d.setPrimitiveCount(a); d.setLeftNode(b); t.n()[%d] = d; } ' % (i, i, i) for i in range(len(nodes)))
            p.ob('shared_%d_%d' % (n, si), '', [('barr12', 'h')], 'uint32', lambda h: [None], models=mods, what='collecting with a local node stack only reads the tree',
                 body=b02.tree(nodes, total) + box + 'stack<Bvh::Node*> st; Plane pl[1] = { Plane(f32x4(1, 0, 0), 0) }; uint32 buf[%d]; verif_reads(&t); *out = t.collectInFrustum(pl, 1, buf, &st); verif_ends(&t);' % (total + 1))
    return p
def build():
    p = Prop('E01', [], 'No hidden state')
    def run(scratch, tier):
        import sys
        m = type(sys)('specs.e01b'); m.build = shared; sys.modules['specs.e01b'] = m
        cfgs = ('sse2', 'avx2') if tier == 'quick' else ('sse2', 'sse41', 'avx2', 'neon')
        jobs = [(i, cfg, [], None, {}) for i in SPECS + (['B01', 'B03', 'G02'] if tier != 'quick' else []) for cfg in cfgs] + [('E01b', c, [], None, {}) for c in cfgs if c != 'neon']
        return safety.sweep(scratch, safety.effects, jobs)
    p.extra = [run, scan]
    return p

# ---- all functions ----
def scan(scratch, tier):
    res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
    inc = syntax.headers(); ok = syntax.compiling(scratch); nf = 0       # headers that do not compile are not part of what can be scanned
    cfgs = [('sse2', []), ('avx2', ['-march=haswell'])] + ([] if tier == 'quick' else [('sse41', ['-msse4.1']), ('debug', ['-UNDEBUG'])])
    for cfg, fl in cfgs:
        n = Walk(syntax.dump(scratch, ok, fl, syntax.INST)); nf += n.functions; res['obligations'] += n.functions; res['discharged'] += n.functions - len({b[3] for b in n.bad})
        for slot, why, at, fn in n.bad:
            v = {'probe': 'scan', 'cfg': cfg, 'slot': slot, 'got': why, 'want': 'no state outside of the arguments', 'what': 'function ' + fn, 'slice': ['%s (%s)' % (at.replace(REPO + '/', ''), fn)], 'witness': None}
            if not any(x['slot'] == slot and x['slice'] == v['slice'] for x in res['violations']): res['violations'].append(v)
    res['summary'] = {'functions_scanned': nf, 'headers': len(ok), 'headers_not_compiling': [h for h in inc if h not in ok]}
    return res

class Walk:
    """variables with static storage that are written, and calls of stateful functions, in the syntax tree"""
    def __init__(s, text):
        s.functions = 0; s.bad = []; s.file = '?'; s.line = 0; s.state = {}; s.locals = set(); uses = []
        for c in text.split('\n    {\n')[1:]:           # declarations of the translation unit; locations are given where they change
            last = c.rfind('"file": "')
            head = c[:c.find('"range"')]
            f = head.find('"file": "')
            here = head[f + 9:head.index('"', f + 9)] if f >= 0 else s.file
            if here.startswith(REPO):
                s.file = here
                s.go(json.loads('{' + c[:c.rindex('\n    }') + 6]), '?', [], uses, True)
            if last >= 0: s.file = c[last + 9:c.index('"', last + 9)]
        for name, path, at, fn in uses:
            v = s.state.get(name)
            if v is not None and s.written(path): s.bad.append((v, 'the variable %s that outlives the call is written' % v, at, fn))
    def loc(s, l):
        for x in (l, l.get('expansionLoc') or {}):
            if 'file' in x: s.file = x['file']
            if 'line' in x: s.line = x['line']
    def go(s, o, fn, path, uses, top):
        k = o.get('kind')
        if 'loc' in o: s.loc(o['loc'])
        if 'range' in o: s.loc(o['range'].get('begin', {}))
        at = '%s:%s' % (s.file, s.line)
        if 'range' in o: s.loc(o['range'].get('end', {}))
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            if not o.get('isImplicit') and any(c.get('kind') == 'CompoundStmt' for c in o.get('inner', ())): s.functions += 1
            fn = o.get('name', fn)
        if k == 'VarDecl' and o.get('name'):
            q = o.get('type', {}).get('qualType', '')
            static = o.get('storageClass') in ('static', 'extern') or 'tls' in o or fn == '?'
            if not static and not o.get('constexpr') and any(True for _ in s.varying(o.get('inner', ()), set())): s.locals.add(o['id'])
            if static and not o.get('constexpr') and not re.search(r'^const |\bconst( *\[\d*\])*$|\*const$', q): s.state[o['id']] = o['name']
            elif static and fn != '?' and not o.get('constexpr'):
                for what in s.varying(o.get('inner', ()), set()): s.bad.append((o['name'], 'the variable %s that outlives the call is initialized from %s of the first call' % (o['name'], what), at, fn)); break
        if k == 'FieldDecl' and o.get('mutable'): s.state[o['id']] = o.get('name')
        if k == 'DeclRefExpr':
            r = o.get('referencedDecl', {})
            if r.get('kind') == 'VarDecl': uses.append((r['id'], list(path), at, fn))
            if r.get('kind') == 'FunctionDecl' and safety.IMPURE.match('@' + r.get('name', '')): s.bad.append((r['name'], 'calls ' + r['name'], at, fn))
            if r.get('kind') == 'VarDecl' and r.get('name') in ('cout', 'cerr', 'clog', 'cin'): s.bad.append((r['name'], 'uses ' + r['name'], at, fn))
        if k == 'MemberExpr' and o.get('referencedMemberDecl'): uses.append((o['referencedMemberDecl'], list(path), at, fn))
        path.append((k, o.get('castKind'), o.get('type', {}).get('qualType', '')))
        for c in o.get('inner', ()):
            if isinstance(c, dict): s.go(c, fn, path, uses, False)
        path.pop()
    def varying(s, inner, own):
        """what an initializer takes from the call: its arguments, its object, its local variables"""
        for c in inner:
            if not isinstance(c, dict): continue
            k = c.get('kind')
            if k == 'LambdaExpr' or k in ('UnaryExprOrTypeTraitExpr', 'DecltypeType'): continue
            if k in ('ParmVarDecl', 'VarDecl'): own.add(c['id'])
            if k == 'CXXThisExpr': yield 'the object'
            if k == 'DeclRefExpr':
                r = c.get('referencedDecl', {})
                if r.get('kind') == 'ParmVarDecl' and r['id'] not in own: yield 'the argument ' + r.get('name', '')
                if r.get('kind') == 'VarDecl' and r['id'] in s.locals and r['id'] not in own and c.get('nonOdrUseReason') is None: yield 'the variable ' + r.get('name', '')
            yield from s.varying(c.get('inner', ()), own)
    def written(s, path):
        """the innermost enclosing expressions decide: a read ends in a conversion to a value or to a constant reference"""
        for k, cast, q in reversed(path):
            if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr'):
                if cast == 'LValueToRValue': return False
                if cast in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase') and q.startswith('const '): return False
                if cast in ('ArrayToPointerDecay', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'): continue
                return True
            if k in ('ParenExpr', 'MemberExpr', 'ArraySubscriptExpr'): continue
            return k not in ('UnaryExprOrTypeTraitExpr', 'CompoundStmt', 'DecltypeType')
        return True
