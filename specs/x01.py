"""Functions declared not to throw cannot raise an exception other than for exhausted memory."""
from .lib import *
from engine import syntax, probe
import re
EXPLAIN = ('For every function of all headers and sources that is declared not to throw, the syntax tree is searched for what can raise an exception in it: throw expressions, standard functions that throw for some '
           'arguments, function objects the caller passed in, and library functions without the promise that contain one of these, directly or through further calls. Exhausted memory is not counted.')
THROWS = re.compile(r'(stoi|stol|stoll|stoul|stoull|stof|stod|stold|any_cast|rethrow_exception|throw_with_nested|rethrow_if_nested|__throw_\w+|call_once|async|stoull)$')
MEMBER = re.compile(r'(at|substr|value|insert|replace|erase|compare|lock|exceptions|imbue|to_ulong|to_ullong|assign)$')
POS = ('substr', 'insert', 'replace', 'erase', 'compare', 'assign')
def nothrow(q): return bool(re.search(r'\bnoexcept\b(?!\(false\))|\bthrow\(\)', q))
def strip(o):
    while isinstance(o, dict) and o.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr') and o.get('inner'): o = o['inner'][-1]
    return o
class Effects:
    def __init__(s, tree, path='/'):
        s.prev = {}; s.fn = {}; s.src = {}; s.calls = {}; s.sites = 0
        for f in tree.fns:
            if f.get('previousDecl'): s.prev[f['id']] = f['previousDecl']
        for f in tree.fns:
            c = s.canon(f['id'])
            if c not in s.fn or f['body']: s.fn[c] = f
            if f['body']:
                s.src.setdefault(c, []); s.calls.setdefault(c, [])
                for x in f.get('inner', ()):
                    if isinstance(x, dict) and x.get('kind') != 'ParmVarDecl': s.scan(x, c, False)
        s.promise = {s.canon(f['id']) for f in tree.fns if nothrow(f.get('type', {}).get('qualType', ''))}
        for f in tree.fns:      # destructors promise implicitly
            if f['kind'] == 'CXXDestructorDecl' and 'noexcept(false)' not in f.get('type', {}).get('qualType', ''): s.promise.add(s.canon(f['id']))
    def canon(s, i):
        while i in s.prev: i = s.prev[i]
        return i
    def scan(s, o, c, caught):
        k = o.get('kind'); inner = [x for x in o.get('inner', ()) if isinstance(x, dict)]
        if k in ('CXXNoexceptExpr', 'UnaryExprOrTypeTraitExpr', 'DecltypeType', 'StaticAssertDecl', 'CXXTypeidExpr'): return
        if k in syntax.FUNS: return            # a function of its own (members of local classes, lambdas: reported there)
        if k == 'CXXTryStmt':
            catch_all = any(h.get('kind') == 'CXXCatchStmt' and not any(v.get('kind') == 'VarDecl' for v in h.get('inner', ()) if isinstance(v, dict)) for h in inner)
            exc = any(h.get('kind') == 'CXXCatchStmt' and any('exception' in v.get('type', {}).get('qualType', '') for v in h.get('inner', ()) if isinstance(v, dict)) for h in inner)
            for x in inner: s.scan(x, c, caught or ((catch_all or exc) and x.get('kind') == 'CompoundStmt'))
            return
        if k == 'CXXThrowExpr' and not caught: s.src[c].append(('throws an exception', syntax.where(o)))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and inner and not caught:
            s.sites += 1
            e = strip(inner[0])
            if e.get('kind') == 'DeclRefExpr':
                r = e.get('referencedDecl', {}); q = r.get('type', {}).get('qualType', ''); n = r.get('name', '')
                if s.canon(r.get('id')) in s.fn: s.calls[c].append((s.canon(r['id']), syntax.where(o)))
                elif THROWS.match(n) and not nothrow(q): s.src[c].append(('calls %s, which throws for some arguments' % n, syntax.where(o)))
                elif n == 'operator()' and len(inner) > 1 and k == 'CXXOperatorCallExpr': s.object(strip(inner[1]), c, o)
                elif k == 'CallExpr' and r.get('kind') in ('ParmVarDecl', 'FieldDecl') and not nothrow(q): s.src[c].append(('calls the function %s passed by the caller' % n, syntax.where(o)))
            if e.get('kind') == 'MemberExpr':
                i = s.canon(e.get('referencedMemberDecl')); n = e.get('name', '')
                if i in s.fn: s.calls[c].append((i, syntax.where(o)))
                elif MEMBER.match(n):
                    t = inner[0].get('inner', [{}])[0].get('type', {}).get('qualType', '')
                    std = re.search(r'\b(basic_)?string|string_view|vector|array|map|deque|optional|bitset|mutex|expected|future', t)
                    pos = strip(inner[1]) if len(inner) > 1 else {}
                    num = re.search(r'long|int|size_t', pos.get('type', {}).get('qualType', ''))
                    zero = pos.get('kind') == 'IntegerLiteral' and pos.get('value') == '0'
                    if std and not (n in POS and ('string' not in t or zero or not num)): s.src[c].append(('calls %s of %s, which throws for some arguments' % (n, t), syntax.where(o)))
        if k == 'CXXConstructExpr' and not caught: s.construct(o, c)
        if k == 'CXXDynamicCastExpr' and not caught and o.get('valueCategory') == 'lvalue': s.src[c].append(('casts dynamically to a reference', syntax.where(o)))
        for x in inner: s.scan(x, c, caught)
    def object(s, e, c, o):
        r = e.get('referencedDecl', {})
        t = e.get('type', {}).get('qualType', '')
        if re.search(r'\bfunction<', t) and (r.get('kind') == 'ParmVarDecl' or e.get('kind') == 'MemberExpr'): s.src[c].append(('calls the function object %s passed by the caller' % r.get('name', e.get('name', '')), syntax.where(o)))
    def construct(s, o, c):
        """a constructor of the library, found by the type it makes and its parameter types"""
        q = o.get('ctorType', {}).get('qualType', '')
        t = re.sub(r'^const |^math::', '', re.sub(r'^const ', '', o.get('type', {}).get('desugaredQualType', o.get('type', {}).get('qualType', ''))))
        if nothrow(q): return
        for i, f in s.ctors().get((t.replace('math::', ''), q), ()): s.calls[c].append((i, syntax.where(o)))
    def ctors(s):
        if not hasattr(s, '_c'):
            s._c = {}
            for i, f in s.fn.items():
                if f['kind'] == 'CXXConstructorDecl': s._c.setdefault((f['scope'].replace('math::', ''), f.get('type', {}).get('qualType', '')), []).append((i, f))
        return s._c
    def chain(s, c, seen):
        """the first way in which a function raises an exception"""
        if s.src.get(c): return [s.src[c][0]]
        if c in seen: return None
        seen.add(c)
        for d, at in s.calls.get(c, ()):
            if d in s.promise: continue        # reported for that function
            r = s.chain(d, seen)
            if r: return [('calls ' + s.fn[d].get('name', '?'), at)] + r
        return None
def build():
    p = Prop('X01', [], 'Exceptions')
    def run(scratch, tier):
        res = {'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': [], 'reach': set(), 'summary': {}}
        hs = syntax.compiling(scratch); sites = 0
        for cfg, fl in [('sse2', []), ('avx2', ['-march=haswell'])] + ([] if tier == 'quick' else [('sse41', ['-msse4.1']), ('debug', ['-UNDEBUG']), ('cpp20', ['-std=c++20'])]):
            e = Effects(syntax.Tree(syntax.dump(scratch, hs, fl, syntax.INST), (scratch + '/all.cpp',))); sites += e.sites
            for c in sorted(e.promise, key=lambda c: e.fn[c]['at']):
                f = e.fn[c]
                if not f['body']: continue
                res['obligations'] += 1; res['reach'].add('%s::%s %s' % (f['scope'], f.get('name'), f.get('type', {}).get('qualType')))
                r = e.chain(c, set())
                if r is None: res['discharged'] += 1; continue
                v = {'probe': 'exceptions', 'cfg': cfg, 'slot': '%s %s' % (f.get('name'), f.get('type', {}).get('qualType')), 'got': r[-1][0], 'want': 'no exception', 'what': 'function %s::%s, declared not to throw' % (f['scope'], f.get('name')),
                     'slice': ['%s (%s)' % (syntax.where(f), f.get('name'))] + ['%s: %s' % (at, w) for w, at in r], 'witness': None}
                if not any(x['slot'] == v['slot'] and x['slice'] == v['slice'] for x in res['violations']): res['violations'].append(v)
        res['summary'] = {'call_sites': sites, 'headers': len(hs)}
        return res
    p.extra = [run]
    return p
