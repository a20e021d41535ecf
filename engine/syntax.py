"""Functions of the library in the syntax tree of the front end: what they promise, what they call, where they are declared and defined."""
import os, re, json, subprocess
from . import probe
REPO = probe.REPO
FUNS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')
INST = 'template class math::PackedVector<1>; template class math::PackedVector<2>; template class math::PackedVector<4>;\n' \
       'static std::string verif_hex(unsigned char a, unsigned short b, unsigned int c, unsigned long long d) { return math::toHex(a) + math::toHex(b) + math::toHex(c) + math::toHex(d); }\n'
def headers(): return sorted(os.path.join(d, f)[len(REPO) + 9:] for d, _, fs in os.walk(REPO + '/include') for f in fs if f.endswith('.hpp'))
def sources(): return sorted(f for f in os.listdir(REPO + '/source') if f.endswith('.cpp'))
def compiling(scratch):
    ok = []
    for h in headers():
        open(scratch + '/h.cpp', 'w').write('#include <cstdlib>\n#include <cstring>\n#include "%s"\n' % h)
        if subprocess.run(['clang++-18', '-std=c++17', '-D_USE_MATH_DEFINES', '-fsyntax-only', '-w', '-I' + REPO + '/include', scratch + '/h.cpp'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: ok.append(h)
    return ok
def dump(scratch, hs, flags, extra=''):
    f = scratch + '/all.cpp'
    open(f, 'w').write('#include <cstdlib>\n#include <cstring>\n' + ''.join('#include "%s"\n' % h for h in hs) + ''.join('#include "%s/source/%s"\n' % (REPO, s) for s in sources()) + extra)
    r = subprocess.run(['clang++-18', '-std=c++17', '-D_USE_MATH_DEFINES', '-DNDEBUG', '-fsyntax-only', '-w', '-I' + REPO + '/include'] + flags + ['-Xclang', '-ast-dump=json', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise probe.BuildError(r.stderr.decode()[:3000])
    return re.sub(r',?\s*"includedFrom": \{\s*"file": "[^"]*"\s*\}', '', r.stdout.decode())       # names a file that is not the location

class Tree:
    """top-level declarations of the library, with the functions found in them"""
    def __init__(s, text, extra=()):
        s.file = '?'; s.line = 0; s.record = False; s.fns = []; s.vars = []; s.decls = []
        for c in text.split('\n    {\n')[1:]:
            last = c.rfind('"file": "')
            head = c[:c.find('"range"')]
            f = head.find('"file": "')
            here = head[f + 9:head.index('"', f + 9)] if f >= 0 else s.file
            if here.startswith(REPO) or here in extra:
                s.file = here
                d = json.loads('{' + c[:c.rindex('\n    }') + 6]); s.go(d, [], None); s.decls.append(d)
            if last >= 0: s.file = c[last + 9:c.index('"', last + 9)]
    def loc(s, l):
        for x in (l, l.get('spellingLoc') or {}, l.get('expansionLoc') or {}):
            if 'file' in x: s.file = x['file']
            if 'line' in x: s.line = x['line']
    def go(s, o, scope, fn):
        k = o.get('kind')
        if 'loc' in o: s.loc(o['loc'])
        if 'range' in o: s.loc(o['range'].get('begin', {}))
        at = (s.file, s.line)
        if 'range' in o: s.loc(o['range'].get('end', {}))
        o['at'] = at
        if k in FUNS:
            o['scope'] = '::'.join(scope); o['owner'] = fn
            o['body'] = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in o.get('inner', ()))
            s.fns.append(o); inner = o
        else: inner = fn
        if k == 'VarDecl' and fn is None: o['scope'] = '::'.join(scope); s.vars.append(o)
        sc = scope + [o.get('name') or '(anonymous)'] if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl') and (o.get('name') or k == 'NamespaceDecl') else scope
        if k in FUNS and scope: o['inrecord'] = s.record
        rec = getattr(s, 'record', False); s.record = k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') or (rec and k in ('FriendDecl', 'FunctionTemplateDecl'))
        for c in o.get('inner', ()):
            if isinstance(c, dict): s.go(c, sc, inner)
        s.record = rec
def where(o): return '%s:%s' % (o['at'][0].replace(REPO + '/', ''), o['at'][1])
