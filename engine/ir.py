"""Minimal LLVM-18 textual IR reader (opaque pointers)."""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastgroup == 'id' and m.group() == 'x' : out.append(('x', 'x')); continue
        out.append((m.lastgroup, m.group()))
    return out

class Ty:
    __slots__ = ('k', 'n', 'e', 'packed')
    def __init__(s, k, n=0, e=None, packed=False):
        s.k, s.n, s.e, s.packed = k, n, e, packed
    def __repr__(s):
        return {'int': 'i%d' % s.n, 'vec': '<%d x %r>' % (s.n, s.e), 'arr': '[%d x %r]' % (s.n, s.e),
                'struct': '{%s}' % (', '.join(map(repr, s.e)) if s.e else '')}.get(s.k, s.k)

VOID, PTR, FLOAT, DOUBLE, LABEL, META = Ty('void'), Ty('ptr'), Ty('float'), Ty('double'), Ty('label'), Ty('metadata')
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

class ParseError(Exception): pass

class Module:
    def __init__(m):
        m.structs = {}; m.globals = {}; m.funcs = {}; m.decls = {}; m.meta = {}

class Instr:
    __slots__ = ('res', 'op', 'ty', 'a', 'dbg', 'text', 'als')

class Func:
    def __init__(f):
        f.name = ''; f.params = []; f.ret = None; f.blocks = {}; f.order = []; f.dbg = None

class Cur:
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.eat(x): raise ParseError('expected %s got %s in %s' % (x, s.peek(), ' '.join(t[1] for t in s.t[:60])))

    def type(s):
        t = s.next()
        if t == 'void': r = VOID
        elif t == 'ptr':
            r = PTR
            if s.eat('addrspace'):
                s.need('('); s.next(); s.need(')')
        elif t == 'float': r = FLOAT
        elif t == 'double': r = DOUBLE
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = META
        elif t in ('x86_fp80', 'fp128', 'half', 'bfloat', 'token'): r = Ty(t)
        elif re.fullmatch(r'i[0-9]+', t): r = I(int(t[1:]))
        elif t == '<':
            if s.peek() == '{':
                s.next(); el = []
                if s.peek() != '}':
                    while True:
                        el.append(s.type())
                        if not s.eat(','): break
                s.need('}'); s.need('>')
                r = Ty('struct', 0, el, True)
            else:
                n = int(s.next()); s.need('x'); e = s.type(); s.need('>'); r = Ty('vec', n, e)
        elif t == '[':
            n = int(s.next()); s.need('x'); e = s.type(); s.need(']'); r = Ty('arr', n, e)
        elif t == '{':
            el = []
            if s.peek() != '}':
                while True:
                    el.append(s.type())
                    if not s.eat(','): break
            s.need('}'); r = Ty('struct', 0, el)
        elif t.startswith('%'): r = Ty('named', t)
        else: raise ParseError('type? %s in %s' % (t, ' '.join(x[1] for x in s.t[:50])))
        while s.peek() == '(' and False: pass
        return r

    def value(s, ty):
        """returns tuple value"""
        k, t = s.t[s.i]
        if k == 'loc': s.i += 1; return ('loc', t)
        if k == 'glob': s.i += 1; return ('glob', t)
        if k == 'num' or k == 'hex':
            s.i += 1
            r = s_resolve(s.m, ty)
            if r.k == 'int': return ('int', int(t, 0) if k == 'num' else int(t[2:], 16))
            if k == 'hex': 
                if t[2] in 'KLMHR': return ('fp', float('nan'))
                return ('fp', struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0])
            return ('fp', float(t))
        s.i += 1
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('null',)
        if t in ('<', '[', '{'):
            end = {'<': '>', '[': ']', '{': '}'}[t]
            packed = False
            if t == '<' and s.peek() == '{':
                s.next(); packed = True; end = '}'
            el = []
            if s.peek() != end:
                while True:
                    ety = s.type(); el.append((ety, s.value(ety)))
                    if not s.eat(','): break
            s.need(end)
            if packed: s.need('>')
            return ('agg', el)
        if k == 'str' : return ('str', t)
        if t in ('getelementptr',):
            inb = s.eat('inbounds')
            while s.peek() in ('nuw', 'nusw', 'inrange'): s.next()
            if s.peek() == '(' : pass
            s.need('(')
            ety = s.type(); s.need(',')
            pty = s.type(); base = s.value(pty); idx = []
            while s.eat(','):
                while s.peek() == 'inrange':
                    s.next()
                    if s.eat('('):
                        while not s.eat(')'): s.next()
                ity = s.type(); idx.append((ity, s.value(ity)))
            s.need(')')
            return ('cgep', ety, base, idx)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            s.need('('); ity = s.type(); v = s.value(ity); s.need('to'); oty = s.type(); s.need(')')
            return ('ccast', t, ity, v, oty)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while s.peek() in ('nuw', 'nsw'): s.next()
            s.need('('); t1 = s.type(); a = s.value(t1); s.need(','); t2 = s.type(); b = s.value(t2); s.need(')')
            return ('cbin', t, t1, a, b)
        if t == 'splat':
            s.need('('); ety = s.type(); v = s.value(ety); s.need(')')
            return ('splat', ety, v)
        if t == 'dso_local_equivalent' or t == 'no_cfi': return s.value(ty)
        raise ParseError('value? %s in %s' % (t, ' '.join(x[1] for x in s.t[:80])))

    def tv(s):
        ty = s.type()
        s.attrs()
        return ty, s.value(ty)

    def attrs(s):
        """skip parameter attributes"""
        while True:
            t = s.peek()
            if t is None: return
            if s.kind() == 'attr' or s.kind() == 'str': s.i += 1; 
            elif t in PARAM_ATTRS:
                s.i += 1
                if t == 'align' and s.kind() == 'num': s.al = int(s.peek()); s.i += 1
                elif s.peek() == '(' and t in PAREN_ATTRS:
                    d = 0
                    while True:
                        x = s.next()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if not d: break
            else: return

PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone align dereferenceable dereferenceable_or_null
 signext zeroext inreg byval sret returned nofree swiftself immarg writable dead_on_unwind allocalign allocptr range initializes captures nofpclass nest alignstack'''.split())
PAREN_ATTRS = {'align', 'alignstack', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'initializes', 'captures', 'nofpclass'}

def s_resolve(m, ty):
    while ty.k == 'named':
        ty = m.structs[ty.n]
    return ty

def sizeof(m, ty):
    ty = s_resolve(m, ty)
    k = ty.k
    if k == 'int': return max(1, 1 << ((ty.n + 7) // 8 - 1).bit_length()) if ty.n > 8 else 1
    if k == 'float': return 4
    if k in ('double', 'ptr'): return 8
    if k == 'vec': return (ty.n * sizeof_bits(m, ty.e) + 7) // 8
    if k == 'arr': return ty.n * sizeof(m, ty.e)
    if k == 'struct':
        off = 0; al = 1
        for e in ty.e:
            a = 1 if ty.packed else alignof(m, e)
            al = max(al, a)
            off = (off + a - 1) // a * a + sizeof(m, e)
        return (off + al - 1) // al * al
    if k == 'x86_fp80': return 16
    raise ParseError('sizeof %r' % ty)

def sizeof_bits(m, ty):
    ty = s_resolve(m, ty)
    return ty.n if ty.k == 'int' else sizeof(m, ty) * 8

def alignof(m, ty):
    ty = s_resolve(m, ty)
    k = ty.k
    if k == 'arr': return alignof(m, ty.e)
    if k == 'struct': return 1 if ty.packed else max([1] + [alignof(m, e) for e in ty.e])
    if k == 'vec': return min(16, sizeof(m, ty))
    return min(16, sizeof(m, ty))

def fieldoff(m, ty, i):
    off = 0
    for j, e in enumerate(ty.e):
        a = 1 if ty.packed else alignof(m, e)
        off = (off + a - 1) // a * a
        if j == i: return off
        off += sizeof(m, e)
    raise ParseError('field')

FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

def parse_instr(line, mod):
    toks = tokenize(line)
    c = Cur(toks, mod)
    ins = Instr(); ins.res = None; ins.dbg = None; ins.text = line
    # strip trailing metadata ", !dbg !12, !tbaa !4"
    m = re.search(r', !dbg !(\d+)', line)
    if m: ins.dbg = int(m.group(1))
    cut = None
    depth = 0
    for i, (k, t) in enumerate(toks):
        if t in '([{<': depth += 1
        elif t in ')]}>': depth -= 1
        elif t == ',' and depth == 0 and i + 1 < len(toks) and toks[i + 1][0] == 'meta':
            cut = i; break
    if cut is not None: toks = c.t = toks[:cut]
    if c.kind() == 'loc' and c.peek(1) == '=':
        ins.res = c.next(); c.next()
    op = c.next()
    if op in ('tail', 'musttail', 'notail'): op = c.next()
    ins.op = op
    if op in BIN or op == 'fneg':
        while c.peek() in FMF or c.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): c.next()
        ty = c.type(); a = c.value(ty)
        if op == 'fneg': ins.ty, ins.a = ty, (a,)
        else:
            c.need(','); b = c.value(ty); ins.ty, ins.a = ty, (a, b)
    elif op in ('icmp', 'fcmp'):
        while c.peek() in FMF or c.peek() == 'samesign': c.next()
        pred = c.next(); ty = c.type(); a = c.value(ty); c.need(','); b = c.value(ty)
        ins.ty, ins.a = ty, (pred, a, b)
    elif op in CAST:
        while c.peek() in ('nneg', 'nuw', 'nsw') or c.peek() in FMF: c.next()
        ty = c.type(); a = c.value(ty); c.need('to'); to = c.type()
        ins.ty, ins.a = to, (ty, a)
    elif op == 'load':
        if c.eat('atomic'): pass
        c.eat('volatile')
        ty = c.type(); c.need(','); pt = c.type(); p = c.value(pt)
        al = 0
        while c.eat(','):
            if c.eat('align'): al = int(c.next())
            else: break
        ins.ty, ins.a = ty, (p, al)
    elif op == 'store':
        if c.eat('atomic'): pass
        c.eat('volatile')
        ty = c.type(); v = c.value(ty); c.need(','); pt = c.type(); p = c.value(pt)
        al = 0
        while c.eat(','):
            if c.eat('align'): al = int(c.next())
            else: break
        ins.ty, ins.a = ty, (v, p, al)
    elif op == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'): c.next()
        ety = c.type(); c.need(','); pt = c.type(); base = c.value(pt); idx = []
        while c.eat(','):
            it = c.type(); idx.append((it, c.value(it)))
        ins.ty, ins.a = PTR, (ety, base, idx)
    elif op == 'alloca':
        c.eat('inalloca')
        ty = c.type(); n = None; al = 0
        while c.eat(','):
            if c.eat('align'): al = int(c.next())
            elif c.eat('addrspace'):
                c.need('('); c.next(); c.need(')')
            else:
                nt = c.type(); n = (nt, c.value(nt))
        ins.ty, ins.a = ty, (n, al)
    elif op == 'select':
        while c.peek() in FMF: c.next()
        ct = c.type(); cv = c.value(ct); c.need(',')
        ty = c.type(); a = c.value(ty); c.need(','); ty2 = c.type(); b = c.value(ty2)
        ins.ty, ins.a = ty, (ct, cv, a, b)
    elif op == 'phi':
        while c.peek() in FMF: c.next()
        ty = c.type(); inc = []
        while True:
            c.need('['); v = c.value(ty); c.need(','); l = c.next(); c.need(']')
            inc.append((v, l))
            if not c.eat(','): break
        ins.ty, ins.a = ty, inc
    elif op == 'br':
        if c.eat('label'): ins.ty, ins.a = VOID, (None, [c.next()])
        else:
            t = c.type(); v = c.value(t); c.need(','); c.need('label'); a = c.next(); c.need(','); c.need('label'); b = c.next()
            ins.ty, ins.a = VOID, (v, [a, b])
    elif op == 'switch':
        t = c.type(); v = c.value(t); c.need(','); c.need('label'); d = c.next(); c.need('['); cases = []
        while not c.eat(']'):
            ct = c.type(); cv = c.value(ct); c.need(','); c.need('label'); cases.append((cv, c.next()))
        ins.ty, ins.a = t, (v, d, cases)
    elif op == 'ret':
        ty = c.type()
        ins.ty, ins.a = ty, (None if ty is VOID else c.value(ty),)
    elif op == 'unreachable': ins.ty, ins.a = VOID, ()
    elif op == 'freeze':
        ty = c.type(); ins.ty, ins.a = ty, (c.value(ty),)
    elif op == 'extractelement':
        ty = c.type(); v = c.value(ty); c.need(','); it = c.type(); i = c.value(it)
        ins.ty, ins.a = ty.e, (ty, v, it, i)
    elif op == 'insertelement':
        ty = c.type(); v = c.value(ty); c.need(','); et = c.type(); e = c.value(et); c.need(','); it = c.type(); i = c.value(it)
        ins.ty, ins.a = ty, (v, et, e, it, i)
    elif op == 'shufflevector':
        ty = c.type(); a = c.value(ty); c.need(','); ty2 = c.type(); b = c.value(ty2); c.need(','); mt = c.type(); mk = c.value(mt)
        ins.ty, ins.a = Ty('vec', mt.n, ty.e), (ty, a, b, mt, mk)
    elif op == 'extractvalue':
        ty = c.type(); v = c.value(ty); ix = []
        while c.eat(','): ix.append(int(c.next()))
        ins.ty, ins.a = ty, (v, ix)
    elif op == 'insertvalue':
        ty = c.type(); v = c.value(ty); c.need(','); et = c.type(); e = c.value(et); ix = []
        while c.eat(','): ix.append(int(c.next()))
        ins.ty, ins.a = ty, (v, et, e, ix)
    elif op in ('call', 'invoke'):
        while c.peek() in FMF or c.peek() in ('fastcc', 'ccc', 'coldcc', 'cc'): c.next()
        c.attrs()
        ty = c.type()
        if c.peek() == '(':    # function type spelled out (varargs)
            d = 0
            while True:
                x = c.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if not d: break
        if c.peek() == 'asm':
            ins.ty, ins.a = ty, ('<asm>', [])
        else:
            callee = c.value(PTR); c.need('('); args = []; als = []
            if c.peek() != ')':
                while True:
                    at = c.type()
                    if at.k == 'metadata':
                        d = 0
                        while c.peek() is not None and not (d == 0 and c.peek() in (',', ')')):
                            x = c.next()
                            if x == '(': d += 1
                            if x == ')': d -= 1
                        args.append((at, ('undef',)))
                    else:
                        c.al = 1; c.attrs(); args.append((at, c.value(at))); als.append(c.al)
                    if not c.eat(','): break
            c.need(')')
            ins.ty, ins.a = ty, (callee, args); ins.als = als
            if op == 'invoke':
                while c.peek() != 'to': c.next()
                c.need('to'); c.need('label'); n = c.next(); c.need('unwind'); c.need('label'); u = c.next()
                ins.a = (callee, args, n, u)
    elif op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'indirectbr'):
        ins.ty, ins.a = VOID, ()
    else: raise ParseError('op %s: %s' % (op, line))
    return ins

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0; n = len(lines)
    # struct types first
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            name, body = l.split(' = type ', 1)
            if body.strip() == 'opaque': mod.structs[name] = Ty('struct', 0, [])
            else: mod.structs[name] = Cur(tokenize(body), mod).type()
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            m = re.match(r'(@(?:[-a-zA-Z$._0-9]+|"[^"]*")) = (.*)$', l)
            if m:
                body = m.group(2)
                mm = re.search(r'\b(global|constant) ', body)
                if mm:
                    const = mm.group(1) == 'constant'
                    rest = body[mm.end():]
                    c = Cur(tokenize(rest), mod)
                    ext = bool(re.search(r'\bexternal\b', body[:mm.start()]))
                    try:
                        ty = c.type()
                        init = None if ext else c.value(ty)
                    except (ParseError, IndexError, KeyError):
                        ty, init = None, None
                    mod.globals[m.group(1)] = (ty, init, const, body[:mm.start()])
        elif l.startswith('declare'):
            m = re.search(r'(@(?:[-a-zA-Z$._0-9]+|"[^"]*"))\(', l)
            if m: mod.decls[m.group(1)] = l
        elif l.startswith('define'):
            f = Func()
            m = re.search(r'(@(?:[-a-zA-Z$._0-9]+|"[^"]*"))\(', l)
            f.name = m.group(1)
            md = re.search(r'!dbg !(\d+)', l)
            if md: f.dbg = int(md.group(1))
            c = Cur(tokenize(l), mod)
            while c.peek() != f.name: c.next()
            c.next(); c.need('(')
            if c.peek() != ')':
                while True:
                    if c.eat('...'): break
                    ty = c.type(); st = c.i; c.attrs()
                    at = ' '.join(t[1] for t in c.t[st:c.i])
                    nm = c.next() if c.kind() == 'loc' else None
                    f.params.append((ty, nm, at))
                    if not c.eat(','): break
            f.header = l
            i += 1
            cur = None
            first = True
            buf = []
            while lines[i] != '}':
                s = lines[i]
                mm = re.match(r'^((?:[-a-zA-Z$._0-9]+|"[^"]*")):', s)
                if mm:
                    lab = '%' + mm.group(1)
                    cur = []; f.blocks[lab] = cur; f.order.append(lab); first = False
                elif s.strip() and not s.strip().startswith(';'):
                    if first:
                        # implicit entry label = number of params (unnamed)
                        lab = '%' + str(len([p for p in f.params]))
                        cur = []; f.blocks[lab] = cur; f.order.append(lab); first = False
                    st = s.strip()
                    if st.startswith('switch') and st.endswith('['):
                        while not lines[i].strip().startswith(']'):
                            i += 1; st += ' ' + lines[i].strip()
                    elif (' = landingpad' in st):
                        while lines[i + 1].startswith('          '):
                            i += 1
                    elif ('invoke ' in st) and ' to label ' not in st:
                        i += 1; st += ' ' + lines[i].strip()
                    k = st.find(' ; ')
                    if k > 0 and '"' not in st[k:]: st = st[:k]
                    if not st.startswith('#dbg'):
                        cur.append(st)
                i += 1
            f.mod = mod
            mod.funcs[f.name] = f
        elif l.startswith('!'):
            m = re.match(r'^!(\d+) = (?:distinct )?(.*)$', l)
            if m: mod.meta[int(m.group(1))] = m.group(2)
        i += 1
    return mod

def instrs(f):
    """parse (lazily) all blocks of f"""
    if not hasattr(f, 'parsed'):
        f.parsed = {b: [parse_instr(s, f.mod) for s in ls] for b, ls in f.blocks.items()}
    return f.parsed

# debug locations ------------------------------------------------------------
def _fields(s):
    return dict(re.findall(r'(\w+): (![0-9]+|"[^"]*"|[^,()]+)', s))

class Dbg:
    def __init__(d, mod): d.m = mod; d.cache = {}
    def scope_fn(d, ref):
        while ref:
            s = d.m.meta.get(int(ref[1:]))
            if s is None: return None
            f = _fields(s)
            if s.startswith('!DISubprogram'):
                fl = d.m.meta.get(int(f.get('file', '!0')[1:]), '')
                fn = _fields(fl)
                return f.get('name', '"?"').strip('"'), fn.get('filename', '"?"').strip('"'), int(f.get('line', 0))
            ref = f.get('scope')
        return None
    def chain(d, n):
        """[(function, file, line)] innermost first"""
        if n in d.cache: return d.cache[n]
        out = []
        k = n
        while k is not None:
            s = d.m.meta.get(k, '')
            if not s.startswith('!DILocation'): break
            f = _fields(s)
            sc = d.scope_fn(f.get('scope'))
            if sc: out.append((sc[0], sc[1], int(f.get('line', 0))))
            ia_ = f.get('inlinedAt')
            k = int(ia_[1:]) if ia_ else None
        d.cache[n] = out
        return out
