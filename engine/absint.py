"""Abstract interpreter: gated-SSA value numbering of one LLVM function.

Each basic block is visited once in reverse post-order (loops with constant
trip count are unrolled by the compiler or by `run` itself); phis and memory
joins become guarded choices.  No path is enumerated and nothing is executed:
the result is, for every output cell, a normal form over the input cells."""
from . import dom as D
from .dom import *
from .ir import *

class Undef:
    pass

def undef_scalar(ty):
    k = ty.k
    if k in ('float', 'double'): return leaf(pa(atom('undef')))
    if k == 'int':
        if ty.n == 1: return FALSE
        return leaf(ia(atom('undef', (), ty.n), ty.n))
    if k == 'ptr': return leaf(Ptr('undef', 0))
    raise Unsupported('undef of %r' % ty)

class Mem:
    """object -> {offset: (size, node, kind)}; kind 'f' float32, 'd' double, 'i' int, 'p' pointer"""
    __slots__ = ('o',)
    def __init__(s, o=None): s.o = o or {}
    def copy(s): return Mem({k: dict(v) for k, v in s.o.items()})

def cell_bits(size, node, kind):
    if kind == 'i': return node
    if kind == 'f': return f2bits(node)
    if kind == 'd': return apply(_op_d2bits, node)
    raise Unsupported('bits of %s cell' % kind)

i_bits = D.i_bits
def small_values(p, cap=64):
    """the values an index expression can take, when its form bounds them"""
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return None
    A = D._atomlist[m[0][0]]
    if A.kind in ('zext', 'trunc', 'sext'):
        r = small_values(A.args[0], cap)
        return r if r is None or A.kind == 'zext' or r[-1] < 1 << (min(A.w, A.args[0].w) - 1) else None
    if A.kind == 'and':
        for q in A.args[0]:
            if q._const is not None and q._const < cap: return [k for k in range(q._const + 1) if k & q._const == k]
        return None
    if A.kind == 'lshr' and isinstance(A.args[1], int) and A.w - A.args[1] <= 6: return list(range(1 << (A.w - A.args[1])))
    if A.kind == 'urem' and isinstance(A.args[1], D.IPoly) and A.args[1]._const and A.args[1]._const <= cap: return list(range(A.args[1]._const))
    return None
def only_undef(p):
    """every input of the expression is an undefined value"""
    st = [p]; seen = set(); some = False
    while st:
        q = st.pop()
        for m in q.t:
            for a, _ in m:
                if a in seen: continue
                seen.add(a); A = D._atomlist[a]
                if A.kind == 'undef': some = True; continue
                if A.kind in ('in', 'pi', 'inf', 'nan'): return False
                for x in A.args:
                    if isinstance(x, (D.Poly, D.IPoly)): st.append(x)
                    elif not isinstance(x, int): return False
    return some
NORETURN = {'abort', 'exit', '_exit', '__assert_fail', '__assert_rtn', '_ZSt9terminatev'}
class Stop(Exception): pass
class Interp:
    def __init__(s, mod, strict_align=False):
        s.m = mod
        s.nalloca = 0
        s.track = None         # memory accesses, if they are to be recorded
        s.objsize = {}
        s.slices = {}
        s.depth = 0
        s.aborts = []; s.abort_at = []; s.visited_funcs = set()
        s.ninstr = 0
        s.calls = []
        s.objalign = {}

    # ---- memory ------------------------------------------------------------
    def split(s, cells, off):
        """split the cell at off into bytes"""
        size, node, kind = cells.pop(off)
        if node is None:
            for i in range(size): cells[off + i] = (1, None, 'i')
            return
        b = cell_bits(size, node, kind)
        for i in range(size):
            cells[off + i] = (1, ires(ishift('lshr', b, iconst(size * 8, 8 * i)), 8), 'i')

    def clear_range(s, cells, off, size):
        for o in sorted(cells):
            if o in cells and o < off + size and o + cells[o][0] > off:
                c = cells[o]
                if o < off or o + c[0] > off + size: s.split(cells, o)
        for o in [o for o in cells if off <= o < off + size]: del cells[o]

    def store_scalar(s, mem, p, ty, v):
        cells = mem.o.setdefault(p.obj, {})
        n = sizeof(s.m, ty)
        if p.off in cells and cells[p.off][0] == n: pass
        else: s.clear_range(cells, p.off, n)
        k = {'float': 'f', 'double': 'd', 'int': 'i', 'ptr': 'p'}[ty.k]
        if k == 'i' and ty.n == 64 and s.hasptr(v): k = 'p'
        if ty.k == 'int' and ty.n < 8 * n:
            if ty.n == 1: v = ite(v, iconst(8 * n, 1), iconst(8 * n, 0))
            else: v = ires(v, 8 * n)
        cells[p.off] = (n, v, k)

    def store(s, mem, p, ty, v):
        ty = s_resolve(s.m, ty)
        if ty.k in ('vec', 'arr'):
            es = sizeof(s.m, ty.e)
            if ty.k == 'vec' and ty.e.k == 'int' and ty.e.n < 8: raise Unsupported('store of bit vector')
            for i in range(ty.n): s.store(mem, Ptr(p.obj, p.off + i * es), ty.e, v[i])
        elif ty.k == 'struct':
            for i, e in enumerate(ty.e): s.store(mem, Ptr(p.obj, p.off + fieldoff(s.m, ty, i)), e, v[i])
        else: s.store_scalar(mem, p, ty, v)

    def global_cells(s, name):
        """constant global -> cells"""
        g = s.m.globals.get(name)
        if g is None: raise Unsupported('global %s' % name)
        ty, init, const, pre = g
        if ty is None or init is None: raise Unsupported('external global %s' % name)
        cells = {}
        mem = Mem({name: cells})
        if not const and not s.readonly_global(name):
            raise Unsupported('mutable global %s' % name)
        s.store(mem, Ptr(name, 0), ty, s.const(ty, init))
        return cells

    def readonly_global(s, name):
        return False

    def load_scalar(s, mem, p, ty):
        n = sizeof(s.m, ty)
        if p.obj.startswith('@') and p.obj not in mem.o: mem.o[p.obj] = s.global_cells(p.obj)
        cells = mem.o.get(p.obj)
        if cells is None and p.obj in ('undef', 'null') and p.off >= 0: return undef_scalar(ty)      # not a value any specification can equal
        if cells is None: raise Unsupported('load from unknown object %s' % p.obj)
        c = cells.get(p.off)
        if c is not None and c[0] == n:
            v, k = c[1], c[2]
            if v is None: return undef_scalar(ty)
        elif ty.k != 'ptr' and s.covering(cells, p.off, n) is not None:
            o = s.covering(cells, p.off, n)
            if cells[o][1] is None: return undef_scalar(ty)
            b = cell_bits(*cells[o])
            v = ires(ishift('lshr', b, iconst(cells[o][0] * 8, 8 * (p.off - o))), 8 * n); k = 'i'
        else:
            # assemble from pieces
            parts = []
            o = p.off
            while o < p.off + n:
                c = cells.get(o)
                if c is None or o + c[0] > p.off + n:
                    # covered by an earlier bigger cell?
                    cov = [x for x in cells if x <= o < x + cells[x][0]]
                    if not cov:
                        parts.append((o, 1, None)); o += 1; continue
                    s.split(cells, cov[0]); c = cells[o]
                parts.append((o, c[0], c)); o += c[0]
            if all(x[2] is None or x[2][1] is None for x in parts): return undef_scalar(ty)
            acc = iconst(n * 8, 0)
            for o, sz, c in parts:
                if c is None or c[1] is None: b = leaf(ia(atom('undef', (), sz * 8), sz * 8))
                else: b = cell_bits(*c)
                acc = iadd(acc, ishift('shl', ires(b, n * 8), iconst(n * 8, 8 * (o - p.off))))
            v, k = D.recombine(acc) if n == 4 else acc, 'i'
        if ty.k == 'float':
            return v if k == 'f' else bits2f(v) if k == 'i' else s.bad(k)
        if ty.k == 'double':
            if k == 'd': return v
            if k == 'i': return apply(_op_bits2d, v)
            raise Unsupported('double pun')
        if ty.k == 'ptr':
            if k == 'p': return v
            return undef_scalar(ty)          # an integer is no address any specification allows
        if ty.k == 'int':
            if k == 'p':
                if ty.n == 64: return v
                raise Unsupported('pointer bits')
            if k == 'f': v = f2bits(v)
            if k == 'd': v = apply(_op_d2bits, v)
            if ty.n == 1: return bnot(ieq(ires(v, 1) if False else iand(v, iconst(8 * n, 1)), iconst(8 * n, 0))) if not s.isbool(v) else s.isbool(v)
            return v if ty.n == 8 * n else ires(v, ty.n)
        raise Unsupported('load %r' % ty)

    def covering(s, cells, off, n):
        for o in range(off, max(-1, off - 16), -1):
            c = cells.get(o)
            if c is not None: return o if o + c[0] >= off + n and c[2] in 'ifd' else None
        return None

    def isbool(s, v):
        """node with leaves 0/1 -> boolean node"""
        def op(p):
            return p._const != 0 if p._const in (0, 1) else None
        r = apply(_op_boolify, v)
        return r if not _has_none(r) else None

    def bad(s, k): raise Unsupported('pun ' + k)

    def load(s, mem, p, ty):
        ty = s_resolve(s.m, ty)
        if ty.k in ('vec', 'arr'):
            es = sizeof(s.m, ty.e)
            return tuple(s.load(mem, Ptr(p.obj, p.off + i * es), ty.e) for i in range(ty.n))
        if ty.k == 'struct':
            return tuple(s.load(mem, Ptr(p.obj, p.off + fieldoff(s.m, ty, i)), e) for i, e in enumerate(ty.e))
        return s.load_scalar(mem, p, ty)

    def load_n(s, mem, pn, ty):
        """load through a (possibly guarded) pointer node"""
        if pn.leaf is not None: return s.load(mem, pn.leaf, ty)
        hi = s.load_n(mem, pn.hi, ty); lo = s.load_n(mem, pn.lo, ty)
        c = D._mk(pn.v, TRUE, FALSE)
        return s.choose(c, hi, lo)

    def choose(s, c, a, b):
        if isinstance(a, tuple): return tuple(s.choose(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def store_n(s, mem, pn, ty, v):
        if pn.leaf is not None: return s.store(mem, pn.leaf, ty, v)
        c = D._mk(pn.v, TRUE, FALSE)
        old = s.load_n(mem, pn.hi, ty)
        s.store_n(mem, pn.hi, ty, s.choose(c, v, old))
        old = s.load_n(mem, pn.lo, ty)
        s.store_n(mem, pn.lo, ty, s.choose(c, old, v))

    def merge_mem(s, ins):
        """ins: list of (cond, Mem) -> Mem; the last is the default"""
        if len(ins) == 1: return ins[0][1].copy()
        out = Mem()
        objs = set()
        for _, m in ins: objs |= set(m.o)
        for ob in objs:
            maps = [m.o.get(ob, {}) for _, m in ins]
            keys = set()
            for mp in maps: keys |= set(mp)
            # make granularity agree
            sizes = {}
            bad = False
            for mp in maps:
                for o, c in mp.items():
                    if sizes.setdefault(o, c[0]) != c[0]: bad = True
            if not bad:
                so = sorted(sizes)
                for a, b in zip(so, so[1:]):
                    if a + sizes[a] > b: bad = True
            if bad:
                maps = [dict(mp) for mp in maps]
                for mp in maps:
                    for o in list(mp):
                        if mp[o][0] > 1: s.split(mp, o)
                keys = set()
                for mp in maps: keys |= set(mp)
            res = {}
            for o in keys:
                cs = [mp.get(o) for mp in maps]
                if all(c == cs[0] for c in cs) and cs[0] is not None: res[o] = cs[0]; continue
                live = [c for c in cs if c is not None and c[1] is not None]
                if not live: continue
                kinds = {c[2] for c in live}
                size = live[0][0]
                if len(kinds) > 1:
                    kind = 'i'
                else: kind = kinds.pop()
                def val(c):
                    if c is None or c[1] is None:
                        if kind == 'f': return leaf(pa(atom('undef')))
                        if kind == 'd': return leaf(pa(atom('undef')))
                        if kind == 'p': return leaf(Ptr('undef', 0))
                        return leaf(ia(atom('undef', (), size * 8), size * 8))
                    return cell_bits(*c) if kind == 'i' else c[1]
                v = val(cs[-1])
                for (cond, _), c in list(zip(ins, cs))[-2::-1]:
                    v = ite(cond, val(c), v)
                res[o] = (size, v, kind)
            out.o[ob] = res
        return out

    # ---- constants -----------------------------------------------------------
    def const(s, ty, v):
        ty = s_resolve(s.m, ty)
        k = v[0]
        if ty.k in ('vec', 'arr'):
            if k == 'agg': return tuple(s.const(t, x) for t, x in v[1])
            if k in ('zero', 'undef'): return tuple(s.const(ty.e, v) for _ in range(ty.n))
            if k == 'splat': return tuple(s.const(ty.e, v[2]) for _ in range(ty.n))
            if k == 'str': 
                raw = v[1][2:-1]
                out = []; i = 0
                while i < len(raw):
                    if raw[i] == '\\': out.append(int(raw[i + 1:i + 3], 16)); i += 3
                    else: out.append(ord(raw[i])); i += 1
                return tuple(iconst(8, b) for b in out)
        if ty.k == 'struct':
            if k == 'agg': return tuple(s.const(t, x) for t, x in v[1])
            return tuple(s.const(e, v) for e in ty.e)
        if k == 'undef': return undef_scalar(ty)
        if ty.k == 'int':
            c = v[1] if k == 'int' else 0
            if k == 'ccast': raise Unsupported('const cast')
            if ty.n == 1: return TRUE if c & 1 else FALSE
            return iconst(ty.n, c)
        if ty.k == 'float': return leaf(snap(v[1])) if k == 'fp' else leaf(P0)
        if ty.k == 'double': return leaf(snap(v[1], True)) if k == 'fp' else leaf(P0)
        if ty.k == 'ptr':
            if k == 'glob': return leaf(Ptr(v[1], 0))
            if k in ('null', 'zero'): return leaf(Ptr('null', 0))
            if k == 'cgep':
                return s.gep(s.const(PTR, v[2]), v[1], [(t, s.const(t, x)) for t, x in v[3]])
        raise Unsupported('constant %r' % (v,))

    def gep(s, base, ety, idx):
        off = None
        ty = ety
        total = 0
        sym = None
        for n, (it, iv) in enumerate(idx):
            ty_r = s_resolve(s.m, ty)
            if n == 0: scale, nty = sizeof(s.m, ty), ty
            elif ty_r.k in ('arr', 'vec'): scale, nty = sizeof(s.m, ty_r.e), ty_r.e
            elif ty_r.k == 'struct':
                i = iv.leaf._const
                total += fieldoff(s.m, ty_r, i); ty = ty_r.e[i]; continue
            else: raise Unsupported('gep')
            w = it.n
            def op(p, scale=scale):
                if p._const is None:
                    if only_undef(p): return leaf_int(1 << 40)       # an address nothing specified can live at
                    ks = small_values(p)
                    if ks is None: raise Unsupported('symbolic index %s' % p)
                    r = leaf_int(ks[-1] * scale)
                    for k in ks[-2::-1]: r = D._ite(ieq(leaf(p), iconst(p.w, k)), leaf_int(k * scale), r)
                    return r
                return leaf_int(i_signed(p) * scale)
            d = apply(op, iv)
            sym = d if sym is None else apply(_op_addint, sym, d)
            ty = nty
        if sym is None: sym = leaf_int(total)
        elif total: sym = apply(_op_addint, sym, leaf_int(total))
        return apply(_op_ptradd, base, sym)

    # ---- execution -----------------------------------------------------------
    def run(s, fname, args, mem, cond=TRUE):
        f = s.m.funcs[fname]
        s.visited_funcs.add(fname)
        s.depth += 1
        if s.depth > 30: raise Unsupported('recursion')
        code = instrs(f)
        succ = {}
        for b in f.order:
            t = code[b][-1]
            if t.op == 'br': succ[b] = list(t.a[1])
            elif t.op == 'switch': succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
            elif t.op == 'invoke': succ[b] = [t.a[2]]
            else: succ[b] = []
        # RPO + loop detection
        entry = f.order[0]
        state = {}
        post = []
        st = [(entry, iter(succ[entry]))]
        state[entry] = 1
        back = set()
        while st:
            b, it = st[-1]
            for n in it:
                if n not in state:
                    state[n] = 1; st.append((n, iter(succ[n]))); break
                elif state[n] == 1: back.add((b, n))
            else:
                state[b] = 2; post.append(b); st.pop()
        rpo = post[::-1]
        env = {}
        for (ty, nm, at), v in zip(f.params, args): env[nm] = v
        pos = {b: i for i, b in enumerate(rpo)}
        # loops
        loops = {}
        if back:
            preds = {}
            for b in rpo:
                for n in succ[b]: preds.setdefault(n, []).append(b)
            for b, h in back:
                body = loops.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x); work += preds.get(x, [])
        # values defined in a loop and used after it: every exit edge keeps the value of its own iteration
        carried = {}        # (block, successor) -> names
        if loops:
            defd = {}; used = {}
            for b in rpo:
                for i in code[b]:
                    if i.res: defd[i.res] = b
                    for nm in s.uses(i): used.setdefault(nm, set()).add(b)
            for h, body in loops.items():
                live = [nm for nm, b in defd.items() if b in body and not used.get(nm, set()) <= body]
                if not live: continue
                for b in body:
                    for dst in succ[b]:
                        if dst not in body: carried.setdefault((b, dst), set()).update(live)
        bsnap = {}
        rets = []
        pend = {entry: [(None, cond, mem, {})]}
        # pend: block -> list of (pred, cond, mem, values of this path)
        def do_block(b, incoming):
            bc = FALSE
            for _, c, _m, _s in incoming: bc = bor(bc, c)
            if bc is FALSE: return
            incoming = [x for x in incoming if x[1] is not FALSE]
            # phis
            k = 0
            ins = code[b]
            phis = []
            while ins[k].op == 'phi':
                i = ins[k]; vals = []
                tab = {l: v for v, l in i.a}
                for pred, c, _m, sn in incoming:
                    o = tab[pred]
                    vals.append((c, sn[o[1]] if o[0] == 'loc' and o[1] in sn else s.val(env, i.ty, o)))
                v = vals[-1][1]
                for c, x in vals[-2::-1]: v = s.choose(c, x, v)
                phis.append((i.res, v)); k += 1
            mine = {}
            for nm in set().union(*[sn for _, _, _, sn in incoming]):
                if not all(nm in sn for _, _, _, sn in incoming): continue
                v = incoming[-1][3][nm]
                for _, c, _m, sn in incoming[-2::-1]: v = s.choose(c, sn[nm], v)
                env[nm] = mine[nm] = v
            bsnap[b] = mine
            for r, v in phis: env[r] = v; mine.pop(r, None)
            m = s.merge_mem([(c, mm) for _, c, mm, _s in incoming])
            out = {}
            for i in ins[k:]:
                s.ninstr += 1
                t = s.step(f, i, env, m, bc)
                if mine and i.res in mine: del mine[i.res]
                if t is None: continue
                if t[0] == 'ret': rets.append((bc, t[1], m))
                elif t[0] == 'br':
                    for c, dst in t[1]:
                        cc = band(bc, c)
                        if cc is not FALSE:
                            out.setdefault(dst, FALSE)
                            out[dst] = bor(out[dst], cc)
                elif t[0] == 'stop': pass
                break_ = True
            for dst, c in out.items():
                sn = bsnap.get(b) or {}
                k = carried.get((b, dst))
                if k:
                    sn = dict(sn)
                    for nm in k:
                        if nm in env: sn[nm] = env[nm]
                elif sn: sn = {nm: v for nm, v in sn.items() if nm in env}
                pend.setdefault(dst, []).append((b, c, m, sn))
        def do_region(blocks, header):
            """blocks in RPO; header of the enclosing loop (its back edges stay pending)"""
            done = set()
            for b in blocks:
                if b in done: continue
                if b in loops and b != header:
                    body = loops[b]
                    order = [x for x in rpo if x in body]
                    it = 0
                    while pend.get(b):
                        it += 1
                        if it > 600: raise Unsupported('loop without constant trip count in ' + fname)
                        do_region(order, b)
                        inc = [x for x in pend.get(b, []) if x[1] is not FALSE]
                        if inc and it > 40 and any(x[1] is not TRUE and x[1].leaf is None for x in inc):
                            raise Unsupported('loop with data-dependent trip count in ' + fname)
                    done |= body
                    continue
                inc = pend.pop(b, [])
                done.add(b)
                if inc: do_block(b, inc)
        do_region(rpo, None)
        s.depth -= 1
        if not rets:
            if s.aborts: raise Stop()
            raise Unsupported('no return in ' + fname)
        m = s.merge_mem([(c, mm) for c, _, mm in rets])
        rv = rets[-1][1]
        if rv is not None:
            for c, v, _ in rets[-2::-1]: rv = s.choose(c, v, rv)
        mem.o = m.o
        return rv

    def uses(s, i):
        """local names an instruction mentions"""
        out = []
        st = [i.a]
        while st:
            x = st.pop()
            if isinstance(x, (tuple, list)):
                if len(x) == 2 and x[0] == 'loc': out.append(x[1])
                else: st.extend(x)
        return out
    def val(s, env, ty, v):
        if v[0] == 'loc':
            r = env.get(v[1])
            if r is None: raise Unsupported('undefined local ' + v[1])
            return r
        return s.const(ty, v)

    def cvt(s, op, fty, tty, v):
        if fty.k == 'vec' and op != 'bitcast': return tuple(s.cvt(op, fty.e, tty.e, x) for x in v)
        if op in ('zext', 'sext'):
            if fty.n == 1:
                return ite(v, iconst(tty.n, -1 if op == 'sext' else 1), iconst(tty.n, 0))
            return ires(v, tty.n, op == 'sext')
        if op == 'trunc':
            if tty.n == 1:
                b = s.isbool(v)
                if b is not None: return b
                return bnot(ieq(iand(v, iconst(fty.n, 1)), iconst(fty.n, 0)))
            return ires(v, tty.n)
        if op in ('fpext', 'fptrunc'): return v
        if op in ('sitofp', 'uitofp'):
            if fty.n == 1: return ite(v, leaf(pc(-1 if op == 'sitofp' else 1)), leaf(P0))
            return conv(op, v)
        if op in ('fptosi', 'fptoui'): return conv(op, v, tty.n)
        if op == 'bitcast': return s.bitcast(fty, tty, v)
        if op == 'ptrtoint' and tty.n == 64: return v           # addresses keep their object; only differences and comparisons are defined on them
        if op == 'inttoptr': return apply(_op_toptr, v)
        raise Unsupported('cast ' + op)

    def bitcast(s, fty, tty, v):
        if fty.k == 'ptr': return v
        fl = [(fty.e, x) for x in v] if fty.k == 'vec' else [(fty, v)]
        fb = sizeof_bits(s.m, fl[0][0])
        te = tty.e if tty.k == 'vec' else tty
        tn = tty.n if tty.k == 'vec' else 1
        tb = sizeof_bits(s.m, te)
        def asint(t, x):
            if t.k == 'float': return f2bits(x)
            if t.k == 'double': return apply(_op_d2bits, x)
            if t.k == 'int':
                if t.n == 1: return x
                return x
            raise Unsupported('bitcast from %r' % t)
        def fromint(x):
            if te.k == 'float': return bits2f(x)
            if te.k == 'double': return apply(_op_bits2d, x)
            if te.k == 'int': return x
            raise Unsupported('bitcast to %r' % te)
        out = []
        if fb == tb:
            if fl[0][0].k == te.k: out = [x for _, x in fl]
            else: out = [fromint(asint(t, x)) for t, x in fl]
        elif fb < tb:
            r = tb // fb
            for i in range(tn):
                acc = iconst(tb, 0)
                for j in range(r):
                    t, x = fl[i * r + j]
                    x = asint(t, x)
                    if t.k == 'int' and t.n == 1: x = ite(x, iconst(tb, 1 << j), iconst(tb, 0)); acc = iadd(acc, x)
                    else: acc = iadd(acc, ishift('shl', ires(x, tb), iconst(tb, fb * j)))
                out.append(fromint(acc))
        else:
            r = fb // tb
            for t, x in fl:
                x = asint(t, x)
                for j in range(r):
                    y = ires(ishift('lshr', x, iconst(fb, tb * j)), tb) if tb > 1 else None
                    if y is None: raise Unsupported('bitcast to bits')
                    out.append(fromint(y))
        return tuple(out) if tty.k == 'vec' else out[0]

    def binop(s, op, ty, a, b):
        if ty.k == 'vec': return tuple(s.binop(op, ty.e, x, y) for x, y in zip(a, b))
        if op == 'fadd': return fadd(a, b)
        if op == 'fsub': return fsub(a, b)
        if op == 'fmul': return fmul(a, b)
        if op == 'fdiv': return fdiv(a, b)
        if op == 'frem': return fn2('fmod', a, b)
        if ty.n == 1:
            if op == 'and' or op == 'mul': return band(a, b)
            if op == 'or': return bor(a, b)
            if op in ('xor', 'add', 'sub'): return bxor(a, b)
            raise Unsupported('i1 ' + op)
        if ty.n == 64 and (s.hasptr(a) or s.hasptr(b)):
            if op == 'sub': return apply(_op_ptrsub, a, b)
            if op == 'add': return apply(_op_ptrplus, a, b)
            raise Unsupported('arithmetic on an address')
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op == 'and': return iand(a, b)
        if op == 'or': return ior(a, b)
        if op == 'xor': return ixor(a, b)
        if op in ('shl', 'lshr', 'ashr'): return ishift(op, a, b)
        return idiv(op, a, b)

    def hasptr(s, n):
        while n.leaf is None: n = n.lo
        return isinstance(n.leaf, Ptr)
    def cmp(s, op, pred, ty, a, b):
        if ty.k == 'vec': return tuple(s.cmp(op, pred, ty.e, x, y) for x, y in zip(a, b))
        if op == 'fcmp':
            if pred in ('oeq', 'ueq'): return feq(a, b)
            if pred in ('one', 'une'): return bnot(feq(a, b))
            if pred in ('olt', 'ult'): return flt(a, b)
            if pred in ('ogt', 'ugt'): return flt(b, a)
            if pred in ('ole', 'ule'): return bnot(flt(b, a))
            if pred in ('oge', 'uge'): return bnot(flt(a, b))
            return {'ord': TRUE, 'uno': FALSE, 'true': TRUE, 'false': FALSE}[pred]
        if ty.k == 'int' and ty.n == 1:
            e = bnot(bxor(a, b))
            if pred == 'eq': return e
            if pred == 'ne': return bnot(e)
            if pred in ('ult', 'sgt'): return band(bnot(a), b)
            if pred in ('ugt', 'slt'): return band(a, bnot(b))
            if pred in ('ule', 'sge'): return bor(bnot(a), b)
            return bor(a, bnot(b))
        if s.hasptr(a) or s.hasptr(b):
            sg = pred[0] == 's'
            if sg: raise Unsupported('signed address comparison')
            eq = apply(_op_ptreq, a, b)
            if pred in ('eq', 'ne'): return eq if pred == 'eq' else bnot(eq)
            x, y = (b, a) if pred in ('ugt', 'ule') else (a, b)
            lt = apply(_op_ptrlt, x, y)
            return lt if pred in ('ult', 'ugt') else bnot(lt)
        if pred == 'eq': return ieq(a, b)
        if pred == 'ne': return bnot(ieq(a, b))
        sg = pred[0] == 's'
        if pred[1:] == 'lt': return ilt(a, b, sg)
        if pred[1:] == 'gt': return ilt(b, a, sg)
        if pred[1:] == 'le': return bnot(ilt(b, a, sg))
        return bnot(ilt(a, b, sg))

    def step(s, f, i, env, mem, bc):
        op = i.op
        E = lambda ty, v: s.val(env, ty, v)
        if op in BIN: env[i.res] = s.binop(op, i.ty, E(i.ty, i.a[0]), E(i.ty, i.a[1]))
        elif op == 'fneg':
            v = E(i.ty, i.a[0])
            env[i.res] = tuple(fneg(x) for x in v) if i.ty.k == 'vec' else fneg(v)
        elif op in ('icmp', 'fcmp'):
            env[i.res] = s.cmp(op, i.a[0], i.ty, E(i.ty, i.a[1]), E(i.ty, i.a[2]))
        elif op in CAST: env[i.res] = s.cvt(op, i.a[0], i.ty, E(i.a[0], i.a[1]))
        elif op == 'load':
            p = D.under(E(PTR, i.a[0]), bc)
            if s.track is not None: s.note(p, i.ty, i.a[1], i, bc, 'load')
            env[i.res] = s.load_n(mem, p, i.ty)
        elif op == 'store':
            p = D.under(E(PTR, i.a[1]), bc)
            if s.track is not None: s.note(p, i.ty, i.a[2], i, bc, 'store')
            s.store_n(mem, p, i.ty, E(i.ty, i.a[0]))
        elif op == 'getelementptr':
            env[i.res] = s.gep(E(PTR, i.a[1]), i.a[0], [(t, E(t, v)) for t, v in i.a[2]])
        elif op == 'alloca':
            s.nalloca += 1
            ob = 'alloca%d' % s.nalloca
            mem.o[ob] = {}
            s.objalign[ob] = i.a[1]; s.objsize[ob] = sizeof(s.m, s_resolve(s.m, i.ty))
            env[i.res] = leaf(Ptr(ob, 0))
        elif op == 'select':
            c = E(i.a[0], i.a[1]); a = E(i.ty, i.a[2]); b = E(i.ty, i.a[3])
            if isinstance(c, tuple): env[i.res] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
            else: env[i.res] = s.choose(c, a, b)
        elif op == 'br':
            if i.a[0] is None: return ('br', [(TRUE, i.a[1][0])])
            c = E(I(1), i.a[0])
            return ('br', [(c, i.a[1][0]), (bnot(c), i.a[1][1])])
        elif op == 'switch':
            v = E(i.ty, i.a[0]); outs = []; rest = TRUE
            for cv, l in i.a[2]:
                e = ieq(v, s.const(i.ty, cv)); outs.append((e, l)); rest = band(rest, bnot(e))
            outs.append((rest, i.a[1]))
            return ('br', outs)
        elif op == 'ret': return ('ret', None if i.a[0] is None else E(i.ty, i.a[0]))
        elif op == 'unreachable': return ('stop',)
        elif op == 'freeze': env[i.res] = E(i.ty, i.a[0])
        elif op == 'extractelement':
            v = E(i.a[0], i.a[1]); ix = E(i.a[2], i.a[3])
            env[i.res] = s.pick(v, ix)
        elif op == 'insertelement':
            v = list(E(i.ty, i.a[0])); e = E(i.a[1], i.a[2]); ix = E(i.a[3], i.a[4])
            if ix.leaf is None or ix.leaf._const is None: raise Unsupported('symbolic lane')
            v[ix.leaf._const] = e; env[i.res] = tuple(v)
        elif op == 'shufflevector':
            a = E(i.a[0], i.a[1]); b = E(i.a[0], i.a[2])
            both = tuple(a) + tuple(b)
            mk = i.a[4]
            if mk[0] == 'zero': ix = [0] * i.a[3].n
            elif mk[0] == 'undef': ix = [None] * i.a[3].n
            else: ix = [x[1] if x[0] == 'int' else None for _, x in mk[1]]
            env[i.res] = tuple(both[k] if k is not None else undef_scalar(i.ty.e) for k in ix)
        elif op == 'extractvalue':
            v = E(i.ty, i.a[0])
            for k in i.a[1]: v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            def ins(v, ix, e):
                v = list(v); v[ix[0]] = e if len(ix) == 1 else ins(v[ix[0]], ix[1:], e); return tuple(v)
            env[i.res] = ins(E(i.ty, i.a[0]), i.a[3], E(i.a[1], i.a[2]))
        elif op in ('call', 'invoke'):
            try: r = s.call(f, i, env, mem, bc)
            except Stop: return ('stop',)
            if i.res: env[i.res] = r
            if op == 'invoke': return ('br', [(TRUE, i.a[2])])
        else: raise Unsupported('instruction ' + op)
        return None

    def note(s, p, size, al, i, bc, what):
        """records an access: (object, offset, size, alignment assumed, instruction, condition, kind)"""
        if not isinstance(size, int): size = sizeof(s.m, s_resolve(s.m, size))
        for c, q in cases(p):
            c = band(c, bc)
            if c is not FALSE and isinstance(q, Ptr): s.track.append((q.obj, q.off, size, al or 1, i, c, what))

    def note_block(s, ps, k, i, bc):
        if s.track is None or k.leaf is None or k.leaf._const is None: return
        als = getattr(i, 'als', ())
        for j, (p, what) in enumerate(ps): s.note(D.under(p, bc), k.leaf._const, als[j] if j < len(als) else 1, i, bc, what)

    def pick(s, v, ix):
        if ix.leaf is not None and ix.leaf._const is not None: return v[ix.leaf._const]
        r = v[-1]
        for k in range(len(v) - 2, -1, -1):
            r = ite(ieq(ix, iconst(ix_w(ix), k)), v[k], r)
        return r

    LIB1 = {'asinh', 'acosh', 'atanh', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'exp2', 'log', 'log2', 'log10',
            'sqrt', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'cbrt', 'rint', 'nearbyint', 'roundeven', 'expm1', 'log1p'}
    LIB2 = {'pow', 'atan2', 'fmod', 'hypot'}

    def vec1(s, v, fn): return tuple(fn(x) for x in v) if isinstance(v, tuple) else fn(v)
    def vecn(s, fn, *vs):
        if isinstance(vs[0], tuple): return tuple(fn(*x) for x in zip(*vs))
        return fn(*vs)

    def log2f(s, x):
        """single precision log2: exact enough to find the binade of an integer only below 2^21"""
        def op(p):
            A = D.p_single_atom(p)
            big = A is not None and A.kind == 'uitofp' and i_bits(A.args[0]) > 20
            return D._fn1('log2f' if big else 'log2')(p)
        return apply(op, x)

    def call(s, f, i, env, mem, bc):
        callee, args = i.a[0], i.a[1]
        if callee == '<asm>': raise Unsupported('inline asm')
        if callee[0] != 'glob':
            # a function value: the analysis must know which function it is
            v = s.val(env, PTR, callee)
            if v.leaf is None or not isinstance(v.leaf, Ptr) or v.leaf.off or v.leaf.obj not in s.m.funcs: raise Unsupported('indirect call')
            callee = ('glob', v.leaf.obj)
        mdl = s.call_model(callee[1][1:].strip('"'), i, env, mem, args, bc)
        if mdl is not NotImplemented: return mdl
        n = callee[1][1:].strip('"')
        if n.startswith('llvm.'):
            s.bc = bc
            r = s.intrinsic(n, i, env, mem, args)
            if r is not NotImplemented: return r
            raise Unsupported('intrinsic ' + n)
        if callee[1] in s.m.funcs:
            av = [s.val(env, t, v) for t, v in args]
            return s.run(callee[1], av, mem, bc)
        if n in ('ldexp', 'ldexpf'):
            def lde(x, k):
                if k._const is None: raise Unsupported('symbolic power of two')
                k = i_signed(k)
                if x._const is None: return D.p_scale(x, D.Fraction(2) ** k)
                return pc(x._const * D.Fraction(2) ** k)
            return apply(lde, s.val(env, *args[0]), s.val(env, *args[1]))
        if n == 'log2f': return s.log2f(s.val(env, *args[0]))
        for cand in (n, n[:-1] if n.endswith('f') else n):
            if cand in s.LIB1: return fn1(cand if cand != 'rint' else 'nearbyint', s.val(env, *args[0]))
            if cand in s.LIB2: return fn2(cand, s.val(env, *args[0]), s.val(env, *args[1]))
            if cand in ('fmin', 'fmax'):
                return (fmin if cand == 'fmin' else fmax)(s.val(env, *args[0]), s.val(env, *args[1]))
        if n in ('memcmp', 'bcmp'):
            a, b, k = (s.val(env, *x) for x in args)
            s.note_block(((a, 'load'), (b, 'load')), k, i, bc)
            return s.memcmp(mem, a, b, k, n)
        if n in ('memcpy', 'memmove'):
            a, b, k = (s.val(env, *x) for x in args)
            s.note_block(((a, 'store'), (b, 'load')), k, i, bc)
            s.memcpy(mem, D.under(a, bc), D.under(b, bc), k); return a
        if n == '__cxa_guard_acquire': return iconst(32, 1)
        if n == '__cxa_guard_release': return None
        h = s.hook_call(n, i, env, mem, args, bc)
        if h is not NotImplemented: return h
        if n in NORETURN: s.aborts.append((n, bc)); s.abort_at.append(i); raise Stop()
        raise Unsupported('call to ' + n)

    def call_model(s, n, i, env, mem, args, bc): return NotImplemented
    def hook_call(s, n, i, env, mem, args, bc): return NotImplemented

    def memcmp(s, mem, a, b, k, name):
        if k.leaf is None or k.leaf._const is None: raise Unsupported('memcmp length')
        n = k.leaf._const
        xs = []; ys = []
        o = 0
        while o < n:
            st = 4 if n - o >= 4 else 1
            x = s.load_n(mem, apply(_op_ptradd, a, leaf_int(o)), I(8 * st)); y = s.load_n(mem, apply(_op_ptradd, b, leaf_int(o)), I(8 * st))
            xs.append(x); ys.append(y); o += st
        r = iconst(32, 0)
        pre = [(ilt(D.bswap(x), D.bswap(y), False), ieq(x, y)) for x, y in zip(xs, ys)]   # (fixes the predicate order: first word first)
        for (x, y), (lt, eq) in reversed(list(zip(zip(xs, ys), pre))):     # bytes compare as big-endian words
            r = ite(eq, r, ite(lt, iconst(32, -1), iconst(32, 1)))
        return r

    def memcpy(s, mem, d, sp, k):
        if k.leaf is None or k.leaf._const is None: raise Unsupported('memcpy length')
        n = k.leaf._const
        if d.leaf is None or sp.leaf is None:
            for cd, dl in cases(d):
                base = Mem({dl.obj: dict(mem.o.get(dl.obj, {}))}); ins = []
                for cs, sl in cases(sp):
                    c = band(cd, cs)
                    if c is FALSE: continue
                    m = mem.copy() if sl.obj == dl.obj else Mem({dl.obj: dict(mem.o.get(dl.obj, {})), sl.obj: mem.o.get(sl.obj, s.global_cells(sl.obj) if sl.obj.startswith('@') else {})})
                    s.memcpy(m, leaf(dl), leaf(sl), k)
                    ins.append((c, Mem({dl.obj: m.o[dl.obj]})))
                mem.o[dl.obj] = s.merge_mem(ins + [(TRUE, base)]).o[dl.obj]
            return
        d, sp = d.leaf, sp.leaf
        if sp.obj.startswith('@') and sp.obj not in mem.o: mem.o[sp.obj] = s.global_cells(sp.obj)
        src = mem.o.get(sp.obj)
        if src is None: raise Unsupported('memcpy source')
        # cells fully inside
        for o in sorted(src):
            if o in src and o < sp.off + n and o + src[o][0] > sp.off and (o < sp.off or o + src[o][0] > sp.off + n): s.split(src, o)
        items = [(o, c) for o, c in src.items() if sp.off <= o < sp.off + n]
        dst = mem.o.setdefault(d.obj, {})
        s.clear_range(dst, d.off, n)
        for o, c in items: dst[d.off + o - sp.off] = c

    def intrinsic(s, n, i, env, mem, args):
        A = lambda k: s.val(env, *args[k])
        p = n.split('.')
        b = p[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'stackrestore', 'prefetch', 'va_start', 'va_end'): return None
        if b == 'expect': return A(0)
        if b == 'log2' and i.ty.k == 'float': return s.log2f(A(0))
        if b == 'ctlz':
            def clz(x):
                w = x_w(x)
                return ite(ieq(x, iconst(w, 0)), iconst(w, w), isub(iconst(w, w - 1), ires(conv('fptoui', fn1('log2', conv('uitofp', x)), 32), w)))
            return s.vec1(A(0), clz)
        if b in s.LIB1: return s.vec1(A(0), lambda x: fn1({'rint': 'nearbyint', 'roundeven': 'nearbyint'}.get(b, b), x))
        if b in s.LIB2: return s.vecn(lambda x, y: fn2(b, x, y), A(0), A(1))
        if b == 'powi':
            e = A(1)
            return s.vec1(A(0), lambda x: fn2('pow', x, leaf(pc(i_signed(e.leaf)))))
        if b in ('fma', 'fmuladd'): return s.vecn(lambda x, y, z: fadd(fmul(x, y), z), A(0), A(1), A(2))
        if b in ('minnum', 'minimum'): return s.vecn(fmin, A(0), A(1))
        if b in ('maxnum', 'maximum'): return s.vecn(fmax, A(0), A(1))
        if b == 'copysign':
            return s.vecn(lambda x, y: ite(flt(y, leaf(P0)), fneg(fabs_(x)), fabs_(x)), A(0), A(1))
        if b in ('smin', 'umin'): return s.vecn(lambda x, y: imin(x, y, b[0] == 's'), A(0), A(1))
        if b in ('smax', 'umax'): return s.vecn(lambda x, y: imax(x, y, b[0] == 's'), A(0), A(1))
        if b == 'abs':
            return s.vec1(A(0), lambda x: ite(apply(D._islt0, x), apply(i_neg, x), x))
        if s.track is not None and b in ('memcpy', 'memmove'): s.note_block(((A(0), 'store'), (A(1), 'load')), A(2), i, s.bc)
        if s.track is not None and b == 'memset': s.note_block(((A(0), 'store'),), A(2), i, s.bc)
        if b in ('trap', 'ubsantrap'):
            s.aborts.append((n if b == 'trap' else 'ubsantrap %s' % (A(0).leaf._const if A(0).leaf is not None else ''), s.bc)); s.abort_at.append(i); raise Stop()
        if b == 'memcpy' or b == 'memmove': s.memcpy(mem, D.under(A(0), s.bc), D.under(A(1), s.bc), D.under(A(2), s.bc)); return None
        if b == 'memset':
            d, v, k = D.under(A(0), s.bc), A(1), D.under(A(2), s.bc)
            if k.leaf is None or k.leaf._const is None or d.leaf is None: raise Unsupported('memset')
            nn = k.leaf._const; dst = mem.o.setdefault(d.leaf.obj, {})
            s.clear_range(dst, d.leaf.off, nn)
            if v.leaf is None or v.leaf._const is None: raise Unsupported('memset value')
            w = v.leaf._const
            o = 0
            while o < nn:
                st = 4 if nn - o >= 4 else 1
                dst[d.leaf.off + o] = (st, iconst(8 * st, int.from_bytes(bytes([w]) * st, 'little')), 'i'); o += st
            return None
        if b in ('sadd', 'uadd', 'ssub', 'usub') and p[2] == 'with':
            x, y = A(0), A(1); sg = b[0] == 's'
            r = iadd(x, y) if b[1:] == 'add' else isub(x, y)
            if not sg: return (r, ilt(r, x, False) if b == 'uadd' else ilt(x, y, False))
            z = iconst(x_w(x), 0)
            up, dn = ilt(x, r, True), ilt(r, x, True)
            # adding something negative must not raise, adding something positive not lower the value
            neg, pos = ilt(y, z, True), ilt(z, y, True)
            return (r, bor(band(neg, up), band(pos, dn)) if b == 'sadd' else bor(band(neg, dn), band(pos, up)))
        if b in ('umul', 'smul') and p[2] == 'with':
            x, y = A(0), A(1); w = x_w(x); k = 'sext' if b[0] == 's' else 'zext'
            if w > 32: return NotImplemented
            def full(u, v):
                if u._const is None or v._const is None: raise Unsupported('product overflow')
                f = i_signed if b[0] == 's' else (lambda q: q._const)
                q = f(u) * f(v); lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if b[0] == 's' else (0, (1 << w) - 1)
                return TRUE if not lo <= q <= hi else FALSE
            return (imul(x, y), apply(lambda u, v: full(u, v), x, y))
        if b in ('umul', 'sadd', 'uadd', 'ssub', 'usub', 'smul'): return NotImplemented
        if b in ('fshl', 'fshr'):
            def fsh(x, y, z):
                w = x_w(x)
                if z.leaf is None or z.leaf._const is None: raise Unsupported('funnel')
                k = z.leaf._const % w
                if b == 'fshr': k = (w - k) % w
                if k == 0: return x if b == 'fshl' else y
                return ior(ishift('shl', x, iconst(w, k)), ishift('lshr', y, iconst(w, w - k)))
            return s.vecn(fsh, A(0), A(1), A(2))
        if b == 'bitreverse':
            def brv(x):
                w = x_w(x); acc = iconst(w, 0)
                for j in range(w): acc = iadd(acc, ishift('shl', iand(ishift('lshr', x, iconst(w, j)), iconst(w, 1)), iconst(w, w - 1 - j)))
                return acc
            return s.vec1(A(0), brv)
        if b == 'bswap':
            def bsw(x):
                w = x_w(x); acc = iconst(w, 0)
                for j in range(w // 8):
                    by = ires(ishift('lshr', x, iconst(w, 8 * j)), 8)
                    acc = iadd(acc, ishift('shl', ires(by, w), iconst(w, w - 8 - 8 * j)))
                return acc
            return s.vec1(A(0), bsw)
        if b == 'vector' and p[2] == 'reduce':
            k = p[3]; v = A(len(args) - 1)
            init = A(0) if len(args) == 2 else None
            fns = {'and': band if isbooltuple(v) else iand, 'or': bor if isbooltuple(v) else ior, 'xor': ixor, 'add': iadd, 'mul': imul,
                   'fadd': fadd, 'fmul': fmul, 'fmin': fmin, 'fmax': fmax, 'fmaximum': fmax, 'fminimum': fmin,
                   'smin': lambda x, y: imin(x, y, True), 'smax': lambda x, y: imax(x, y, True),
                   'umin': lambda x, y: imin(x, y, False), 'umax': lambda x, y: imax(x, y, False)}
            fn = fns[k]
            r = init
            for x in v: r = x if r is None else fn(r, x)
            return r
        if b == 'ptrmask' or b == 'objectsize': return NotImplemented
        if b in ('x86', 'aarch64'): return s.target(n, p, A, args)
        if b == 'is' or n.startswith('llvm.is.fpclass'): return s.vec1(A(0), lambda x: FALSE)
        if b in ('fptosi', 'fptoui'):
            w = i.ty.e.n if i.ty.k == 'vec' else i.ty.n
            return s.vec1(A(0), lambda x: conv(b, x, w))
        return NotImplemented

    def target(s, n, p, A, args):
        t = '.'.join(p[2:])
        z32 = lambda c: ite(c, iconst(32, -1), iconst(32, 0))
        if t in ('sse.min.ps',): return s.vecn(lambda x, y: fmin(x, y), A(0), A(1))
        if t in ('sse.max.ps',): return s.vecn(lambda x, y: fmax(x, y), A(0), A(1))
        if t in ('sse.min.ss',): return (lambda x, y: (fmin(x[0], y[0]),) + x[1:])(A(0), A(1))
        if t in ('sse.max.ss',): return (lambda x, y: (fmax(x[0], y[0]),) + x[1:])(A(0), A(1))
        if t == 'sse.movmsk.ps':
            v = A(0); r = iconst(32, 0)
            for k, x in enumerate(v): r = iadd(r, ite(signbit_f(x), iconst(32, 1 << k), iconst(32, 0)))
            return r
        if t in ('sse2.pmovmskb.128',):
            v = A(0); r = iconst(32, 0)
            for k, x in enumerate(v): r = iadd(r, ite(apply(D._islt0, x), iconst(32, 1 << k), iconst(32, 0)))
            return r
        if t == 'sse41.blendvps':
            return tuple(ite(signbit_f(c), y, x) for x, y, c in zip(A(0), A(1), A(2)))
        if t in ('sse41.pblendvb',):
            return tuple(ite(apply(D._islt0, c), y, x) for x, y, c in zip(A(0), A(1), A(2)))
        if t in ('sse41.ptestz',):
            r = ball([ieq(iand(x, y), iconst(x_w(x), 0)) for x, y in zip(A(0), A(1))])
            return ite(r, iconst(32, 1), iconst(32, 0))
        if t in ('sse41.ptestc',):
            r = ball([ieq(iand(apply(i_not, x), y), iconst(x_w(x), 0)) for x, y in zip(A(0), A(1))])
            return ite(r, iconst(32, 1), iconst(32, 0))
        if t == 'sse41.ptestnzc': return NotImplemented
        if t == 'sse41.round.ps' or t == 'sse41.round.ss':
            m = A(len(args) - 1).leaf._const
            nm = {0: 'nearbyint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'nearbyint'}[m & 7]
            return s.vec1(A(0), lambda x: fn1(nm, x))
        if t in ('sse2.cvttps2dq', ): return s.vec1(A(0), lambda x: conv('fptosi', x, 32))
        if t in ('sse2.cvtps2dq', ): return s.vec1(A(0), lambda x: conv('fptosi', fn1('nearbyint', x), 32))
        if t == 'sse.cvttss2si': return conv('fptosi', A(0)[0], 32)
        if t in ('sse41.dpps',):
            m = A(2).leaf._const; x, y = A(0), A(1)
            r = leaf(P0)
            for k in range(4):
                if m >> (4 + k) & 1: r = fadd(r, fmul(x[k], y[k]))
            return tuple(r if m >> k & 1 else leaf(P0) for k in range(4))
        if t == 'sse41.insertps':
            m = A(2).leaf._const; x, y = list(A(0)), A(1)
            x[m >> 4 & 3] = y[m >> 6 & 3]
            return tuple(leaf(P0) if m >> k & 1 else x[k] for k in range(4))
        if t in ('sse.cmp.ps', 'sse.cmp.ss'):
            m = A(2).leaf._const & 7
            fn = {0: feq, 1: flt, 2: fle, 4: lambda x, y: bnot(feq(x, y)), 5: lambda x, y: bnot(flt(x, y)), 6: lambda x, y: bnot(fle(x, y)),
                  3: lambda x, y: FALSE, 7: lambda x, y: TRUE}[m]
            r = tuple(bits2f(z32(fn(x, y))) for x, y in zip(A(0), A(1)))
            return r if t.endswith('ps') else (r[0],) + A(0)[1:]
        if t in ('sse2.psrl.d', 'sse2.pslli.d', 'sse2.psrli.d', 'sse2.psrai.d'):
            c = A(1)
            k = c if not isinstance(c, tuple) else c[0]
            op = {'sse2.pslli.d': 'shl', 'sse2.psrli.d': 'lshr', 'sse2.psrai.d': 'ashr'}.get(t)
            if op: return s.vec1(A(0), lambda x: ishift(op, x, k))
        if t in ('avx2.psllv.d', 'avx2.psrlv.d', 'avx2.psrav.d'):
            op = {'avx2.psllv.d': 'shl', 'avx2.psrlv.d': 'lshr', 'avx2.psrav.d': 'ashr'}[t]
            return s.vecn(lambda x, y: ishift(op, x, y), A(0), A(1))
        if t == 'sse.rsqrt.ps': return s.vec1(A(0), lambda x: fdiv(leaf(P1), fsqrt(x)))
        if t == 'sse.rcp.ps': return s.vec1(A(0), lambda x: fdiv(leaf(P1), x))
        if t.startswith('neon.'):
            u = t.split('.')[1]
            if u in ('fmin', 'fminnm'): return s.vecn(fmin, A(0), A(1))
            if u in ('fmax', 'fmaxnm'): return s.vecn(fmax, A(0), A(1))
            if u in ('smin', 'umin'): return s.vecn(lambda x, y: imin(x, y, u[0] == 's'), A(0), A(1))
            if u in ('smax', 'umax'): return s.vecn(lambda x, y: imax(x, y, u[0] == 's'), A(0), A(1))
            def red(fn):
                v = A(0); r = v[0]
                for x in v[1:]: r = fn(r, x)
                return r
            if u in ('faddv',): return red(fadd)
            if u in ('fminv', 'fminnmv'): return red(fmin)
            if u in ('fmaxv', 'fmaxnmv'): return red(fmax)
            if u == 'umaxv': return red(lambda x, y: imax(x, y, False))
            if u == 'uminv': return red(lambda x, y: imin(x, y, False))
            if u == 'smaxv': return red(lambda x, y: imax(x, y, True))
            if u == 'sminv': return red(lambda x, y: imin(x, y, True))
            if u in ('uaddv', 'saddv'): return red(iadd)
            if u == 'ushl':
                def ush(x, y):
                    if y.leaf is not None and y.leaf._const is not None:
                        k = i_signed(y.leaf)
                        return ishift('shl', x, iconst(32, k)) if k >= 0 else ishift('lshr', x, iconst(32, -k))
                    return ushl_sym(x, y)
                return s.vecn(ush, A(0), A(1))
            if u == 'sshl':
                return s.vecn(lambda x, y: sshl_sym(x, y), A(0), A(1))
            if u in ('fcvtzs',): return s.vec1(A(0), lambda x: conv('fptosi', x, 32))
            if u in ('fcvtzu',): return s.vec1(A(0), lambda x: conv('fptoui', x, 32))
            if u == 'frintn': return s.vec1(A(0), lambda x: fn1('nearbyint', x))
            if u == 'fmulx': return s.vecn(fmul, A(0), A(1))
            if u == 'abs': return s.vec1(A(0), lambda x: ite(apply(D._islt0, x), apply(i_neg, x), x))
            if u == 'faddp':
                a, b = A(0), A(1); c = a + b
                return tuple(fadd(c[2 * k], c[2 * k + 1]) for k in range(len(a)))
        return NotImplemented

def ushl_sym(x, y):
    def op(a, b): return ia(atom('ushl', (a, b), a.w), a.w)
    b = y
    def isneg(p):
        return p
    # left shift by non-negative amounts / right shift by negated amounts
    def f(a, b):
        nb = i_neg(b)
        A1 = i_single_atom(b)
        l = len(b.t) == 1 and next(iter(b.t.values())) > (1 << (b.w - 1))
        if l: return D._shop('lshr')(a, nb)
        return D._shop('shl')(a, b)
    return apply(f, x, y)
def sshl_sym(x, y):
    def f(a, b):
        if b._const is not None:
            k = i_signed(b)
            return D._shop('shl')(a, ic(a.w, k)) if k >= 0 else D._shop('ashr')(a, ic(a.w, -k))
        l = len(b.t) == 1 and next(iter(b.t.values())) > (1 << (b.w - 1))
        if l: return D._shop('ashr')(a, i_neg(b))
        return D._shop('shl')(a, b)
    return apply(f, x, y)

_ints_tab = {}
def cases(n):
    """[(condition, leaf value)] of a guarded value"""
    order = []; seen = set(); st = [(n, False)]
    while st:
        x, done = st.pop()
        if done: order.append(x); continue
        if x.id in seen: continue
        seen.add(x.id); st.append((x, True))
        if x.leaf is None: st += [(x.lo, False), (x.hi, False)]
    cond = {n.id: TRUE}; out = []
    for x in order[::-1]:
        c = cond.get(x.id, FALSE)
        if x.leaf is not None: out.append((c, x.leaf)); continue
        v = D._mk(x.v, TRUE, FALSE)
        for y, g in ((x.hi, v), (x.lo, bnot(v))): cond[y.id] = bor(cond.get(y.id, FALSE), band(c, g))
    return out
class CInt:
    __slots__ = ('v',)
def cint(v):
    r = _ints_tab.get(v)
    if r is None:
        r = CInt(); r.v = v; _ints_tab[v] = r
    return r
def leaf_int(v): return leaf(('int', v)) if False else leaf(cint(v if isinstance(v, int) else v))
def _op_addint(a, b):
    return cint((a.v if isinstance(a, CInt) else a) + (b.v if isinstance(b, CInt) else b))
def _op_ptradd(p, d):
    return Ptr(p.obj, p.off + (d.v if isinstance(d, CInt) else d))
def _isaddr(*ps):
    for p in ps:
        if not isinstance(p, Ptr) or p.obj == 'undef': raise Unsupported('address of an unknown object')
def _op_toptr(p):
    if isinstance(p, Ptr): return leaf(p)
    if p._const == 0: return leaf(Ptr('null', 0))
    raise Unsupported('address made of an integer')
def _op_ptreq(p, q):
    if not isinstance(p, Ptr): p = _op_toptr(p).leaf
    if not isinstance(q, Ptr): q = _op_toptr(q).leaf
    _isaddr(p, q)
    return TRUE if p is q else FALSE
def _op_ptrlt(p, q):
    _isaddr(p, q)
    if p.obj != q.obj: raise Unsupported('order of addresses of two objects')
    return TRUE if p.off < q.off else FALSE
def _op_ptrsub(p, q):
    if isinstance(p, Ptr) and not isinstance(q, Ptr) and q._const is not None: return leaf(Ptr(p.obj, p.off - i_signed(q)))
    _isaddr(p, q)
    if p.obj != q.obj: raise Unsupported('difference of addresses of two objects')
    return iconst(64, p.off - q.off)
def _op_ptrplus(p, q):
    if not isinstance(p, Ptr): p, q = q, p
    if isinstance(q, Ptr) or q._const is None: raise Unsupported('arithmetic on an address')
    return leaf(Ptr(p.obj, p.off + i_signed(q)))
def _op_boolify(p):
    if isinstance(p, Ptr): return None
    if isinstance(p, bool): return p
    return bool(p._const) if p._const in (0, 1) else None
def _has_none(n):
    seen = set(); st = [n]
    while st:
        n = st.pop()
        if id(n) in seen: continue
        seen.add(id(n))
        if n.v is None:
            if n.leaf is None: return True
        else: st += (n.hi, n.lo)
    return False
_mc = {}
def _op_memcmp(key):
    op = _mc.get('op')
    if op is None:
        def op(*xs):
            return ia(atom('memcmp', tuple(xs), 32), 32)
        _mc['op'] = op
    return op
def signbit_f(x):
    def op(p):
        if p._const is not None: return p._const < 0
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and D._atomlist[m[0][0]].kind == 'fbits':
                return D._islt0(D._atomlist[m[0][0]].args[0])
            if c == 1 and len(m) == 1 and D._atomlist[m[0][0]].kind == 'nan': return True
        return D._lt0(p)
    return apply(op, x)
def isbooltuple(v):
    x = v[0]
    while x.leaf is None: x = x.hi
    return isinstance(x.leaf, bool)
def x_w(x):
    while x.leaf is None: x = x.hi
    return x.leaf.w
ix_w = x_w

def _op_bits2d(p):
    if p._const is not None:
        import struct
        return snap(struct.unpack('<d', struct.pack('<Q', p._const))[0], True)
    return pa(atom('dfbits', (p,)))
def _op_d2bits(p):
    if p._const is not None:
        import struct
        return ic(64, struct.unpack('<Q', struct.pack('<d', float(p._const)))[0])
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and D._atomlist[m[0][0]].kind == 'dfbits': return D._atomlist[m[0][0]].args[0]
    raise Unsupported('bits of double')
