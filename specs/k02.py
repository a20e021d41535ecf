from .lib import *
SH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shimstr')
U32 = lambda n: iconst(32, n)
DIG = '0123456789ABCDEF'
def nib(v, w, j):
    if j >= w: return U32(ord('0'))
    x = iand(ishift('lshr', v, iconst(w, j)), iconst(w, 15)); r = U32(ord('F'))
    for k in range(15): r = ite(ieq(x, iconst(w, k)), U32(ord(DIG[k])), r)
    return r
def build():
    p = Prop('K02', ['math/version.hpp', 'math/flags.hpp', 'math/hex.hpp', 'math/color.hpp', 'math/simd/vector/int.hpp'], 'Versions, flags and text')
    p.flags = ('-I' + SH, '-include', 'text_model.hpp')
    p.helpers = '''template<int N> struct CArr { uint8 v[N]; };
    enum class F8 : uint8 { none = 0, a = 1, b = 2, c = 128 }; enum class F32 : uint32 { none = 0, a = 1 }; enum class F64 : uint64 { none = 0, a = 1 };
    namespace math { DECLARE_ENUM_CLASS_FLAG_OPERATORS(F8) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F32) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F64)
    template<class A> static void tok(const string& s, A& o) { for (int i = 0; i < 32; i++) o.v[i] = 0; for (uint32 i = 0; i < s.n; i++) o.v[i] = s.t[i]; }
    template<class A> static void val(const string& s, A& o) { for (int i = 0; i < 32; i++) o.v[i] = 0; for (uint32 i = 0; i < s.n; i++) o.v[i] = s.v[i]; } }'''
    u, w = ('uint32', 'u'), ('uint32', 'w')
    c4 = ('carr4', 'c'); d4 = ('carr4', 'd')
    V = lambda n: 'Version(%s.v[0], %s.v[1], %s.v[2], %s.v[3])' % (n, n, n, n)
    by = lambda u, k: ires(ishift('lshr', u, iconst(32, 8 * k)), 8)
    pk = lambda c: fsum([imul(ires(c[k], 32), iconst(32, 1 << 8 * (3 - k))) for k in range(4)]) if False else iadd(iadd(imul(ires(c[0], 32), U32(1 << 24)), imul(ires(c[1], 32), U32(1 << 16))), iadd(imul(ires(c[2], 32), U32(256)), ires(c[3], 32)))
    parts = 'out->v[0] = t.major; out->v[1] = t.minor; out->v[2] = t.patch; out->v[3] = t.build;'
    p.ob('version', '', [c4], 'carr4', lambda c: list(c), body='Version t = %s; ' % V('c') + parts, what='Version(major, minor, patch, build)')
    p.ob('version_index', '', [c4], 'carr4', lambda c: list(c), body='Version t = %s; for (int i = 0; i < 4; i++) out->v[i] = t[i];' % V('c'), what='Version::operator[]')
    p.ob('version_cindex', '', [c4], 'carr4', lambda c: list(c), body='const Version t = %s; for (int i = 0; i < 4; i++) out->v[i] = t[i];' % V('c'), what='Version::operator[] const')
    p.ob('version_index_set', '', [c4], 'carr4', lambda c: list(c), body='Version t; for (int i = 0; i < 4; i++) t[i] = c.v[i]; ' + parts, what='Version::operator[] assignment')
    p.ob('version_default', '', [], 'carr4', lambda: [0] * 4, body='Version t; ' + parts, what='Version()')
    p.ob('version_3', '', [c4], 'carr4', lambda c: list(c[:3]) + [0], body='Version t(c.v[0], c.v[1], c.v[2]); ' + parts, what='Version(major, minor, patch)')
    p.ob('version_decode', '', [u], 'carr4', lambda u: [by(u[0], 3 - k) for k in range(4)], body='Version t(u); ' + parts, what='Version(uint32)')
    p.ob('version_encode', '', [c4], 'uint32', pk, body='*out = (uint32)%s;' % V('c'), what='Version to uint32')
    p.ob('version_roundtrip', '', [u], 'uint32', lambda u: u[0], body='*out = (uint32)Version(u);', what='Version encode after decode')
    def lt(a, b):
        r = FALSE
        for k in (3, 2, 1, 0): r = bor(ilt(a[k], b[k], False), band(ieq(a[k], b[k]), r))
        return r
    eq = lambda a, b: ball([ieq(x, y) for x, y in zip(a, b)])
    for nm, op, f in (('lt', '<', lt), ('gt', '>', lambda a, b: lt(b, a)), ('le', '<=', lambda a, b: bnot(lt(b, a))), ('ge', '>=', lambda a, b: bnot(lt(a, b))), ('eq', '==', eq), ('ne', '!=', lambda a, b: bnot(eq(a, b)))):
        p.ob('version_' + nm, '', [c4, d4], 'bool', f, body='*out = %s %s %s;' % (V('c'), op, V('d')), what='Version operator' + op)
    # text
    def text(nm, body, args, toks, vals=None, what=''):
        pad = lambda xs: list(xs) + [0] * (32 - len(xs))
        p.ob(nm, '', args, 'uarr32', lambda *a: pad(toks(*a)), body='tok(%s, *out);' % body, what=what)
        if vals: p.ob(nm + '_numbers', '', args, 'uarr32', lambda *a: pad(vals(*a)), body='val(%s, *out);' % body, what=what)
    for k in (1, 2, 3, 4):
        text('version_text%d' % k, '%s.toString%d()' % (V('c'), k), [c4], lambda c, k=k: ([256, ord('.')] * k)[:-1], lambda c, k=k: sum([[ires(x, 32), 0] for x in c[:k]], [])[:-1], 'Version::toString%d' % k)
    for ty, n, kd, kind in [('float%d' % n, n, 258, 'f') for n in (2, 3, 4)] + [('int%d' % n, n, 256, 'i') for n in (2, 3, 4)] + [('uint%d' % n, n, 257, 'i') for n in (2, 3, 4)] + [('f32x4', 4, 258, 'f'), ('i32x4', 4, 256, 'i'), ('u32x4', 4, 257, 'i')]:
        text('text_' + ty, 'toString(v)', [(ty, 'v')], lambda v, n=n, kd=kd: ([kd, ord(' ')] * n)[:-1], lambda v, kind=kind: sum([[(D.f2bits(x) if kind == 'f' else x), 0] for x in v], [])[:-1], 'toString(%s)' % ty)
    for k in (1, 2, 3, 4): text('text_Color%d' % k, 'v.toString%d()' % k, [('Color', 'v')], lambda v, k=k: ([256, ord(' ')] * k)[:-1], lambda v, k=k: sum([[ires(x, 32), 0] for x in v[:k]], [])[:-1], 'Color::toString%d' % k)
    for ty, wd in (('uint8', 8), ('uint16', 16), ('uint32', 32), ('uint64', 64), ('int32', 32), ('int64', 64)):
        a = (ty, 'x'); n = wd // 4
        text('hex_' + ty, 'toHex(x)', [a], lambda x, wd=wd, n=n: [nib(x[0], wd, 4 * (n - 1 - i)) for i in range(n)], what='toHex(%s)' % ty)
        for ln in (1, 2, 3, 10, 20):
            text('hex_%s_%d' % (ty, ln), 'toHex(x, %d)' % ln, [a], lambda x, wd=wd, ln=ln: [nib(x[0], wd, 4 * (ln - 1 - i)) for i in range(ln)], what='toHex(%s, %d)' % (ty, ln))
    for k in (3, 4): text('hex_Color%d' % k, 'v.toHex%d()' % k, [('Color', 'v')], lambda v, k=k: [nib(v[i // 2], 8, 4 * (1 - i % 2)) for i in range(2 * k)], what='Color::toHex%d' % k)
    st = 'math::string s; s.put(u, 0); s.put(w, 0); '
    arg = lambda u, w: iadd(imul(iadd(ires(u, 64), imul(ires(w, 64), iconst(64, 1 << 32))), iconst(64, 64)), iconst(64, 16))
    p.ob('toInt32', '', [u, w], 'uint32', lambda u, w: ires(arg(u[0], w[0]), 32), body=st + '*out = toInt32(s);', what='toInt32 parses base 16')
    p.ob('toInt64', '', [u, w], 'uint64', lambda u, w: arg(u[0], w[0]), body=st + '*out = toInt64(s);', what='toInt64 parses base 16')
    pair = lambda c, k: ires(iadd(imul(iadd(ires(c[k], 64), imul(ires(c[k + 1], 64), iconst(64, 1 << 32))), iconst(64, 64)), iconst(64, 16)), 8)
    for n in (6, 8):
        p.ob('Color_hex%d' % n, '', [('uarr32', 'c')], 'Color', lambda c, n=n: [pair(c, 2 * k) if 2 * k < n else 0 for k in range(4)], body='math::string s; for (int i = 0; i < %d; i++) s.put(c.v[i], 0); *out = Color(s);' % n, what='Color(hex string of %d digits)' % n)
    # enum class flags
    for ty, wd, e in (('uint8', 8, 'F8'), ('uint32', 32, 'F32'), ('uint64', 64, 'F64')):
        a, b = (ty, 'a'), (ty, 'b'); A, B = '(%s)a' % e, '(%s)b' % e; Z = iconst(wd, 0)
        for nm, op, f in (('or', '|', ior), ('and', '&', iand), ('xor', '^', ixor)):
            p.ob('%s_%s' % (e, nm), '', [a, b], ty, lambda a, b, f=f: f(a[0], b[0]), body='*out = (%s)(%s %s %s);' % (ty, A, op, B), what='flags operator' + op)
            p.ob('%s_%s_asg' % (e, nm), '', [a, b], ty, lambda a, b, f=f: f(a[0], b[0]), body='%s t = %s; t %s= %s; *out = (%s)t;' % (e, A, op, B, ty), what='flags operator%s=' % op)
            p.ob('%s_%s_chain' % (e, nm), '', [a, b, (ty, 'c')], ty, lambda a, b, c, f=f: f(f(a[0], b[0]), c[0]), body='%s t = %s; (t %s= %s) %s= (%s)c; *out = (%s)t;' % (e, A, op, B, op, e, ty), what='flags operator%s= returns its operand' % op)
        p.ob(e + '_not', '', [a], ty, lambda a, wd=wd: ixor(a[0], iconst(wd, -1)), body='*out = (%s)(~%s);' % (ty, A), what='flags operator~')
        p.ob(e + '_lnot', '', [a], 'bool', lambda a, Z=Z: ieq(a[0], Z), body='*out = (bool)(!%s);' % A, what='flags operator!')
        p.ob(e + '_hasAny', '', [a, b], 'bool', lambda a, b, Z=Z: bnot(ieq(iand(a[0], b[0]), Z)), body='*out = hasAnyFlag(%s, %s);' % (A, B), what='hasAnyFlag')
        p.ob(e + '_hasOne', '', [a, b], 'bool', lambda a, b: ieq(iand(a[0], b[0]), a[0]), body='*out = hasOneFlag(%s, %s);' % (A, B), what='hasOneFlag')
    return p
