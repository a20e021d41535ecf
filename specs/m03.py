from .lib import *
def det(m, n, r):
    """Laplace expansion along the first column; m[c][r]"""
    if n == 1: return m[0][0]
    t = None
    for j in range(n):
        minor = [[m[c][k] for k in range(n) if k != j] for c in range(1, n)]
        x = m[0][j] * det(minor, n - 1, r)
        t = x if t is None else (t + x if j % 2 == 0 else t - x)
    return t
def adj(m, n):
    out = []
    for c in range(n):
        for r in range(n):
            # inverse[c][r] (column c, row r) = cofactor of element at row c, column r
            minor = [[m[cc][rr] for rr in range(n) if rr != c] for cc in range(n) if cc != r]
            x = det(minor, n - 1, n - 1)
            out.append(x if (c + r) % 2 == 0 else lift(0) - x)
    return out
def build():
    p = Prop('M03', ['math/matrix.hpp', 'math/simd/matrix/float.hpp'], 'Matrix inverses are exact inverses')
    for n in (2, 3, 4):
        T = 'float%dx%d' % (n, n)
        def spec(a, n=n):
            m = [[a[c * n + r] for r in range(n)] for c in range(n)]
            d = det(m, n, n)
            return [x / d for x in adj(m, n)]
        p.ob('inverse%d' % n, 'inverse(a)', [(T, 'a')], T, spec)
        if n == 4: p.ob('inverse4x4', 'inverse4x4(a)', [('f32x4x4', 'a')], 'f32x4x4', spec)
    return p
