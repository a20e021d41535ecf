"""Types have a fixed memory layout."""
from .lib import *
EXPLAIN = ('Size, alignment, member offsets and the ability to be copied as bytes of every type are stated as compile-time assertions, decided by the layout two compilers compute for every instruction set; the '
           'memory image of every type built from named components is the sequence of these components, and a type made of a memory image has them, as normal forms of the compiled code.')
INC = ['math/bvh.hpp', 'math/color.hpp', 'math/version.hpp', 'math/sphere.hpp', 'math/line.hpp', 'math/ray.hpp', 'math/quaternion.hpp', 'math/matrix.hpp', 'math/packed-vector.hpp', 'math/triangle.hpp', 'math/plane.hpp', 'math/aabb.hpp']
SIZES = [('float2', 8, 4), ('float3', 12, 4), ('float4', 16, 4), ('int2', 8, 4), ('int3', 12, 4), ('int4', 16, 4), ('uint2', 8, 4), ('uint3', 12, 4), ('uint4', 16, 4), ('float2x2', 16, 4), ('float3x3', 36, 4), ('float4x3', 48, 4),
         ('float4x4', 64, 4), ('f32x4', 16, 16), ('i32x4', 16, 16), ('u32x4', 16, 16), ('f32x4x4', 64, 16), ('quat', 16, 16), ('Aabb', 32, 16), ('Plane', 16, 16), ('Sphere', 16, 16), ('Line', 32, 16), ('Triangle', 48, 16), ('Color', 4, 1),
         ('Version', 4, 1), ('Bvh::Node', 32, 16)]
NUM = [('int8', 1, True), ('uint8', 1, False), ('int16', 2, True), ('uint16', 2, False), ('int32', 4, True), ('uint32', 4, False), ('int64', 8, True), ('uint64', 8, False)]
def asserts():
    c = []
    A = lambda n, e, w: c.append((n, 'static_assert(%s, "");' % e, w))
    for t, s, sg in NUM: A('num_' + t, 'sizeof(%s) == %d && std::is_integral_v<%s> && std::is_signed_v<%s> == %s' % (t, s, t, t, str(sg).lower()), '%s has %d bits' % (t, 8 * s))
    A('num_psize', 'std::is_same_v<psize, std::size_t>', 'psize is the size type')
    for t, s, a in SIZES:
        k = t.replace('::', '_')
        A('size_' + k, 'sizeof(%s) == %d' % (t, s), '%s takes %d bytes' % (t, s))
        A('align_' + k, 'alignof(%s) == %d' % (t, a), '%s is aligned to %d bytes' % (t, a))
        A('array_' + k, 'sizeof(%s[3]) == %d' % (t, 3 * s), 'arrays of %s have no gaps' % t)
        A('bytes_' + k, 'std::is_trivially_copyable_v<%s> && std::is_trivially_destructible_v<%s>' % (t, t), '%s may be copied as bytes' % t)
        A('plain_' + k, 'std::is_standard_layout_v<%s>' % t, '%s has the layout of a C structure' % t)
        A('default_' + k, 'std::is_default_constructible_v<%s> && std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s>' % (t, t, t), '%s can be kept in containers' % t)
        A('nothrow_' + k, 'std::is_nothrow_copy_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s>' % (t, t), 'copying %s does not throw' % t)
    A('bytes_Ray', 'std::is_trivially_copyable_v<Ray> && alignof(Ray) == 16', 'Ray may be copied as bytes')
    for t, n in (('float', 2), ('float', 3), ('float', 4), ('int', 2), ('int', 3), ('int', 4), ('uint', 2), ('uint', 3), ('uint', 4)):
        for i in range(n): A('off_%s%d_%s' % (t, n, XYZW[i]), 'offsetof(%s%d, %s) == %d' % (t, n, XYZW[i], 4 * i), 'component %s of %s%d' % (XYZW[i], t, n))
    for t, n, s in (('float2x2', 2, 8), ('float3x3', 3, 12), ('float4x3', 4, 12), ('float4x4', 4, 16), ('f32x4x4', 4, 16)):
        for i in range(n): A('off_%s_%d' % (t, i), 'offsetof(%s, c%d) == %d' % (t, i, i * s), 'column %d of %s' % (i, t))
    for i, m in enumerate('rgba'): A('off_Color_' + m, 'offsetof(Color, %s) == %d' % (m, i), 'channel %s of Color' % m)
    for i, m in enumerate(('start', 'end')): A('off_Line_' + m, 'offsetof(Line, %s) == %d' % (m, 16 * i), 'the %s of Line' % m)
    for i, m in enumerate(('major', 'minor', 'patch', 'build')): A('off_Version_' + m, 'offsetof(Version, %s) == %d' % (m, i), '%s of Version' % m)
    for n in (1, 2, 4): A('packed%d' % n, 'sizeof(PackedVector<%d>) == sizeof(std::vector<uint8>)' % n, 'PackedVector<%d> has nothing but its bytes' % n)
    return c
def build():
    p = Prop('L01', INC, 'Memory layout')
    p.helpers = 'template<class T, class O> static void image(const T& t, O* o) { for (unsigned i = 0; i < sizeof(T) / 4; i++) { float f; memcpy(&f, (const char*)&t + 4 * i, 4); o->v[i] = f; } }\n' \
                'template<class T, class O> static void imageu(const T& t, O* o) { for (unsigned i = 0; i < sizeof(T) / 4; i++) { uint32_t f; memcpy(&f, (const char*)&t + 4 * i, 4); o->v[i] = f; } }\n' \
                'template<class T, class A> static T from(const A& a) { T t; memcpy((void*)&t, a.v, sizeof(T)); return t; }\n'
    # images of types whose members are not accessible or given by columns
    S = lambda n: ('arr%d' % n, 'a')
    v = lambda i: 'a.v[%d]' % i
    f4 = lambda i: 'f32x4(%s)' % ', '.join(v(i + k) for k in range(4))
    seq = lambda n: (lambda a: list(a[:n]))
    IM = [('float2x2', 4, 'float2x2(float2(%s, %s), float2(%s, %s))' % tuple(v(i) for i in range(4))), ('float3x3', 9, 'float3x3(%s)' % ', '.join('float3(%s, %s, %s)' % tuple(v(3 * c + i) for i in range(3)) for c in range(3))),
          ('float4x3', 12, 'float4x3(%s)' % ', '.join('float3(%s, %s, %s)' % tuple(v(3 * c + i) for i in range(3)) for c in range(4))), ('float4x4', 16, 'float4x4(%s)' % ', '.join('float4(%s, %s, %s, %s)' % tuple(v(4 * c + i) for i in range(4)) for c in range(4))),
          ('f32x4x4', 16, 'f32x4x4(%s)' % ', '.join(f4(4 * c) for c in range(4))), ('f32x4', 4, f4(0)), ('quat', 4, 'quat(%s)' % ', '.join(v(i) for i in range(4))), ('float2', 2, 'float2(%s, %s)' % (v(0), v(1))), ('float3', 3, 'float3(%s, %s, %s)' % (v(0), v(1), v(2))),
          ('float4', 4, 'float4(%s, %s, %s, %s)' % tuple(v(i) for i in range(4))), ('Line', 8, 'Line(%s, %s)' % (f4(0), f4(4)))]
    for t, n, e in IM:
        p.ob('image_' + t, '', [S(n)], 'arr%d' % n, seq(n), body='%s t = %s; image(t, out);' % (t, e), what='memory image of ' + t)
    p.ob('image_f32x4_xyzw', '', [S(4)], 'arr4', seq(4), body='f32x4 t = f32x4::zero; t.setX(a.v[0]); t.setY(a.v[1]); t.setZ(a.v[2]); t.setW(a.v[3]); image(t, out);', what='f32x4 component setters place the components in memory order')
    for t, s in (('u32x4', 'uint32_t'), ('i32x4', 'uint32_t')):
        p.ob('image_' + t, '', [('uarr4', 'a')], 'uarr4', lambda a: list(a[:4]), body='%s t(%s); imageu(t, out);' % (t, ', '.join(v(i) for i in range(4))), what='memory image of ' + t)
    for t in ('uint', 'int'):
        for n in (2, 3, 4): p.ob('image_%s%d' % (t, n), '', [('uarr%d' % n, 'a')], 'uarr%d' % n, lambda a, n=n: list(a[:n]), body='%s%d t(%s); imageu(t, out);' % (t, n, ', '.join(v(i) for i in range(n))), what='memory image of %s%d' % (t, n))
    # reading a memory image
    for t, n, g in (('float2', 2, 't[%d]'), ('float3', 3, 't[%d]'), ('float4', 4, 't[%d]'), ('f32x4', 4, 't[%d]'), ('quat', 4, 't[%d]')):
        p.ob('read_' + t, '', [S(n)], 'arr%d' % n, seq(n), body='auto t = from<%s>(a); ' % t + ' '.join('out->v[%d] = %s;' % (i, g % i) for i in range(n)), what='components of a %s in memory' % t)
    for t, c, r in (('float2x2', 2, 2), ('float3x3', 3, 3), ('float4x3', 4, 3), ('float4x4', 4, 4), ('f32x4x4', 4, 4)):
        p.ob('read_' + t, '', [S(c * r)], 'arr%d' % (c * r), seq(c * r), body='auto t = from<%s>(a); ' % t + ' '.join('out->v[%d] = t[%d][%d];' % (i * r + j, i, j) for i in range(c) for j in range(r)), what='columns of a %s in memory' % t)
    p.ob('read_Aabb', '', [S(8)], 'arr6', lambda a: list(a[0:3]) + list(a[4:7]), body='auto t = from<Aabb>(a); auto l = t.getMin(), h = t.getMax(); ' + ' '.join('out->v[%d] = %s.get%s();' % (3 * k + i, 'lh'[k], 'XYZ'[i]) for k in (0, 1) for i in range(3)), what='corners of a box in memory')
    p.ob('read_Plane', '', [S(4)], 'arr4', seq(4), body='auto t = from<Plane>(a); auto n = t.getNormal(); out->v[0] = n.getX(); out->v[1] = n.getY(); out->v[2] = n.getZ(); out->v[3] = t.getDistance();', what='normal and distance of a plane in memory')
    p.ob('read_Sphere', '', [S(4)], 'arr4', seq(4), body='auto t = from<Sphere>(a); auto n = t.getPosition(); out->v[0] = n.getX(); out->v[1] = n.getY(); out->v[2] = n.getZ(); out->v[3] = t.getRadius();', what='position and radius of a sphere in memory')
    p.ob('read_Node', '', [S(8)], 'arr6', lambda a: list(a[0:3]) + list(a[4:7]), body='auto t = from<Bvh::Node>(a); auto l = t.aabb.getMin(), h = t.aabb.getMax(); ' + ' '.join('out->v[%d] = %s.get%s();' % (3 * k + i, 'lh'[k], 'XYZ'[i]) for k in (0, 1) for i in range(3)), what='box of a BVH node in memory')
    p.ob('read_Node_count', '', [('uarr8', 'a')], 'uarr2', lambda a: [a[3], a[7]], body='auto t = from<Bvh::Node>(a); out->v[0] = t.getPrimitiveCount(); out->v[1] = t.getLeftNode();', what='primitive count and child of a BVH node in memory')
    def layout(scratch, tier):
        return witness_lines(scratch, 'layout', INC, asserts(), front_ends(flags=(('sse2', []), ('sse41', ['-msse4.1']), ('avx2', ['-march=haswell']))), pre='#include <type_traits>\n#include <cstddef>\n#include <vector>\n#include "math/types.hpp"\nusing namespace math;\n')
    p.extra = [layout]
    return p
