T = 'The suite evaluates a handful of fixed operands in one build configuration; the claim quantifies over every operand value in every SIMD configuration.'
def define(prop):
    prop('V01', 'Floating-point vectors act component by component',
         'Every constructor, conversion, element access, constant, arithmetic operator (including compound and scalar-broadcast forms) and component-wise function (min, max, clamp, lerp, abs, floor, ceil, fract, fma, sqrt, pow, powers, trigonometry, saturate, repeat, gain and so on) of the 2, 3 and 4 component float vectors yields in each component exactly the scalar operation applied to that component of the arguments. Components never mix, and compound forms return and modify their own left operand.',
         ['vector/float.hpp', 'common.hpp'], [('float2/float3/float4 members and free functions', 'include/math/vector/float.hpp')],
         'all finite component values, all overloads, all build configurations', T)
    prop('V02', 'Integer vectors act component by component, modulo 2^32',
         'Every constructor, conversion, element access, constant and arithmetic, bitwise or shift operator (including compound and scalar-broadcast forms) and min, max and clamp of the 2, 3 and 4 component signed and unsigned integer vectors yields in each component the corresponding 32-bit operation with the signedness of the vector type. Mixed constructors place the parts in the order they are written.',
         ['vector/int.hpp', 'vector/uint.hpp'], [('int2..int4, uint2..uint4 members and free functions', 'include/math/vector/int.hpp, include/math/vector/uint.hpp')],
         'all 32-bit component values (shift counts below 32, non-zero divisors), all overloads, all build configurations', T)
    prop('V03', 'SIMD vectors agree with scalar component-wise semantics on every target',
         'Every constructor, load, store, swizzle, conversion, arithmetic or bitwise operator, element access and component-wise function of the 4-lane float, signed and unsigned SIMD vectors gives in each lane what the scalar definition gives, with the same signedness and lane order, whichever instruction set the library is compiled for. Operations documented to fix up or duplicate the last lane do exactly that, and no other lane is disturbed.',
         ['simd/vector/float.hpp', 'simd/vector/int.hpp', 'simd/vector/uint.hpp', 'simd/types.hpp'],
         [('f32x4', 'include/math/simd/vector/float.hpp'), ('i32x4', 'include/math/simd/vector/int.hpp'), ('u32x4', 'include/math/simd/vector/uint.hpp')],
         'all lane values, all overloads, all build configurations (SSE2, SSE4.1, AVX2+FMA, NEON, portable fallback)', T + ' Only the AVX2 path is compiled by the tests.')
    prop('V04', 'Comparisons, masks, selection, reductions and the binary order are exact',
         'Vector comparisons give an all-ones mask in exactly the components where the scalar comparison (with the signedness of the type) holds; equality and inequality hold for exactly the vectors that agree, respectively disagree, in all components; select takes, per component, the first or second operand according to the mask; and the all-true, any-true, all-false, any-false and true-bits reductions of a mask report exactly that. The binary less-than helper of each vector type is a strict total order consistent with equality.',
         ['vector/float.hpp', 'vector/int.hpp', 'vector/uint.hpp', 'simd/vector/float.hpp', 'simd/vector/int.hpp', 'simd/vector/uint.hpp'],
         [('comparison operators, equal/notEqual, select, areAllTrue.., getTrues, isBinaryLess', 'include/math/vector/*.hpp, include/math/simd/vector/*.hpp')],
         'all component values, all vector types, all build configurations', T)
    prop('V05', 'Lengths, distances, normalisation, dot and cross products are Euclidean',
         'Dot product, squared and plain length, squared and plain distance, normalisation, the closeness and unit-length tests and the cross product of every vector type (and, for the SIMD vectors, of the leading two, three or four lanes as named) are the Euclidean ones over exactly the components they name; lanes beyond the named ones have no influence. Degree and radian conversions scale every component by pi/180 and its reciprocal.',
         ['vector/float.hpp', 'simd/vector/float.hpp', 'angles.hpp'], [('dot/length/distance/normalize/cross families', 'include/math/vector/float.hpp, include/math/simd/vector/float.hpp'), ('radians/degrees', 'include/math/angles.hpp')],
         'all component values, all vector types, all build configurations', T)
    prop('V06', 'Approximated functions stay within their error and exact at special values',
         'The vector logarithm (absolute error 1e-6 over all positive numbers, denormal ones included), exponential (relative error 1e-6 between -104 and 104), sine and cosine (absolute error 1e-6 for angles up to hundreds of turns), and the fast power and gamma correction (relative error 1e-5, with the sign of odd integer powers of negative bases) stay within these errors of the mathematical function in every lane and on every instruction set. At zero, infinity and beyond the range they give the limit: log 0 is negative infinity, the logarithm of negative numbers and of NaN is NaN, the exponential is 0 below -104 and infinite above 104, anything to the power of zero is 1 and zero to a positive power is 0.',
         ['simd/vector/float.hpp', 'tone-mapping.hpp'], [('log, exp, fastPow, sinCos of f32x4', 'include/math/simd/vector/float.hpp'), ('fastGammaCorrection', 'include/math/tone-mapping.hpp')],
         'all arguments of the stated ranges, all lanes, all build configurations; powers for a set of exponents', 'The tests do not touch these functions; errors confined to one quadrant, binade, sign or parity of the exponent show up only for arguments there.',
         tech='abstract interpretation of the compiler IR with intervals, derivative intervals (mean value form) and symbolic float bits; ranges are halved until the distance to the mathematical function is bounded; constant propagation for special values', note=NOTE_R)
    prop('M01', 'Scalar matrices follow column-major linear algebra',
         'Constructors of the 2x2, 3x3, 4x4 and 4x3 float matrices place the written rows and columns where they belong, element access returns columns, scalar operators act per element, equality holds exactly for equal matrices, and matrix-matrix, matrix-vector and vector-matrix products and transposition are those of linear algebra, including compound forms applied to the object itself.',
         ['matrix/float.hpp'], [('float2x2, float3x3, float4x3, float4x4', 'include/math/matrix/float.hpp')], 'all element values, all overloads, all build configurations', T)
    prop('M02', 'SIMD matrices agree with scalar matrices',
         'Constructors, conversions, element access, per-element operators, products with matrices and vectors (full and 3x3), transposition and comparisons of the SIMD 4x4 matrix give element by element what the scalar 4x4 (or upper 3x3) matrix gives, on every instruction set.',
         ['simd/matrix/float.hpp'], [('f32x4x4', 'include/math/simd/matrix/float.hpp')], 'all element values, all overloads, all build configurations', T)
    prop('M03', 'Matrix inverses are inverses',
         'The inverse of every invertible 2x2, 3x3 and 4x4 scalar matrix and of every invertible SIMD 4x4 matrix, multiplied with the matrix on either side, is the identity; determinants are those of linear algebra.',
         ['matrix/float.hpp', 'simd/matrix/float.hpp'], [('inverse', 'include/math/matrix/float.hpp'), ('inverse4x4', 'include/math/simd/matrix/float.hpp')], 'all invertible matrices, all build configurations', T)
    prop('T01', 'Translation, rotation, scale and model matrices compose',
         'The translation, scale and rotation matrices are the standard affine ones; applying one to an existing matrix from the left or the right equals the product with that matrix in that order; and the model matrix of a position, rotation and scale equals translation times (normalised) rotation times scale, with and without the optional parts. Rotation matrices built from view directions are the orthonormal right/up/front frames of those directions.',
         ['matrix/transform.hpp', 'simd/matrix/float.hpp'], [('translate, rotate, scale, calcModel', 'include/math/matrix/transform.hpp')], 'all positions, scales and (unit, where stated) quaternions, all build configurations', T)
    prop('T02', 'Decomposing a transform recovers its translation, rotation and scale',
         'Extracting translation, scale, rotation matrix or rotation quaternion from a matrix composed as translation times rotation times positive scale returns the parts that were put in (the quaternion up to sign, that is, the same rotation), and the combined decomposition returns the same parts as the individual extractions.',
         ['matrix/transform.hpp'], [('getTranslation, extractScale, extractScale2, extractRotation, extractRotationOnly, extractQuat, extractTransform', 'include/math/matrix/transform.hpp')], 'all positions, unit quaternions and positive scales, all build configurations', T)
    prop('T03', 'View matrices and rigid inverses undo the transform they are built from',
         'The view matrix of an eye, target and up vector moves the eye to the origin and maps right, up and front directions to the coordinate axes; the look-at quaternion is the rotation of the orthonormal frame of its direction; and the rigid inverse of a translated and rotated matrix is its inverse, with an affine last row.',
         ['matrix/transform.hpp'], [('lookAt, lookAtQuat, inverseTransRot', 'include/math/matrix/transform.hpp')], 'all eye, target, up, direction vectors and rigid matrices, all build configurations', T)
    prop('P01', 'Projection matrices map the view volume to Vulkan clip space',
         'Perspective matrices (finite, reversed and infinite reversed depth) divide by view depth, flip y and map the near and far distances to depths 0 and 1, or 1 and 0 for reversed depth, for every field of view, aspect ratio and plane distance. Orthographic matrices map each corner of the given box to the matching corner of the clip volume with the same depth conventions.',
         ['matrix/projection.hpp'], [('calcPerspProj*, calcOrthoProj*', 'include/math/matrix/projection.hpp')], 'all camera parameters and points, all build configurations', T)
    prop('Q01', 'Quaternions form the rotation algebra',
         'The quaternion product is the (associative) Hamilton product with the identity neutral, the inverse undoes it on both sides, rotating a vector by a product equals rotating by the factors in turn, equals multiplying by the rotation matrix, preserves length and is undone by the inverse. Axis-angle construction, conjugation, normalisation and spherical interpolation (shortest arc, exact end points) are the standard ones, and compound forms modify and return their own object.',
         ['quaternion.hpp', 'matrix/transform.hpp'], [('quat', 'include/math/quaternion.hpp')], 'all quaternions (unit where stated), vectors and angles, all build configurations', T)
    prop('Q02', 'Quaternions, Euler angles and rotation matrices convert consistently',
         'Building a quaternion from Euler angles equals rotating about X, then Y, then Z; the extracted pitch, yaw and roll are the angles of that same convention, falling back only in the degenerate case; and single-axis Euler rotations produce the rotation matrix about that axis in the positive sense.',
         ['quaternion.hpp', 'matrix/transform.hpp'], [('fromEulerAngles, extractPitch, extractYaw, extractRoll, extractEulerAngles', 'include/math/quaternion.hpp')], 'all angles and quaternions, all build configurations', T)
    prop('G01', 'Axis-aligned boxes contain, combine and overlap as point sets',
         'A box built from corners, from a size and position or by the named constants spans exactly those corners and size, rejects inverted corners where it promises to, and its size, extent, position, area, volume and corner queries agree with its corners. Growing, shrinking, merging, moving and scaling a box change its corners component by component in 3D; containment and overlap tests, comparisons and the closest point are those of the closed box as a set of points and ignore the padding lane.',
         ['aabb.hpp'], [('Aabb and its free functions', 'include/math/aabb.hpp')], 'all boxes and points, all build configurations', T)
    prop('G02', 'Rays keep a consistent direction and intersect boxes by the slab rule',
         'Constructing or re-aiming a ray normalises the direction when asked and marks exactly the axes the direction is parallel to, keeping the origin. A ray cast against a box reports the distances at which the line enters and leaves the box by the slab rule, a miss when the slabs do not overlap, lie behind the origin, or the origin is outside a slab parallel to the ray; the variants that take a pre-inverted ray and the boolean and one-distance variants agree with it.',
         ['aabb.hpp', 'ray.hpp'], [('Ray', 'include/math/ray.hpp'), ('raycast, raycast1, raycast2 and their I variants', 'include/math/aabb.hpp')], 'all boxes, origins and directions in each of the eight parallel-axis cases, all build configurations', T)
    prop('G03', 'Planes and view frustums separate space correctly',
         'A plane built from a normal and distance, a point or a triangle contains the points it is built from with its normal on the stated side, and signed distance, normalisation and accessors follow the plane equation. The six planes extracted from a view-projection matrix are the boundaries of the clip volume facing inwards, and a transformed box is reported behind the frustum exactly when all its corners lie behind one of the planes.',
         ['plane.hpp', 'aabb.hpp'], [('Plane, extractFrustumPlanes, normalizePlanes', 'include/math/plane.hpp'), ('isBehindFrustum', 'include/math/aabb.hpp')], 'all planes, triangles, matrices and boxes, all build configurations', T)
    prop('G04', 'Closest points and containment on lines, rays, spheres and triangles',
         'The closest point on a segment, ray, plane, sphere or triangle is the orthogonal projection clamped to the shape; containment and overlap tests of spheres and triangles hold for exactly the points and shapes that satisfy the geometric definition; barycentric coordinates reproduce the weights of any affine combination of the vertices. Moving and scaling operators act on every vertex in 3D, and equality ignores nothing that defines the shape.',
         ['line.hpp', 'plane.hpp', 'ray.hpp', 'sphere.hpp', 'triangle.hpp'], [('Line', 'include/math/line.hpp'), ('Sphere', 'include/math/sphere.hpp'), ('Triangle', 'include/math/triangle.hpp'), ('closestPoint(Triangle)', 'include/math/plane.hpp')],
         'all shapes and points (triangle closest point up to a rigid motion), all build configurations', T)
    prop('G05', 'Triangle-box overlap is the separating-axis test over all thirteen axes',
         'A triangle and a box given by centre and half-extents are reported disjoint exactly when the projections of both on one of the thirteen candidate axes (three box axes, the triangle normal and the nine edge cross products) do not overlap; touching counts as overlapping.',
         ['aabb.hpp'], [('isAabbIntersected', 'source/aabb.cpp')], 'all box centres, half-extents and triangles, all build configurations', T)
    prop('C01', '8-bit colours pack, compare and quantise without loss',
         'A colour keeps its four channels through construction, the packed 32-bit form (red in the lowest byte) and back; comparison operators hold exactly when they hold for all four channels (inequality when any differs), also against a single value, and the named colours have their named channel values. A normalised channel is the 8-bit value divided by 255, and setting a colour or one channel from a normalised value clamps it to 0..1 and rounds to the nearest 8-bit value without touching the other channels; linear conversions go through the sRGB transfer functions.',
         ['color.hpp'], [('Color', 'include/math/color.hpp')], 'all channel values, packed words and normalised values, all build configurations', T)
    prop('C02', 'Colour space conversions follow their standards and invert each other',
         'Conversion between linear RGB and sRGB is the piecewise sRGB transfer function per colour channel with alpha untouched; RGB to XYZ and back use the standard D65 matrices by rows; XYZ to Yxy and back are the chromaticity formulas and undo each other; the combined conversions equal the two steps. Gamma correction raises every colour channel to the inverse gamma (2.2 by default) and leaves alpha alone.',
         ['color-space.hpp', 'tone-mapping.hpp'], [('rgbToSrgb, srgbToRgb, rgbToXyz, xyzToRgb, xyzToYxy, yxyToXyz, rgbToYxy, yxyToRgb', 'include/math/color-space.hpp'), ('fastGammaCorrection', 'include/math/tone-mapping.hpp')],
         'all colours, all build configurations', T, note=NOTE_FN)
    prop('S01', 'Spherical harmonics: basis, rotation and windowing',
         'The nine basis values of a direction are the real spherical harmonics up to band 2 in the documented order, coefficient indices enumerate the bands consecutively, and the constants per coefficient are the normalisation times the cosine lobe. Rotating coefficients by a rotation matrix gives the coefficients of the rotated function for every rotation (also when done in place), the solid angle of a cube-map texel is the difference of the four corner areas, and windowing scales each band by its own window value (one at band zero, zero from the cut-off on) exactly once.',
         ['sh.hpp'], [('computeShBasis, shIndex, rotateSh3Bands, sincWindow, windowing, calcSolidAngle, shaderPreprocessSH', 'include/math/sh.hpp')],
         'all directions, rotations, coefficients and cut-offs, all build configurations', T)
    prop('S02', 'Microfacet sampling and low-discrepancy sequences',
         'The GGX normal distribution, its importance sampling (which yields unit half vectors), and reflectance from the index of refraction follow their formulas. The Hammersley sequence pairs the index divided by the count with the bit-reversed index as a binary fraction, for every 32-bit index.',
         ['brdf.hpp'], [('ggx, importanceSamplingNdfDggx, iorToReflectance, hammersley', 'include/math/brdf.hpp')], 'all samples, roughness values and indices, all build configurations', T)
    prop('S03', 'Cube-map texel coordinates map to the right directions',
         'Texel coordinates map to centred face coordinates in -1..1 with the vertical axis flipped, and face coordinates map on each of the six faces to the unit direction with the axes and signs of the cube-map convention; the face is chosen by the third coordinate.',
         ['ibl.hpp'], [('coordsToST, stToDir, coordsToDir', 'include/math/ibl.hpp')], 'all coordinates, sizes and the six faces, all build configurations', T)
    prop('S04', 'Deringing picks one cut-off for all channels and scales every band by it',
         'Deringing halves the range of cut-offs from 3 to 13 down to a tenth, per colour channel and never above the cut-off of the channels before it, and keeps a cut-off exactly when the estimated smallest value of that channel windowed at it is not negative; then every coefficient of all channels, alpha included, is scaled once by the window of its band at the smallest cut-off. The estimate is the smallest value of the zonal part lowered by the amplitudes of the other orders, in the frame of the linear part; where that bound is negative it is the minimum along the deepest meridian found from 45 degrees, or the smaller pole value when the minimum lies beyond a pole.',
         ['sh.hpp'], [('deringingSH, shmin, windowing, sincWindow', 'include/math/sh.hpp')],
         'all coefficients and sampled sign changes per channel for the search, all mean values and sampled other coefficients for the estimate; all build configurations', T,
         note=NOTE + ' The sign changes and the coefficients other than the mean are a sample; coefficients without a horizontal linear part have no frame and are left out.')
    prop('K01', 'Packed vectors store every element independently',
         'A packed vector of 1, 2 or 4 bit elements returns for each index the low bits of the value last written there, whatever was written to the other indices, through the checked and the unchecked accessors alike. It starts out zero, uses as many bytes as its elements need, keeps its elements when resized, copies are independent of the original, and unsupported element widths are rejected when compiling.',
         ['packed-vector.hpp'], [('PackedVector', 'include/math/packed-vector.hpp')], 'all written values and every index of vectors spanning two bytes, all build configurations', T, tech=GVN_W, note=NOTE_VEC)
    prop('K02', 'Versions, flag sets and text forms are faithful',
         'A version keeps its four parts through packing and unpacking, orders by major, minor, patch, then build, and its text lists the requested parts separated by dots. Flag operators act on the underlying bits and return their operand; hexadecimal text has the requested number of digits (all digits of the type by default) padded with zeros, most significant first; hexadecimal text is parsed base 16, also into colours; and vectors print their components in order separated by spaces.',
         ['version.hpp', 'flags.hpp', 'hex.hpp', 'color.hpp', 'vector/float.hpp', 'vector/int.hpp', 'vector/uint.hpp'],
         [('Version', 'include/math/version.hpp'), ('DECLARE_ENUM_CLASS_FLAG_OPERATORS, hasAnyFlag, hasOneFlag', 'include/math/flags.hpp'), ('toHex, toInt32, toInt64', 'include/math/hex.hpp'), ('toString', 'include/math/vector/*.hpp')],
         'all version parts, flag words, integers and components, all build configurations', T, note=NOTE_STR)
    prop('K03', 'Mip chains count and halve exactly',
         'The number of mip levels of a size is one more than the integer binary logarithm of its largest component, for every 32-bit size, and the size at a mip level is each component divided by two to the power of the level, rounded down and at least one, for the scalar, 2, 3 component and SIMD forms alike.',
         ['vector/uint.hpp', 'simd/vector/uint.hpp'], [('calcMipCount, calcSizeAtMip', 'include/math/vector/uint.hpp'), ('calcMipCount3, calcSizeAtMip3', 'include/math/simd/vector/uint.hpp')],
         'all 32-bit sizes and mip levels 0 to 31, all build configurations', T)

    prop('B01', 'A built BVH holds every primitive once inside tight boxes',
         'Building a bounding volume hierarchy from boxes or triangles, at whatever planes the nodes are split, gives a tree whose node children lie in the node array, each node but the root having one parent; whose leaves list every primitive exactly once, the primitive array being a permutation; whose root has the given box and every other node exactly the bounds of the primitives below it. This holds for 16 and 32 bit indices, any vertex stride, given or computed centroids (box centres, vertex averages), and when a tree is rebuilt.',
         ['bvh.hpp', 'source/bvh.cpp'], [('Bvh::recreate', 'source/bvh.cpp'), ('Bvh::Node', 'include/math/bvh.hpp')],
         'all boxes, vertices, centroids and split decisions for the listed primitive counts, all build configurations', T.replace('The suite evaluates a handful of fixed operands', 'The suite builds no tree') , note=NOTE_BVH)
    prop('B02', 'BVH traversal visits exactly what is not culled',
         'Traversing a bounding volume hierarchy tests each node exactly once whose ancestors all passed and no other, and reports each passed leaf once with its range of primitives. Collecting in a frustum returns each primitive of the leaves that are, like all their ancestors, not behind the planes exactly once with the number written, with the own or a local stack; an empty tree yields nothing, and a traversal leaves the tree ready for the next.',
         ['bvh.hpp', 'source/bvh.cpp'], [('Bvh::traverse', 'include/math/bvh.hpp'), ('Bvh::collectInFrustum', 'source/bvh.cpp')],
         'every outcome of the node tests on all tree shapes of up to six leaves, all build configurations', T.replace('The suite evaluates a handful of fixed operands', 'The suite traverses no tree'), note=NOTE_BVH)
    prop('B03', 'BVH nodes are split where the surface area cost is lowest',
         'A node of the bounding volume hierarchy is split exactly if some plane between centroids gives a lower cost (number of primitives times box area, summed over the two sides) than leaving the node whole, and then at the plane of lowest cost over all three axes. Primitives whose centroids coincide are never separated.',
         ['source/bvh.cpp'], [('findBestSplitPlane, Bvh::recreate', 'source/bvh.cpp')],
         'all boxes, triangles and root boxes for the listed centroid arrangements, all build configurations', T.replace('The suite evaluates a handful of fixed operands', 'The suite builds no tree'), note=NOTE_BVH)

    prop('A01', 'Every memory access stays inside its object and respects its alignment',
         'No function of the library reads or writes a byte outside of the objects it is given, creates or owns, on any path that its valid arguments can take. Nor does any access assume a stricter alignment than the type of the object guarantees, apart from the loads and stores documented as aligned.',
         ['vector/float.hpp', 'simd/vector/float.hpp', 'simd/matrix/float.hpp', 'matrix/float.hpp', 'color.hpp', 'aabb.hpp', 'source/aabb.cpp', 'bvh.hpp', 'source/bvh.cpp'],
         [('loads, stores, element access, conversions', 'include/math/'), ('Bvh', 'source/bvh.cpp'), ('Aabb', 'source/aabb.cpp')],
         'every argument of every entry point specified for the other properties, all build configurations',
         'The tests hold their operands in suitably aligned local variables, for which the accesses happen to work, and sample few paths.',
         tech='abstract interpretation of compiler IR with an object/offset/alignment domain: bounds and alignment obligation per load, store and block copy, path conditions decided by decision diagrams', note=NOTE_A)
    prop('A02', 'No operation has an undefined result on valid arguments',
         'Shifts stay below the width, signed arithmetic does not overflow, integers are never divided by zero, converted floating-point values fit their integer type, array indices stay in range, functions return a value and containers are used within their contract, on every path that valid arguments can take.',
         ['common.hpp', 'vector/int.hpp', 'vector/uint.hpp', 'simd/vector/float.hpp', 'color.hpp', 'packed-vector.hpp', 'ibl.hpp', 'brdf.hpp', 'source/bvh.cpp'],
         [('integer arithmetic, conversions, shifts, container use', 'include/math/'), ('Bvh', 'source/bvh.cpp')],
         'every valid argument of every entry point specified for the other properties, all build configurations',
         'An undefined operation usually still computes the expected value with one compiler; the tests are not built with checks and sample few operands.',
         tech='abstract interpretation of compiler IR with the undefined-behaviour conditions of the compiler inserted as traps: unsatisfiability of the path condition of every trap under the precondition', note=NOTE_A)
    prop('D01', 'Debug checks stop exactly for invalid arguments',
         'In a debug build an assertion stops the program exactly if an element index is out of range, box corners are inverted or sizes negative, a packed vector is indexed past its storage, a hexadecimal color has neither 6 nor 8 digits, or a bounding volume hierarchy lacks primitives, planes or callbacks. No assertion stops any function called with valid arguments.',
         ['vector/float.hpp', 'vector/int.hpp', 'vector/uint.hpp', 'matrix/float.hpp', 'simd/matrix/float.hpp', 'aabb.hpp', 'version.hpp', 'color.hpp', 'packed-vector.hpp', 'bvh.hpp', 'source/bvh.cpp'],
         [('operator[]', 'include/math/vector/*.hpp, include/math/matrix/float.hpp'), ('Aabb setters', 'include/math/aabb.hpp'), ('PackedVector::get/set', 'include/math/packed-vector.hpp'), ('Color(hex)', 'include/math/color.hpp'), ('Bvh', 'source/bvh.cpp')],
         'every argument, all build configurations with assertions enabled',
         'A failing assertion ends the test program, so no test exercises one; the tests never approach the bounds.',
         tech='abstract interpretation of compiler IR with assertions compiled in: the disjunction of the path conditions of all failing assertions equals the documented rejection condition (decision diagrams)', note=NOTE_A)
    prop('E01', 'Functions keep no state and write only their results',
         'A call depends on its arguments alone and changes nothing but its result, the outputs it is given and the object it is called on: no function keeps values from one call for the next, changes arguments passed for reading, or uses the error number, locale, random numbers, time or output of the process. So calls on different objects, and reads of one shared object, can run at the same time; a tree can be collected from concurrently if each call brings its own stack.',
         ['common.hpp', 'vector/float.hpp', 'simd/vector/float.hpp', 'simd/matrix/float.hpp', 'matrix/transform.hpp', 'aabb.hpp', 'quaternion.hpp', 'sh.hpp', 'tone-mapping.hpp', 'bvh.hpp', 'source/bvh.cpp', 'source/aabb.cpp'],
         [('all functions', 'include/math/, source/'), ('Bvh::collectInFrustum', 'source/bvh.cpp')],
         'every function of every header and source; every path of the entry points specified for the other properties, all build configurations',
         'State kept between calls shows only in particular sequences of calls, or when two threads call at the same time; every test makes single calls from one thread.',
         tech='effect analysis: the targets of all stores in the compiler IR, found by abstract interpretation, must be results, outputs or local objects; written static variables and calls of stateful functions in the syntax tree of all functions', note=NOTE_A)
    prop('L01', 'Types have a fixed, gap-free memory layout',
         'Scalar vectors and matrices are their components in order without gaps, matrices column by column, with the alignment of one component; SIMD vectors, matrices, quaternions and the shapes made of them are 16 byte aligned multiples of four components; colours and versions are four bytes in the order of their parts. All of these can be copied as bytes, kept in arrays without padding, and read back from such an image, on every target.',
         ['types.hpp', 'vector/float.hpp', 'vector/int.hpp', 'vector/uint.hpp', 'matrix/float.hpp', 'simd/vector/float.hpp', 'simd/vector/int.hpp', 'simd/vector/uint.hpp', 'simd/matrix/float.hpp', 'quaternion.hpp', 'aabb.hpp', 'plane.hpp', 'sphere.hpp', 'line.hpp', 'triangle.hpp', 'color.hpp', 'version.hpp', 'bvh.hpp'],
         [('vector, matrix, SIMD and shape types', 'include/math/'), ('Bvh::Node', 'include/math/bvh.hpp')],
         'every type, two compilers, two language versions, all build configurations',
         'The tests access components through the members only; that buffers of these types are what a graphics API or a file expects is seen by no test.',
         tech='compile-time assertions over the record layout two compilers compute (type-level witnesses), and symbolic value numbering of memory images over compiler IR', note=NOTE_T, over=['configurations', 'programs'])
    prop('H01', 'Headers stand alone, combine, and have their constants ready',
         'Every public header compiles on its own, repeatedly and together with the others in any order, in every configuration, and can be part of several translation units of one program; whatever a header declares is defined. What is declared usable in constant expressions is, and no predefined constant is computed from one that is initialized after it.',
         ['types.hpp', 'common.hpp', 'vector/float.hpp', 'vector/int.hpp', 'vector/uint.hpp', 'matrix/float.hpp', 'simd/vector/float.hpp', 'simd/vector/int.hpp', 'simd/vector/uint.hpp', 'packed-vector.hpp', 'bvh.hpp', 'pbr-colors.hpp', 'source/bvh.cpp', 'source/aabb.cpp'],
         [('all headers', 'include/math/'), ('definitions', 'source/')],
         'every header, function and constant; two compilers, two language versions, with and without debug checks, all build configurations',
         'The test programs include a few headers each, in one order, in a single translation unit, with one compiler and one configuration.',
         tech='build witnesses for each header, front end and configuration; linkage and definition rules over the syntax tree of all declarations; initialization-order analysis over the call graph of the dynamic initializers', note=NOTE_T, over=['configurations', 'programs'])
    prop('X01', 'Functions declared not to throw cannot raise an exception',
         'No function that is declared not to throw can raise an exception other than for exhausted memory, itself or in what it calls. So malformed text and exceptions of functions the caller passes in never end the program; they reach the caller as exceptions.',
         ['hex.hpp', 'color.hpp', 'packed-vector.hpp', 'version.hpp', 'bvh.hpp', 'source/bvh.cpp', 'aabb.hpp', 'vector/float.hpp', 'simd/vector/float.hpp'],
         [('toInt32, toInt64', 'include/math/hex.hpp'), ('Color(hex)', 'include/math/color.hpp'), ('Bvh::traverse', 'include/math/bvh.hpp'), ('all functions declared noexcept', 'include/math/, source/')],
         'every function of every header and source, all inputs',
         'An exception in such a function ends the test program, so no test raises one; the tests pass well-formed text and callbacks that do not throw.',
         tech='exception effect analysis over the syntax tree and its call graph: sources of exceptions reachable from functions declared not to throw', note=NOTE_T)

