MISSED = {}
N = {
'V01': 'Obligations are generated for types × operators × operand kinds (vector/vector, vector/scalar, scalar/vector, compound). Oracle: the scalar function applied per slot; for transcendental functions the same uninterpreted function of the same argument. Compound forms additionally check the modified object and the returned reference.',
'V02': 'As V01 with 32-bit modular arithmetic; division, remainder, comparison and right shift distinguish signedness, so a signed operation used for an unsigned type has a different normal form.',
'V03': 'Every member and free function of f32x4, i32x4, u32x4 in all five configurations against the lane-wise definition; intrinsics are given their architectural semantics by the interpreter. Padding-lane rules are part of the expected value.',
'V04': 'Masks are compared as decision diagrams over component comparisons; reductions over lane sign bits; the binary order is checked as a decision diagram equal to the lexicographic one and by the strict-order laws.',
'V06': 'Interval abstract interpretation of the compiled functions (`engine/ranges.py`): a value is an interval, an interval of its derivative to the argument and the value at the middle; '
   'bits of a float stay symbolic through `>> 23`, masks, added multiples of 2^23 and sign flips, so the exponent juggling of log/exp and the quadrant logic of sin/cos are followed exactly. '
   'Comparisons or conversions that differ within a range continue it once per outcome. The domain is divided into about 170 000 ranges per instruction set, halved where the mean value bound is too wide; all are bounded on the '
   'current tree (largest bounds: see evidence). A violation needs the value at a float of the domain to be off by twice the tolerance. Special values: constant propagation. Cost: about 80 s.',
'V05': 'Polynomial/square-root normal forms. Each lane not named must be absent from the support of the result.',
'M01': 'Products and transposes as polynomials per element; equality as conjunction diagram; aliasing forms `m *= m` use one object.',
'M02': 'Same oracle as M01 but for the SIMD class (matrix elements are the polynomial atoms), per configuration.',
'M03': 'Rational normal forms: M·inverse(M) and inverse(M)·M reduce to the identity as quotients of polynomials; determinants are the Leibniz polynomials.',
'T01': 'Element polynomials; unit quaternion as ideal relation x²+y²+z²+w²=1.',
'T02': 'Compose in the probe (T·R·S), decompose by the library, compare modulo the unit relation and positivity of the scale; the four branches of the quaternion extraction are separated polyhedrally.',
'T03': 'View matrices applied to eye, frame vectors; rational functions with square-root atoms.',
'P01': 'Corner-by-corner mapping as rational functions in the plane distances and tan of half the field of view.',
'Q01': 'Quaternion polynomials modulo the unit relation; slerp per branch: end points, arc plane and angle via sin/cos identities.',
'Q02': 'Trigonometric polynomials in the half angles; arguments of atan2/asin are compared up to positive factors.',
'G01': 'Boxes as corner vectors; predicates as decision diagrams; padding lane must be absent from the support.',
'G02': 'Slab rule as min/max normal form with the parallel mask; all overloads relative to one specification.',
'G03': 'Planes as linear forms; frustum planes as rows of the matrix; culling as ∧/∨ diagram over the 8 corners × planes.',
'G04': 'Piecewise rational functions; every region (vertex, edge, face) separated by its sign conditions.',
'G05': 'The conjunction of 13 interval tests as diagram of absolute-value/min/max normal forms.',
'C01': 'Bit slices for packing, rounding function of clamped products for quantisation.',
'C02': 'Matrices by rows with the documented constants; piecewise transfer function as gated normal form.',
'S01': 'Polynomials in the direction and (for rotation) in the rotation entries modulo orthonormality. The deringing search is S04.',
'S02': 'Bit reversal through bit diagrams for all 2^32 indices; GGX formulas as rational functions.',
'S03': 'Per face: direction equals the normalised vector of the convention.',
'S04': 'The search is interpreted with symbolic coefficients. The call of the estimate is replaced by a contract: it reads the channel and the cut-off off the *normal forms* of the nine values it is given (each must be that channel times its own band window at one common cut-off), answers with one sign change per channel, and answers wrongly on purpose if the values have any other form, so that a wrong argument ends in a wrong cut-off. 100 combinations of sign changes (none, one, two, all channels; below the range; zero as the answer for "not negative"). The estimate is interpreted with a symbolic mean and 36 sets of the other coefficients in nine frames with rational axes; roots and powers of constants are folded to numbers (`fold`), which decides the branches of the iteration, and the result is compared, as a piecewise affine function of the mean, with an independent formulation (the quadratic form in the frame of the linear part: zonal part, eigenvalue difference across, coupling; derivatives taken symbolically). Not claimed: the frame for a linear part that is vertical or zero (the axis is undefined there), convergence of the iteration for all coefficients. If the estimate is renamed or merged into the search, the search obligations become undecided, never a violation.',
'K01': '`std::vector` contract model; a write followed by a read at two arbitrary (symbolic) positions, per element width; compile-fail witnesses for the widths 3, 8, ….',
'K02': 'Text contract model: strings as sequences of characters/number texts.',
'K03': 'Integer logarithm by bit diagrams for every 32-bit size; shift semantics per mip.',
'B01': 'Container contract models. `build` is interpreted with all coordinates symbolic for 1–4 primitives with every split decision *left open* (the split search is replaced by a havoc model returning any axis/plane, so the guarantee does not depend on it) and up to 7 with a given first split; structure, permutation, bounds (as min/max normal forms) and parent counts are compared. Repeated builds with the same object.',
'B02': 'All tree shapes up to six leaves; the visitor is an uninterpreted predicate per node; the set of visited nodes and collected primitives must equal the recursive definition as decision diagrams.',
'B03': 'Split search on symbolic centroids/boxes: cost normal forms per candidate plane; chosen split equals the arg-min.',
'A01': 'The interpreter records every load, store and block copy with its object, byte range and assumed alignment (optimised IR of all other specifications, and -O0 IR, where each access stands as written). Objects are the arguments (size and alignment from `sizeof`/`alignof` constants compiled into the same unit), stack objects, globals and the storage of the container models. A failing access is reported if its path condition can hold. Exempt: the loads/stores documented as aligned, and probe arguments that stand for arrays of boxes. Not covered: strict-aliasing rules (the library punning `float3` as an array of `float` is accepted by every supported compiler with the flags used).',
'A02': 'Compiled with `-fsanitize=bounds,shift-exponent,bool,enum,return,unreachable,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow -fsanitize-trap=all`: the compiler inserts the conditions as traps, the IR is *interpreted abstractly, never run*, and each trap must have an unsatisfiable path condition. Operators whose operands are the caller\'s own (int vectors: overflow, division; float→int conversion of vectors) are exempt from the corresponding class; the range of the logarithm in the mip count is K03\'s subject.',
'D01': '`Ob(stops=…)` gives the documented rejection condition; it must equal the disjunction of the path conditions of all failing assertions. Indices are one of 0..n+5, 255, 256, 2^32, 2^63, 2^64-1. Then all other specifications are interpreted with assertions compiled in. Excluded from that sweep: the box setters of G01 (stated there for rejected arguments as well) and the three largest builds of B01 (diagram budget).',
'E01': 'The interpreter records the target object of every store and block copy; after each entry point of all other specifications, targets must be the result, a named output, or an object created by the call itself. Stores to a static variable count as state unless they store constants (the guarded one-time initialization of `static const` tables, e.g. the mask of `conjugate`, stays silent). Sharing a tree: `collectInFrustum` with a local stack is interpreted between two marks (`verif_reads`/`verif_ends`) within which nothing of the tree may be a target. Second, the syntax tree of all functions of all headers and sources, entered by a specification or not, is scanned: no variable with static storage and no `mutable` member is written, no static local is initialized from the call, no stateful function (`rand`, `strtok`, `setlocale`, `time`, streams, …) is called. `errno` set by the C math functions on invalid arguments is not counted.',
'L01': 'Witness file of static assertions (size, alignment, array stride, member offsets, trivially copyable, standard layout), one per line, given to clang and gcc for each instruction set and language version; a rejected line names its assertion. The images are probes like those of V01: the bytes of a value built from components, and the components of a value copied from bytes.',
'H01': '(1) Each header included twice, alone, and all headers in both orders × {clang, gcc} × {SSE2, AVX2, NEON} × {C++17, C++20} × {debug checks on, off}. (2) Syntax tree rules: a function or variable a header defines at namespace scope is inline, static, constant, a template or in an anonymous namespace; everything a header declares has a definition in it or in source/. (3) One constant expression per function declared `constexpr` today (specs/h01_const.json, about 700). (4) Unoptimised IR of each header, source and all headers: the dynamic initializers in the order of the constructor table must not reach, over the call graph, a constant whose own initializer comes later. Known finding: `pbr-colors.hpp` (unfinished).',
'X01': 'Sources of exceptions: throw expressions outside of a try block that catches them, standard functions that throw for some arguments (conversions of text, checked access, positions in strings), `std::function` objects and function pointers the caller passed in, dynamic casts to references. A function that is declared `noexcept` must not contain a source nor reach one through library functions without the promise. Allocation is exempt. The rule does not consider path conditions: a throwing function whose arguments were validated before would be reported; none exists.',
}
