#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
I = "include/muu/"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- text
p("T01", "Incremental UTF-8 and UTF-16 decoders accept exactly well-formed text",
  "Fed one code unit at a time, the UTF-8 and UTF-16 decoders report a value exactly at the last unit of every well-formed sequence and that value is the encoded Unicode scalar, report that more input is needed strictly inside a still well-formed prefix, and report an error at the first unit that cannot continue or start a well-formed sequence (overlong forms, encoded surrogates, values above U+10FFFF, stray or lone units). After an error is cleared the decoder behaves like a new one. The result is the same in constant expressions and for every accepted code-unit type.",
  ["inputs", "histories"], "every sequence of 8-bit or 16-bit code units, including every malformed one, fed to one decoder object with errors cleared on the way",
  "The suite decodes a handful of literals; the property is over all byte/word sequences (there are >16 million four-byte sequences alone) and all interleavings of errors and recovery.",
  [I + "utf8_decoder.h", I + "utf16_decoder.h"],
  [("UTF-8 DFA table", I + "utf8_decoder.h state_table"), ("surrogate state machine", I + "utf16_decoder.h operator()")],
  [("state", "position in the current sequence / error", I + "utf8_decoder.h, utf16_decoder.h")],
  ["error()", "has_value()", "value()", "needs_more_input()"])
p("T02", "Whole-string decoding and transcoding preserve the text",
  "Decoding a well-formed string visits exactly its code points in order (or in reverse order when asked), each with the right position and length in code units, a leading byte-order mark is skipped and selects the byte order, and visiting stops as soon as the visitor asks. Transcoding well-formed text between any two of the supported character types yields the standard encoding of the same code points, so transcoding back returns the original. Decoding malformed text terminates and every code unit is reported exactly once, in order, as part of a valid sequence or as itself.",
  ["inputs"], "all strings over all supported character types, native or byte-swapped order, forward or reverse, any visitor stopping point",
  "Tests transcode a few fixed literals; surrogate pairs, byte-swapped text, embedded NULs, reverse decoding and malformed input combine without bound.",
  [I + "utf_decode.h", I + "strings.h"],
  [("byte-order detection and decode loops", I + "utf_decode.h utf_decode"), ("encoders", I + "strings.h utf8_code_point, utf16_code_point, utf_transcode")])
p("T03", "Character classification matches the Unicode Character Database",
  "For every code point, the classification functions (whitespace, letter, number, hyphen, combining mark, ASCII, digits, hexadecimal) agree with the Unicode 15.0 category and property data they are defined by, and each negated form is the complement. All character types agree on the code units they can represent. Non-scalar values are never classified as letters, numbers or whitespace.",
  ["inputs"], "all 1,114,112 code points, plus out-of-range values, for every function and character type",
  "The suite checks a few code points per function; the generated lookup code contains thousands of range and bitmask constants, any of which can be wrong for a handful of characters.",
  [I + "impl/unicode_char32_t.h", I + "impl/unicode_char16_t.h", I + "impl/unicode_char.h", I + "impl/unicode_wchar_t.h", I + "impl/unicode_char8_t.h", I + "impl/unicode_unsigned_char.h", I + "chars.h"],
  [("generated predicates", I + "impl/unicode_char32_t.h"), ("hex helpers", I + "chars.h")])
p("T04", "Trimming removes exactly the surrounding Unicode whitespace",
  "For every well-formed string of every supported character type, trimming returns the sub-view of the original from its first to its last non-whitespace code point, left and right trimming do so at one end only, and a string of only whitespace becomes empty. Trimming is idempotent, trimming both ends equals trimming left then right, and what is removed contains only whitespace.",
  ["inputs"], "all strings mixing whitespace and non-whitespace code points of every encoded length, embedded NULs included, at compile time and run time",
  "Tests use short literals with ASCII spaces at the ends; multi-unit whitespace and multi-unit neighbours at the boundaries are what break reverse decoding.",
  [I + "strings.h", I + "utf_decode.h"], [("predicated trim", I + "strings.h predicated_trim*"), ("reverse decoding", I + "utf_decode.h")])
p("T05", "A string parameter always holds the text it was given",
  "Whatever it is built from (views, owning strings, literals, characters, any supported character type), copied, moved, assigned, trimmed, converted or compared, a string parameter yields exactly the text a plain string model predicts. It reports whether it owns its storage truthfully, borrows without copying when it was given borrowed text, and any history of operations on several parameters leaves no leak, double free or dangling storage. Moved-from, empty and self-assigned parameters remain usable.",
  ["histories", "inputs"], "all sequences of construction, copy, move, assignment (including self), trim, conversion and destruction over several objects and all source types, short and heap-allocated strings alike",
  "Tests build each kind once; the state space of mode x ownership x small-string/heap x operation sequence is only reachable by generated histories.",
  [I + "string_param.h", "src/string_param.cpp"],
  [("mode-tagged storage", I + "string_param.h"), ("visit/move/copy/trim", "src/string_param.cpp")], [("mode", "which type lives in the storage", I + "string_param.h")])
p("T06", "Fixed-length strings behave like their text",
  "Concatenation, sub-strings and slices (negative indices included), comparison, ordering, element access, iteration and conversion of fixed-length strings give the same result as the same operation on an ordinary string, in constant expressions and at run time. Ordering is a total order consistent with equality, also against views and against itself, and the terminating NUL is always present.",
  ["inputs"], "all contents (embedded NULs and non-ASCII included), lengths, index pairs and character types",
  "Tests use a few literals; comparisons between prefixes, equal objects, high characters and negative slices are sampled at single points.",
  [I + "fixed_string.h"], [("compare, substr, slice, concat", I + "fixed_string.h")])
p("T07", "UUIDs parse, print, compare and derive consistently",
  "Printing a UUID and parsing the result yields the same UUID; every accepted spelling (hyphens or whitespace between octets, optional braces, either case, any character type) parses to the 16 bytes its digits spell and anything else is rejected. Field accessors, byte array, hash, equality and ordering (lexicographic over the 16 bytes, a strict total order) agree with each other. Generated UUIDs carry the right version and variant bits, and name-based ones are the RFC 4122 version-5 value of their namespace and name.",
  ["inputs", "histories"], "all 128-bit values, all strings (well-formed, damaged, truncated), all namespaces and names of any length",
  "Tests parse a few fixed strings; agreement over all byte patterns, all malformed spellings and names of every block length is out of their reach.",
  [I + "uuid.h", "src/uuid.cpp"], [("parser, constructors, comparison", I + "uuid.h"), ("generation and printing", "src/uuid.cpp")])
p("T08", "Hashes equal their published definitions however data is split",
  "The SHA-1 and FNV-1a hashers return the published digest of the concatenation of everything they were given, no matter how the data was cut into pieces or through which overload it was fed, and in constant expressions where that is offered. Feeding or finishing a finished SHA-1 hasher again changes nothing, a copied hasher continues independently, and digests print as lower-case hexadecimal on any stream. Combined hashes are deterministic and depend on every element and on their order.",
  ["inputs", "histories"], "all byte strings, all ways of splitting them over calls, all lengths across block boundaries",
  "Tests hash a few constants in one go; block-boundary and partial-buffer handling depends on the history of chunk sizes.",
  [I + "hashing.h", "src/hashing.cpp"], [("sha1 block buffer", "src/hashing.cpp"), ("fnv1a, hash_combiner", I + "hashing.h")], [("current_block, processed_blocks", "partial block and message length", I + "hashing.h")])

# ---------------------------------------------------------------- bits and integers
p("B01", "Bit counting, rounding, filling and byte reversal match their definitions",
  "For every value of every integer width, counting leading/trailing zeros and ones, population count, rounding up or down to a power of two, power-of-two test, filling the low bits, filling to a pattern and byte reversal give the bit-level result of their definition, zero and all-ones included. Values and compile-time results agree. Bit casting round-trips every bit pattern.",
  ["inputs", "configurations"], "all values of 8- and 16-bit types exhaustively, structured and random 32-, 64- and 128-bit values, each compiled by two compilers, run time and constant evaluation",
  "Tests check a table of constants; builtin, naive and 128-bit code paths are chosen by type, compiler and constant evaluation.",
  [I + "countl.h", I + "countr.h", I + "popcount.h", I + "bit_ceil.h", I + "bit_floor.h", I + "bit_fill.h", I + "byte_reverse.h", I + "bit_cast.h", I + "bit.h"],
  [("builtins with naive fallbacks", I + "countl.h, countr.h, popcount.h"), ("width-generic arithmetic", I + "bit_ceil.h, bit_floor.h, bit_fill.h, byte_reverse.h")])
p("B02", "Packing and selecting bytes are exact inverses in the documented order",
  "Packing integers concatenates their bit patterns from most to least significant, zero-extending into the requested type, without sign smearing or value loss. Selecting a byte by index returns that byte of the value, zero beyond its width when the index is chosen at run time, and selecting several bytes packs them in the order asked. Packing all selected bytes restores the value, in constant expressions as at run time.",
  ["inputs"], "all tuples of integers, enums and bytes of mixed widths and signs; all values; all index lists",
  "Tests pack a few constants of one width; mixed widths, negative parts and index lists are a combinatorial space.",
  [I + "bit_pack.h", I + "bit.h"], [("bit_pack", I + "bit_pack.h"), ("byte_select", I + "bit.h")])
p("B03", "Integer helpers agree with exact arithmetic",
  "Minimum, maximum, clamp, range tests, absolute value, greatest common divisor, least common multiple, bucket division, enum unwrapping and integer literals give the mathematically exact result for all operand values and all mixes of widths and signedness they accept. Among equivalent values minimum, maximum and clamp choose the one their standard equivalents do. Bucket sizes differ by at most one, are never increasing and add up to the dividend.",
  ["inputs"], "all operand values and type mixes accepted by each function, including extremes of each type",
  "Tests sample small positive operands of one type; mixed signedness at the extremes is where conversions go wrong.",
  [I + "math.h", I + "impl/core_utils.h", I + "integer_literals.h"], [("min/max/clamp/between", I + "impl/core_utils.h"), ("lcm/gcd/bucket_size", I + "math.h")])

# ---------------------------------------------------------------- memory
p("M01", "Alignment helpers and aligned allocation honour alignment, size and content",
  "Rounding an address, integer or enum up to an alignment returns the smallest multiple not below it, for every value that has one, and never moves an aligned value. Aligned allocation returns a block of at least the requested usable size at the requested alignment that overlaps no live block and can be written in full, or null when the request cannot be met. Any history of allocations and frees neither leaks nor changes the content of live blocks.",
  ["inputs", "histories"], "all values and power-of-two alignments; all sequences of allocate/free over many live blocks with sizes from one byte up, impossible sizes included",
  "Tests allocate a few sizes once; overlap, content preservation and leaks are properties of histories.",
  [I + "aligned_alloc.h", I + "apply_alignment.h", I + "assume_aligned.h"], [("size rounding", I + "aligned_alloc.h"), ("mask arithmetic", I + "apply_alignment.h")])
p("M02", "A blob keeps its bytes, size and alignment through any history",
  "After any sequence of construction, assignment, copy, move, swap, resize, zeroing and re-alignment over several blobs, each blob has exactly the size and leading bytes a plain byte-vector model predicts, an alignment no smaller than asked for, and its data pointer aligned as reported. Assigning from memory inside the blob itself, self-assignment and self-move keep the value, and no history leaks, double-frees or reads outside a block.",
  ["histories"], "all operation sequences over several blobs with sizes from zero to thousands of bytes and alignments up to a page",
  "Tests exercise each operation once; alias and re-alignment interactions need sequences.",
  [I + "blob.h"], [("aligned storage handling", I + "blob.h")], [("data_, size_, alignment_", "owned block", I + "blob.h")])
p("M03", "Emplacement arrays own every element exactly once",
  "An emplacement array behaves like a fixed-capacity vector: after any history of construction, emplacing, appending, clearing, moving, move assignment (self included) and destruction its size, order and elements match the model, and every element is constructed and destroyed exactly once. Element addresses never change while the elements live. An exception from an element constructor leaves the array as it was, with no leak.",
  ["histories", "fault_sequences"], "all operation sequences over several arrays of counted elements, with constructor failures injected at any point",
  "Tests fill one array once; lifetimes across moves, clears and throwing constructors are histories.",
  [I + "emplacement_array.h"], [("count/capacity storage management", I + "emplacement_array.h")])
p("M04", "Tagged pointers keep pointer and tag independent",
  "A tagged pointer returns exactly the pointer and the tag bits last stored, for any properly aligned address and any tag that fits: writing the tag (whole, typed or bit by bit) never disturbs the pointer and vice versa. Storability queries are true exactly for what fits. Equality, boolean conversion, copying and clearing agree with the (pointer, tag) pair.",
  ["inputs", "histories"], "all alignments, addresses, tag values of every integer, enum and aggregate type, and update sequences",
  "Tests use one alignment and a few tags; interaction of narrow or signed tag types with the pointer bits varies by type and value.",
  [I + "tagged_ptr.h"], [("bit masks and encode/decode", I + "tagged_ptr.h")], [("bits_", "address and tag packed in one word", I + "tagged_ptr.h")])
p("M05", "Scope guards run their action exactly when they promise to",
  "A plain guard runs its action exactly once on every exit from its scope, a success guard only on normal exit, a failure guard only when the scope is left by an exception raised after the guard was made; a dismissed guard never runs. This holds for nested guards, guards inside catch handlers and destructors during unwinding, and actions run in reverse order of creation.",
  ["histories", "fault_sequences"], "all nestings of guard kinds, dismissals, throws and catches",
  "Tests exercise each guard with and without one throw; nesting while another exception is active is not sampled.",
  [I + "scope_guard.h"], [("uncaught exception counting", I + "scope_guard.h")])
p("M06", "Function views call exactly the callable they refer to",
  "Calling a function view forwards arguments and result unchanged to the callable it was made from (function, lambda with state, functor, const or mutable, member-free overloads), sees that callable's current state and never copies it. Copies refer to the same callable, re-assignment switches the target, and an empty view is null and tests false.",
  ["inputs", "histories"], "all callable kinds and signatures, argument values and re-assignment sequences",
  "Tests call one or two lambdas; storage of function vs object pointers and const paths depends on kind and history.",
  [I + "function_view.h"], [("erased pointer plus trampoline", I + "function_view.h")])
p("M07", "Spans view exactly the requested elements",
  "Spans made from any contiguous source refer to that source without copying; first, last and sub-span (fixed or run-time counts) select exactly the asked elements, indexing, front/back, iteration in both directions and byte views agree with the underlying storage. Writes through a span are visible in the source. Iterator arithmetic and comparison follow the random-access laws.",
  ["inputs"], "all sources, sizes, offsets and counts, nested to any depth",
  "Tests take a few fixed slices; offset/count algebra is over all pairs.",
  [I + "span.h", I + "iterators.h"], [("span construction and slicing", I + "span.h")])
p("M08", "Compressed pairs, static arrays and pointer casts preserve values",
  "A compressed pair holds both values independently through construction, copy, move, assignment, swap and structured access for every mix of empty, final, reference, trivial and non-trivial members, and is no larger than an ordinary pair. A static array behaves like a plain array: size, emptiness, element access, iteration and lexicographic comparison agree with element-wise semantics. Pointer casts between addresses, void pointers, functions and integers round-trip, and numeric strong typedefs compute exactly what their underlying values compute.",
  ["inputs", "histories"], "all member type mixes and values; all array contents and lengths; all addresses",
  "Tests use a couple of type mixes and equal-length arrays with one difference; ordering and emptiness are over all contents.",
  [I + "compressed_pair.h", I + "static_array.h", I + "pointer_cast.h", I + "strong_typedef.h"], [("EBO storage", I + "compressed_pair.h"), ("comparison", I + "static_array.h")])
p("M09", "Integral ranges enumerate and combine like integer sets",
  "A half-open integral range contains exactly the integers from its start up to but excluding its end: size, emptiness, membership, forward iteration and random access all agree with that set. For non-empty ranges, containment, intersection, adjacency and union of two ranges agree with set inclusion, set intersection, touching ends and convex hull. Nothing changes at the extremes of the type or for ranges crossing zero.",
  ["inputs"], "all start/end pairs of all integer types and pairs of ranges",
  "Tests use a few positive ranges; signed, extreme and degenerate pairs are unbounded.",
  [I + "integral_range.h"], [("range algebra", I + "integral_range.h")])

p("M10", "Shapes are made of exactly the components they are given",
  "A foreign type declared bit-castable to a vector, matrix, quaternion, axis-angle, Euler angles, plane, segment, triangle, sphere, axis-aligned or oriented box or ray converts to it implicitly wherever one is expected (initialisation, assignment, arguments, constant expressions), whatever its members look like, tuple-like or not, and yields exactly the components whose bytes it holds; types not declared so do not convert. Constructing any of these types from components, arrays or scalars, with or without naming the template arguments (which are otherwise deduced from the arguments: as many components as they provide, a scalar type that holds them), reading them by name, address or tuple access, and converting to another scalar type keeps each component by itself.",
  ["inputs", "configurations"], "all component values, classes of every layout, all scalar types, both compilers; mixed scalar types where a constructor accepts them",
  "Tests opt in one class per type and construct from a few fixed values; every combination of types and forms is its own overload.",
  [I + "vector.h", I + "matrix.h", I + "quaternion.h", I + "oriented_bounding_box.h"], [("constructors and deduction guides", I + "vector.h"), ("constructors and deduction guides", I + "matrix.h")])

# ---------------------------------------------------------------- scalar numerics
p("N01", "Half-precision floats behave as IEEE binary16",
  "For all 65,536 bit patterns, converting a half to float, double or wider is exact, and converting back restores the value; converting any float, double or integer to half rounds to nearest-even with correct overflow to infinity, subnormals and signed zero, and NaN stays NaN. Arithmetic, comparison, increments, compound assignment and numeric limits equal computing in float and rounding once. The named constants are the nearest halves to the true values. Half overloads of the math functions equal the float function rounded to half, with arguments in the documented order.",
  ["inputs", "configurations"], "all half bit patterns exhaustively, all pairs for conversions and comparisons by sampling, all floats near rounding boundaries; native and emulated half types",
  "Tests check a list of constants; rounding boundaries are a dense set and the emulated type is only built in other configurations.",
  [I + "half.h"], [("conversion and emulation", I + "half.h")])
p("N02", "Constexpr math agrees with the standard library",
  "Floor, ceiling, square root, sine, cosine, tangent, their inverses, two-argument arctangent and absolute value agree with the standard library within a few units in the last place, at run time for every finite argument of every floating-point type, and in constant evaluation within the precision the series can give (relative to the larger of the argument's rounding and the result's). Floor, ceil and abs are exact (the sign of a zero result of floor and ceil is free), as are square roots of perfect squares. Infinity/NaN tests classify every bit pattern correctly even when compiled with aggressive floating-point optimisation.",
  ["inputs", "configurations"], "all finite arguments of float, double, long double, quad and half, run time and constant evaluation; arguments next to the poles of the tangent are excluded where the library itself is not accurate",
  "Tests evaluate each function at a few points at run time; hand-written series and iterations are used in constant evaluation only.",
  [I + "math.h"], [("consteval series and Newton iteration", I + "math.h"), ("infinity_or_nan bit tests", I + "math.h")])
p("N03", "Interpolation, approximate equality, angle wrapping and integer helpers obey their laws",
  "Linear interpolation equals start*(1-a)+finish*a within rounding, at run time and in constant evaluation, so it returns its endpoints exactly at 0 and 1. Approximate (zero) equality is true exactly when the magnitude of the difference is less than the tolerance, in the arithmetic of the common type, hence symmetric, reflexive for positive tolerances and monotone in the tolerance. Normalising an angle returns the same angle modulo a full turn (within rounding) inside [0, 2pi), or [-pi, pi) for the signed form, for every finite angle, and is idempotent. min, max and clamp over any number of mixed arguments return the least, greatest and nearest in-range argument by value; lcm and gcd of any number of integers are the least common multiple and greatest common divisor; evenly_distribute splits a total over bins so that the parts sum to the total and differ by at most one.",
  ["inputs"], "all finite operands of each floating-point type, including interval edges, tiny negatives and large magnitudes; integers of every width",
  "Tests use a few values away from the interval edges.",
  [I + "math.h"], [("lerp, approx_equal, approx_zero, normalize_angle, normalize_angle_signed, lcm, gcd, evenly_distribute", I + "math.h"), ("min, max, clamp", "include/muu/core.h")])
p("N04", "Accumulators summarise exactly the samples added",
  "After any sequence of adding values, ranges or other accumulators, an accumulator reports the number of samples, minimum, maximum and sum of exactly the multiset of samples it covers: integers exactly, floating-point sums within the error bound of compensated summation (also when compiled with aggressive floating-point optimisation), vectors component by component. Merging accumulators in any grouping covers the union (also an accumulator with itself), an empty one is neutral, and copying or assigning a fresh one behaves as expected.",
  ["histories", "inputs"], "all sample sequences, all ways of splitting them into accumulators and merging, all arithmetic types",
  "Tests add a few samples to one accumulator; merge histories and ill-conditioned sums are unsampled.",
  [I + "accumulator.h"], [("min/max/sum/count update and Kahan compensation", I + "accumulator.h")])

p("N05", "Named constants have the values their names say",
  "Every named mathematical constant (fractions, roots, multiples and quotients of pi, e and the golden ratio, angle conversion factors) of every floating-point type is the correctly rounded value of what its name says (to within one unit in the last place for long double and 128-bit floats). Integer constants, limits, infinities, digit counts and default tolerances are those of the type, character constants are the characters they name. A constant of a vector or matrix type repeats the scalar constant in every component, axes and directions point where their names say in a right-handed system with Y up, rotation constants turn a vector that way, and identities are neutral.",
  ["inputs", "configurations"], "all constants, all scalar types, all vector and matrix shapes",
  "Tests use a few constants for convenience and compare none of them with an independent value.",
  [I + "impl/core_constants.h", I + "vector.h", I + "matrix.h", I + "half.h"], [("constants<T>", I + "impl/core_constants.h")])

# ---------------------------------------------------------------- vectors, matrices, quaternions
p("V01", "Vector arithmetic is component-wise in every dimension and type",
  "Every operator, compound operator, min/max/clamp, abs/floor/ceil, lerp, shift, remainder, sum, product, comparison, approximate comparison, infinity/NaN test, conversion, broadcast, truncating/extending/concatenating construction (from scalars, arrays, tuples, spans, pointers and vectors), swizzle, swap, iteration and element access of a vector equals applying the scalar operation to each component, for all supported scalar types and dimensions 1 to many, wherever the scalar operation is defined (division of floating-point vectors by a scalar and interpolation within rounding). Aliased operands (a += a, a *= a[0], clamping to itself, assignment from own swizzle) behave as if copied first.",
  ["inputs"], "all component values, operand pairs, dimensions 1-9 and scalar types; aliased and non-aliased",
  "Tests use a fixed table per type; hand-specialised code per dimension and per type promotes differently.",
  [I + "vector.h", I + "impl/vector_base.h"], [("componentwise kernels with unrolled special cases", I + "vector.h")])
p("V02", "Vector norms and products obey Euclidean geometry",
  "Length, squared length, distance, squared distance, dot and cross product (including those with axis tags), direction, normalisation, orthogonal vectors and angle equal their mathematical definitions within rounding, in every form (member, static, free, constant-evaluated), for vectors whose squared components neither overflow nor underflow: dot and distance are symmetric, cross is the right-handed product, lengths are non-negative, angles lie in [0, pi], and the lengths written to output parameters are the lengths. A normalised non-zero vector has unit length, the same direction, and reports itself normalised; a vector that is clearly not of unit length does not, and an integer vector does exactly when its squared length is 1. Integer vectors compute lengths, directions and angles in floating point rather than truncating, and their products exactly.",
  ["inputs"], "all finite vectors whose squares do not overflow or underflow, dimensions 1-4 and 6, all scalar types",
  "Tests check a few axis-aligned or fixed vectors.",
  [I + "vector.h"], [("dot, cross, length, normalize, angle", I + "vector.h")])
p("X01", "Matrix arithmetic follows matrix algebra for every shape",
  "Addition, subtraction, scaling, multiplication (matrix-matrix, matrix-column, row-matrix, with aliased destination), transposition, element/row/column access, construction in row-major order, shape conversion and comparison equal the textbook definition entry by entry for every shape (entries a smaller source shape does not have become zero), exactly for integers and within rounding for floats. Transposing twice is the identity, transposition reverses products, multiplication by the identity changes nothing and products associate.",
  ["inputs"], "all entries, all shapes up to 5x5 and mixed shapes, integer and floating-point scalars",
  "Tests multiply fixed matrices of a few shapes; each small shape has hand-written kernels.",
  [I + "matrix.h", I + "impl/matrix_base.h"], [("multiply, transpose, constructors", I + "matrix.h")])
p("X02", "Determinant, inverse and orthonormalisation satisfy their equations",
  "The determinant equals the Leibniz expansion and is multiplicative and transpose-invariant; the inverse of a well-conditioned matrix multiplied with it from either side is the identity within the condition-dependent rounding bound. Orthonormalising a 3x3 matrix with independent columns (or the 3x3 part of a transform) yields perpendicular unit columns spanning the same flags with the same orientation, and matrices are reported as orthonormalised exactly when their columns are clearly perpendicular and unit or clearly not.",
  ["inputs"], "all well-conditioned square matrices up to 4x4 and all determinants, integer entries exactly",
  "Tests invert one or two fixed matrices per size; every cofactor sign and index matters.",
  [I + "matrix.h"], [("hand-expanded cofactors", I + "matrix.h determinant/invert"), ("Gram-Schmidt", I + "matrix.h orthonormalize")])
p("X03", "Transform matrices act on points and directions as described",
  "Scale, translation, rotation (2D, axis-angle, Euler, quaternion), axis and direction constructors produce matrices whose effect on points and directions equals scaling, shifting and rotating them; rotations preserve lengths, orientation and the axis. Positions feel translation and directions do not, composed matrices act like successive transforms, and extracting scale/translation/rotation returns what was put in.",
  ["inputs"], "all parameters, points, directions, handedness and matrix shapes that can hold the transform",
  "Tests check a few axis-aligned examples.",
  [I + "matrix.h", I + "impl/quaternion_x_matrix.h"], [("from_* factories and transform_* members", I + "matrix.h")])
p("X04", "Perspective projection maps the view frustum to the clip volume",
  "For every field of view, aspect ratio and near/far pair, in every supported convention (left or right handed, zero-to-one or minus-one-to-one depth), the projection maps the centre and corners of the near and far planes to the centre and corners of the clip volume with the near plane at the lower and the far plane at the upper depth limit, and keeps depth monotonic in between. The overload taking a screen size equals the one taking its aspect ratio.",
  ["inputs", "configurations"], "all frustum parameters and all convention flags",
  "Tests cover the default convention with one parameter set.",
  [I + "matrix.h"], [("perspective_projection", I + "matrix.h")])
p("Q01", "Quaternions form a rotation group",
  "Multiplying unit quaternions composes their rotations (right operand first), is associative and norm-multiplicative, and the conjugate/inverse undoes the rotation. Rotating a vector preserves length and equals the rotation matrix built from the quaternion; scaling a quaternion scales its rotation angle; spherical interpolation hits both endpoints, stays unit and moves at constant angular speed along the shorter arc (very close quaternions may be interpolated linearly, which differs by less than a millionth). Rotation between two directions maps the first onto the second, whatever their lengths and even when parallel or opposite.",
  ["inputs"], "all unit quaternions, vectors, interpolation parameters and direction pairs",
  "Tests rotate a few axis vectors; near-parallel and opposite pairs and general products are not sampled.",
  [I + "quaternion.h"], [("operator*, slerp, from_rotation", I + "quaternion.h")])
p("Q02", "Rotation representations convert into each other without loss",
  "Converting a rotation between quaternion, axis-angle, Euler angles and 3x3, 3x4 or 4x4 matrices in any order yields the same rotation within rounding, including half-turns, tiny angles, gimbal lock and the shortest-path option (within a degree of gimbal lock the pitch may be read as a right angle). Euler angles stand for yaw about the local up axis, then pitch about the local right axis, then roll about the local forward axis, with the documented signs, and axis-angle axes stay unit length.",
  ["inputs"], "all rotations, biased towards the degenerate ones, and all conversion chains",
  "Tests convert a few fixed rotations; branch selection in the matrix and Euler extraction depends on the rotation.",
  [I + "quaternion.h", I + "axis_angle.h", I + "euler_angles.h", I + "impl/quaternion_x_matrix.h"], [("to_euler/from_euler/axis_angle/matrix", I + "quaternion.h, impl/quaternion_x_matrix.h")])
p("P01", "Packed unit vectors round-trip within their resolution",
  "Unpacking a packed unit vector gives a unit-length vector whose projection onto the octahedron is the original's to the nearest step of the storage type (or of the scalar types used, where those are coarser), for two and three dimensions, every storage width and all octants; components that are not rounded to zero keep their signs. Packing an unpacked vector again gives the same vector, the axis constants are exact, and any bit pattern unpacks to a unit vector with the signs it reports.",
  ["inputs"], "all unit vectors (axes, diagonals, near-axis and random) and all storage widths",
  "Tests pack a few axes; the mapping is over the whole sphere.",
  [I + "packed_unit_vector.h"], [("sign bits plus projected coordinates", I + "packed_unit_vector.h")])

# ---------------------------------------------------------------- geometry
p("G01", "Plane queries agree with the signed distance they define",
  "A plane built from a point and normal, from three points or from coefficients contains the points that define it; signed distance is positive on the normal side, projection lands on the plane at the nearest point, and side, containment and distance queries agree with the signed distance; a plane intersects a segment or an axis-aligned box exactly when the shape reaches or touches both sides of it. A plane transformed by an invertible affine matrix (rotation, scale, shear, mirroring, translation) contains exactly the transformed points and keeps unit length and sides.",
  ["inputs"], "all planes and points in moderate range, all invertible transforms",
  "Tests use axis-aligned planes.", [I + "plane.h", I + "impl/geometry_common.h"], [("planes::*", I + "impl/geometry_common.h")])
p("G02", "Line segment queries agree with the parametrised segment",
  "Length, midpoint, direction, reversal, extension (of the end point), closest point, containment, colinearity and coplanarity of a segment agree with minimising or evaluating over its parametrisation, zero-length segments included (they have no direction and cannot be extended). A point is contained (colinear) when its squared distance from the segment (its line) is below the tolerance, an array of points or a segment when all its points are, segments are coplanar when one plane passes within the tolerance of all four points; a plane intersects a segment when the ends are on different sides. Reversing a segment changes none of these.",
  ["inputs"], "all segments and points, on, near and off the segment",
  "Tests use a few axis-aligned segments.", [I + "line_segment.h", I + "impl/geometry_common.h"], [("lines::*", I + "impl/geometry_common.h")])
p("G03", "Triangle measures and barycentric queries agree with the geometry",
  "Area, perimeter, normal, centroid, supporting plane, barycentric coordinates, point/segment/array containment and coplanarity agree with the vertex geometry: barycentric coordinates reproduce the (projected) point and sum to one, points within the tolerance of the plane and inside or on the edges are contained, others are not. Triangle-triangle intersection (single precision and wider) is symmetric, vertex-order independent, counts touching, and agrees with an independent exact decision, coplanar triangles in any orientation included; a reported overlap segment lies in both triangles and is their whole overlap, and none is reported for separate or coplanar triangles.",
  ["inputs"], "all non-degenerate triangles, points and pairs of triangles",
  "Tests use one or two triangles.", [I + "triangle.h", I + "impl/tri_tri_intersection.h", I + "impl/geometry_common.h"], [("triangles::*", I + "impl/geometry_common.h"), ("Guigue-Devillers test", I + "impl/tri_tri_intersection.h")])
p("G04", "Axis-aligned boxes bound, contain and intersect exactly",
  "Boxes built from corners, points, spheres or rotated boxes contain all their sources and are the smallest such boxes; corners, volume, size, appending and transformation agree with the point set. The measures (volume, size, shortest and longest extent), the closest point and the empty, degenerate, zero and equality tests agree with their definitions. Containment of points (also ranges of them), segments, triangles, spheres and axis-aligned or oriented boxes, containment of a box by a sphere, and intersection with segments, triangles, planes, spheres and axis-aligned or oriented boxes agree with an exact geometric decision away from touching cases, on touching cases too where the coordinates are simple enough to be exact, in every form of the query (member, static, collision tester, either way round).",
  ["inputs"], "all boxes and all other shapes, near, inside, straddling, edge-crossing and apart",
  "Tests place a few shapes; separating-axis code goes wrong only for particular relative poses.",
  [I + "bounding_box.h", I + "impl/bounding_box_x_bounding_sphere.h", I + "impl/bounding_box_x_line_segment.h", I + "impl/bounding_box_x_plane.h", I + "impl/bounding_box_x_triangle.h", I + "sat_tester.h", I + "impl/geometry_common.h"],
  [("aabbs::* and separating-axis tests", I + "impl/geometry_common.h, sat_tester.h")])
p("G05", "Bounding spheres bound, contain and intersect exactly",
  "Containment of points (also ranges of them), segments, triangles and spheres, intersection with spheres and triangles, closest point, volume, diameter, translation and scaling of a sphere, and the empty, degenerate, zero and equality tests, agree with distances from its centre away from touching cases, wherever the sphere is, in every form of the query (member, static, collision tester, either way round). Symmetric queries are symmetric.",
  ["inputs"], "all spheres and all other shapes, near, inside, straddling and apart",
  "Tests use unit spheres at the origin, which hides centre and radius mistakes.",
  [I + "bounding_sphere.h", I + "impl/bounding_box_x_bounding_sphere.h", I + "impl/bounding_sphere_x_triangle.h", I + "impl/bounding_sphere_x_line_segment.h", I + "impl/geometry_common.h"], [("spheres::*", I + "impl/geometry_common.h")])
p("G06", "Oriented boxes contain and intersect exactly in any orientation",
  "Corners, measures and closest point of an oriented box, containment of points, segments and triangles, intersection with triangles, spheres and axis-aligned or oriented boxes, and its translation, scaling and transformation (also of flat boxes) agree with the box's definition as center plus extents along its axes, away from touching cases. Reordering or reversing the axes changes no answer, and symmetric queries are symmetric.",
  ["inputs"], "all boxes, rotations and other shapes, in particular edge-edge separated poses",
  "Tests use a few boxes; edge-edge separating axes matter only in special relative poses.",
  [I + "oriented_bounding_box.h", I + "impl/bounding_box_x_oriented_bounding_box.h", I + "impl/oriented_bounding_box_x_triangle.h", I + "impl/oriented_bounding_box_x_bounding_sphere.h", I + "impl/oriented_bounding_box_x_line_segment.h", I + "sat_tester.h"], [("obbs::* and separating-axis tests", I + "impl/geometry_common.h, sat_tester.h")])
p("G07", "Ray hits report the nearest point in front of the origin",
  "A ray hits a plane, triangle, sphere or axis-aligned box exactly when some non-negative distance along it reaches the shape; the reported distance is non-negative, the point there lies on the shape's surface (or is the origin where documented), and no nearer point of the surface is hit. Points at a distance, bouncing, and the comparisons of rays agree with their definitions. Rays starting inside, pointing away, parallel to faces or missing narrowly are decided correctly away from touching cases.",
  ["inputs"], "all rays and shapes, origins in front, inside and behind, axis-parallel directions included",
  "The ray tests are not even part of the built suite.", [I + "ray.h", I + "impl/ray_x_plane.h", I + "impl/ray_x_triangle.h", I + "impl/ray_x_bounding_sphere.h", I + "impl/ray_x_bounding_box.h", I + "impl/geometry_common.h"], [("ray::hits", I + "ray.h")])

# ---------------------------------------------------------------- concurrency, misc
p("C01", "Every task given to a thread pool runs exactly once before it is waited for",
  "Each task enqueued runs at most once, on one of the pool's workers with a valid worker index, and after waiting every task enqueued before the wait has run exactly once and been destroyed, with its effects visible to the waiter; effects before enqueuing are visible to the task. Enqueuing from many threads, while others wait, and past the queue capacity neither loses, duplicates nor deadlocks, and as many tasks as the capacity fit without blocking. Destroying or replacing a pool stops its workers; tasks still queued then are dropped, tasks already running finish. Captured state is destroyed exactly once in every case, and pools move without losing tasks.",
  ["schedules", "histories"], "all interleavings of producers, workers and waiters, all worker counts and queue sizes, all kinds of task (trivial, owning, large, by reference, functions), pool moves and destruction at any moment",
  "Tests enqueue a few hundred increments from one thread; lost wakeups, double pops and full queues depend on schedule and history.",
  [I + "thread_pool.h", "src/thread_pool.cpp"], [("per-worker ring queues with stealing and a shared counter", "src/thread_pool.cpp")], [("pending count", "enqueued but unfinished tasks", "src/thread_pool.cpp")])
p("C02", "Parallel for-each covers every element exactly once",
  "A parallel for-each over an integer range, iterator range or collection calls its task exactly once for every element and for nothing else, with the right element and a valid batch index, for every element type, range (empty, reversed, negative, up to the limits of its type, smaller or larger than the number of workers) and callable signature. Calls with the same batch index never overlap, several for-each can be under way at once, and after waiting all effects are visible.",
  ["inputs", "schedules"], "all ranges, collections, worker counts, callable signatures and interleavings",
  "Tests use one range size on one pool; batch arithmetic has remainder and direction cases.",
  [I + "thread_pool.h", "src/thread_pool.cpp"], [("batch partitioning", I + "thread_pool.h for_each")])
p("C03", "The spin mutex gives mutual exclusion and visibility",
  "At most one thread holds the mutex at a time, everything written while holding it is visible to the next holder, try-lock never blocks, fails while another thread holds it and succeeds whenever nobody holds or wants it, and unlock always makes it available again.",
  ["schedules"], "all interleavings of lock, try-lock and unlock by several threads",
  "Tests lock it from one or two threads; ordering bugs need contention and a race detector.",
  [I + "spin_mutex.h"], [("atomic flag with acquire/release", I + "spin_mutex.h")])
p("S01", "Printed values read back as the same values",
  "Streaming a vector, matrix, rotation, packed unit vector or geometric shape writes every component exactly once and in order, as `{ a, b }` with inner braces around each group of several components and matrices row by row on lines of their own. Each number is written in decimal as the stream itself would write it with 3 (half), 6 (float), 9 (double) or 12 significant digits, right aligned in the stream's width, so reading it back gives the value to that precision (integers of every size exactly). Narrow and wide streams get the same text; flags, precision and fill are left as they were (also when writing fails), the width is consumed, and a failing stream reports the failure in its usual way.",
  ["inputs", "configurations"], "all values of all scalar types and shapes, all stream formatting states, streams that fail at any point",
  "Tests do not check printed text.", ["src/vector_types_common.cpp", "src/stream_printer.h", I + "impl/vector_types_common.h"], [("print_compound_vector / print_matrix", "src/vector_types_common.cpp")])

p("E01", "Type traits and transformations answer correctly for every type",
  "Each trait of the metaprogramming header (categories of types such as integer, float, enum, pointer, array or class, with their any_, all_ and cv-ignoring forms; signedness; conversions; presence of operators, iteration, data() and size(), mutex and tuple interfaces; inheritance; arity and kind of functions, function objects and lambdas) is true for exactly the types its documentation describes, and each transformation (adding, removing or copying const, volatile, references, noexcept and signedness, rebasing pointers, unwrapping enums, sizes of integers, parameter and tolerance types) yields the documented type, for every type with every combination of qualifiers. Forms taking several types are the and, or or count of the single form, and asking about an unsuitable type gives an answer instead of an error.",
  ["inputs"], "all kinds of types with all qualifiers, all pairs for conversions, lists of them",
  "Tests of these traits sample a few types each; most combinations with volatile and rvalue references are never tried.",
  [I + "meta.h"], [("traits", I + "meta.h")])
p("E02", "Type lists select, slice, search and edit exactly",
  "For every list of types, of any length, with repeated types or lists nested in it: the length, the type at each position, the position of each type, containment, slices, prepending, appending, concatenation, removal and flattening are exactly those of the sequence of types.",
  ["inputs"], "all lists of up to 130 types, all positions and ranges",
  "Tests use lists of a few types; the implementation skips ahead in strides of different sizes and has special cases by length.",
  [I + "type_list.h"], [("type_list_selector / slicers", I + "type_list.h")])
p("E03", "Type names spell the type",
  "The name of a type is its C++ spelling, the same on every compiler: names with their namespaces, const and volatile, pointers, references, arrays of arrays with their extents in order, functions with their return, parameter, variadic and noexcept parts, and templates with all their type, integer, character and boolean arguments, however these are combined.",
  ["inputs", "configurations"], "all types built from named types by these constructions (pointers to arrays excepted), both compilers",
  "Tests name a few fixed types.",
  [I + "type_name.h", I + "fixed_string.h"], [("type_name", I + "type_name.h")])
p("E04", "Compile-time loops, flag operators, iterator and preprocessor helpers and build facts do what their plain equivalents do",
  "for_sequence and for_product call the function with every index (or pair, row by row) exactly once in order, as constants of the requested type, for any length including zero, in constant evaluation too, forwarding the callable's category, and are noexcept exactly when every call is. The operators MUU_MAKE_FLAGS defines on an enumeration act bit by bit on its underlying values. begin_iterator, end_iterator and iterator_distance delimit exactly the elements a range-based loop visits (arrays, member, std and ADL begin/end). MUU_FOR_EACH and MUU_COUNT_VA_ARGS visit and count every argument in order, for up to 124. source_location::current names the caller's line, file and function, and its file_name_tail is what follows the last / or \\. The build:: date constants read as the date and time of compilation. Size literals are the number times their power of 1024; is_constant_evaluated and MUU_IF_CONSTEVAL tell constant evaluation from run time.",
  ["inputs", "configurations"], "all lengths, callables, flag values, containers, argument lists, paths and dates; both compilers",
  "Tests use one or two fixed lengths, flags and containers, and the one date they are compiled on.",
  [I + "for_sequence.h", I + "preprocessor.h", I + "iterators.h", I + "source_location.h", I + "build.h"], [("for_sequence", I + "for_sequence.h"), ("build date", I + "build.h"), ("source location", I + "source_location.h")])

with open(os.path.dirname(os.path.abspath(__file__)) + "/../properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
