"""Which harness decides which property, and how it is built."""
ASSUMPTIONS = ["the oracle in the harness is right", "g++ 13.3 / clang 18 on x86-64 compile the harness correctly"]

G = {"name": "gcc20san", "cxx": "g++", "std": "c++20"}
C = {"name": "clang17", "cxx": "clang++", "std": "c++17", "opt": ["-O2"], "san": False}

CHECKS = {}


def check(id, src, rule, builds=(G, C), lib=(), **kw):
    CHECKS[id] = dict(src=[src] if isinstance(src, str) else list(src), rule=rule, builds=[dict(b) for b in builds],
                      lib=list(lib), **kw)


check("B01", "b01_bits.cpp",
      "8/16-bit values are enumerated; wider ones drawn with corner bias (powers of two +-1, runs of ones, small, random); "
      "non-trivial = neither zero nor all ones")
check("B02", "b02_pack.cpp",
      "tuples of integers/enums of mixed width and sign with corner-biased values; non-trivial = packed value not zero")
check("B03", "b03_ints.cpp",
      "corner-biased operands of mixed width and signedness, gcd/lcm operands built from small primes; non-trivial = "
      "distinct operands / non-empty interval / remainder / gcd > 1, per check")
check("T01", "t01_decoders.cpp",
      "all code points and all 2-byte strings enumerated; streams of encoded scalars mixed with stray, damaged and random "
      "units fed to one decoder; non-trivial = contains a multi-unit sequence or malformed part",
      technique="differential testing against a table-3-7 reference decoder, exhaustive over code points")
check("T02", "t02_utf_strings.cpp",
      "strings of scalars of every encoded length (NUL, BOM, noncharacters included), native/byte-swapped, and damaged "
      "ones; non-trivial = at least two characters, or a BOM/byte swap, per check",
      technique="reference-encoder differential, round-trip and tiling invariant over generated strings")
check("T03", "t03_chars.cpp",
      "every 8/16-bit unit and every value up to U+1100FF enumerated for char32_t and wchar_t, corner-biased values "
      "beyond; non-trivial = enumerated block, or value above U+10FFFF",
      technique="exhaustive differential test against Unicode 15.0 data from an independent source")
check("T04", "t04_trim.cpp",
      "strings of scalars with whitespace runs at either end, near-whitespace neighbours inside, all five character types, "
      "plus malformed strings; non-trivial = something to trim and something to keep",
      technique="reference-model differential over generated strings")
check("T05", "t05_string_param.cpp",
      "histories of up to 24 operations (build from every kind of source, move, self-move, trim, view, take, print) over "
      "four parameters; non-trivial = history with both a move and a conversion",
      builds=(G, C, dict(G, name="gcc20lib17", libstd="c++17", defs=["LIB17"], scale=0.5)),
      lib=("string_param.cpp",), technique="model-based stateful testing against plain strings, with leak accounting")
check("T06", ["t06_fixed_string.cpp@PART=%d" % i for i in (1, 2, 3, 4)],
      "strings of length 0..200 with corner-biased characters, pairs tied on a prefix so that order is decided late, "
      "seed-derived compile-time index pairs; non-trivial = not empty",
      technique="differential testing against std::basic_string")
check("T08", "t08_hashing.cpp",
      "messages cut into up to 12 pieces with sizes around block boundaries, fed through every overload; every length up "
      "to 330 (quick) bytes enumerated; one message beyond 2^32 bits; non-trivial = more than one piece and more than a block",
      builds=(G, dict(C, defs=["HUGE_MESSAGES"])), lib=("hashing.cpp",),
      technique="differential testing against textbook SHA-1/FNV-1a over generated chunkings")
check("T07", "t07_uuid.cpp",
      "128-bit values with corner-biased bytes and pairs tied on a prefix; spellings with every style of separator, brace "
      "and case, half of them damaged; names of 0..200 bytes; non-trivial = not nil / not the plain canonical spelling",
      lib=("uuid.cpp", "hashing.cpp"), technique="round-trip, grammar-based differential parsing, model-based ordering")
check("M01", "m01_align.cpp",
      "corner-biased integers of every width against all power-of-two alignments; histories of up to 40 "
      "allocations/frees over 12 live blocks, alignments up to 64 KiB; impossible sizes; non-trivial = non-zero value / "
      "history with frees")
check("M02", "m02_blob.cpp",
      "histories of up to 24 operations over four blobs, sizes around the 2048-byte alignment threshold, sources inside the "
      "blob itself; non-trivial = more than three operations",
      technique="model-based stateful testing with leak accounting")
check("M03", "m03_emplacement.cpp",
      "histories of up to 30 operations over three arrays of counted, over-aligned, nothrow, trivial and byte elements, "
      "constructors made to throw; non-trivial = more than four operations",
      technique="model-based stateful testing with fault injection and lifetime accounting")
check("M04", "m04_tagged.cpp",
      "histories of up to 24 updates of two tagged pointers (every integer width and sign, enums, POD tags, single bits, "
      "clearing, copying) over corner-biased addresses at ten alignments, with all/57/48 address bits in use; "
      "non-trivial = address changed after a tag was stored",
      builds=(G, C, dict(G, name="gcc20san48", defs=["MUU_TAGGED_PTR_BITS=48"], scale=0.5),
              dict(C, name="clang17b57", defs=["MUU_TAGGED_PTR_BITS=57", "NDEBUG"])),
      technique="model-based stateful testing against an (address, tag) pair")
check("M05", "m05_scope.cpp",
      "random programs of nested scopes, try/catch/rethrow, throws, destructors and guards of all three kinds over six kinds "
      "of callable, dismissed anywhere, whose actions run programs themselves; non-trivial = two guards and a throw",
      technique="random program generation against a structural model of scope exit")
check("M06", "m06_function_view.cpp",
      "histories of up to 30 operations (bind to one of twenty kinds of callable, copy, move, swap, store in a growing vector, "
      "change the callable's state, call) over four views; argument/result forwarding over generated values; "
      "non-trivial = a view was re-bound and another copied",
      technique="model-based stateful testing against a (target, state) model")
check("M07", "m07_span.cpp",
      "chains of up to six slicings/conversions/writes over storage of 0..40 elements of five types; every static "
      "offset/count pair of static spans; non-trivial = a proper slice was taken",
      technique="model-based testing against (address, index range), exhaustive static slices")
check("M08", ["m08_misc.cpp@PART=%d" % i for i in (1, 2, 3, 4)],
      "every pair out of twelve member kinds (empty, related, final, reference, move-only, tracked, over-aligned) with "
      "generated values; seed-derived compile-time arrays tied on a prefix; corner-biased addresses through every pointer and "
      "integer type; numeric typedefs over ten value types; non-trivial = the two values differ",
      technique="model-based and differential testing against std::pair/std::vector/the underlying type, with lifetime accounting")
check("M09", "m09_range.cpp",
      "corner-biased start/end pairs of every integer width and sign and pointers, pairs sharing or just missing an end, "
      "random-access histories of up to 10 jumps, every range and a grid of all pairs of 8-bit integers; non-trivial = not "
      "empty / the two ranges meet or touch",
      technique="differential testing against sets of integers in 128-bit arithmetic, exhaustive for 8 bits")
check("M10", ["m10_components.cpp@PART=%d" % i for i in range(4)] + ["m10_deduction.cpp@PART=%d" % i for i in (4, 5, 6)],
      "random bytes and small values for ten shapes, six foreign classes per shape (members, arrays, private, tuple-like of "
      "three sizes) and the scalar types, seed-derived argument types for deduction; non-trivial = components differ",
      builds=(dict(G, opt=["-O0"]), dict(C, opt=["-O0"])),
      technique="generated bit patterns and argument types against the bytes and values put in")
HAS_F16C = "f16c" in open("/proc/cpuinfo").read()
check("N01", "n01_half.cpp",
      "all 65,536 halves through every unary operation, every rounding boundary from both sides in three precisions, a "
      "seed-dependent sample (thorough: all) of the 2^32 floats, corner-biased pairs and mixed operands of every arithmetic "
      "type, seed-derived constant evaluation; non-trivial = both operands non-zero and not NaN",
      builds=(G, C, dict(G, name="gcc20sanemu", defs=["MUU_HAS_FLOAT16=0", "EMULATED"]),
              dict(C, name="clang17emu", defs=["MUU_HAS_FLOAT16=0", "EMULATED"]))
      + ((dict(C, name="clang20f16c", std="c++20", defs=["MUU_HAS_FLOAT16=0", "EMULATED"], xflags=["-mf16c"], scale=0.5),) if HAS_F16C else ()),
      technique="exhaustive and boundary-directed differential testing against a model of IEEE binary16")
_n02 = ["n02_math.cpp"] + ["n02_math.cpp@PART=%d" % i for i in (1, 2, 3, 4)]
check("N02", _n02,
      "arguments over the whole exponent range, next to integers, to the ends of the inverse functions' domains and to "
      "multiples of pi/4, in every floating-point type; bit patterns with corner-biased exponents and fractions, also under "
      "-ffast-math; seed-derived tables evaluated at compile time; non-trivial = non-zero argument / an infinity or NaN among them",
      builds=(dict(G, xflags=["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000"]),
              dict(C, xflags=["-fconstexpr-steps=1000000000"]),
              dict(G, name="gcc20fast", san=False, opt=["-O2", "-ffast-math"], defs=["FASTMATH"], src=["n02_math.cpp"]),
              dict(C, name="clang17fast", opt=["-O2", "-ffast-math"], defs=["FASTMATH"], src=["n02_math.cpp"])),
      technique="differential testing against libm and libquadmath, run time and constant evaluation")
check("N03", "n03_interp.cpp",
      "endpoints over the whole moderate exponent range or a few units apart, weights inside and outside [0, 1]; pairs exactly "
      "the tolerance apart or a bit off; angles over the whole range and next to multiples of half a turn, every half; integers "
      "with shared factors in mixed widths; non-trivial = the operands differ / the angle is outside the range",
      technique="differential testing against quad-precision and 128-bit integer models, metamorphic laws, seed-derived constant evaluation")
check("N04", "n04_accumulator.cpp",
      "histories of up to 24 steps over four accumulators (samples, ranges, merges incl. with itself and with empty ones, "
      "copies, resets) of every scalar type and of vectors; samples are multiples of a power of two so that exact sums are known; "
      "long cancelling sums; non-trivial = a non-empty accumulator was merged",
      builds=(G, C, dict(G, name="gcc20fast", san=False, opt=["-O2", "-ffast-math"], scale=0.5),
              dict(C, name="clang17fast", opt=["-O2", "-ffast-math"], scale=0.5)),
      technique="model-based testing of histories against exact 128-bit sums")
check("N05", "n05_constants.cpp",
      "every constant of every floating-point, integer and character type, and every constant of vectors of 1-5 components, "
      "matrices of eight shapes and quaternions of five scalar types; non-trivial = all",
      builds=(dict(G, opt=["-O0"]), dict(C, opt=["-O0"])),
      technique="exhaustive enumeration against values derived from the names, computed to 300 bits")
_v01 = ["v01_vector.cpp"] + ["v01_vector.cpp@PART=%d" % i for i in range(1, 7)]
check("V01", _v01,
      "vectors of 1, 2, 3, 4, 5 and 9 components of fourteen scalar types, corner-biased within the range where the scalar "
      "operation is defined, also aliased with themselves and their own components; non-trivial = the operands differ",
      builds=(dict(G, opt=["-O0"], defs=["LITE"]), C, dict(G, name="gcc20sanfull", thorough_only=True)),
      technique="differential testing of every operation against the scalar operation on each component")
check("V02", ["v02_geometry.cpp"] + ["v02_geometry.cpp@PART=%d" % i for i in range(1, 6)],
      "pairs of vectors of 1, 2, 3, 4 and 6 components of fourteen scalar types, with zeros, equal and nearly parallel pairs, "
      "integer vectors next to unit length; seed-derived vectors in constant evaluation; non-trivial = neither is zero",
      builds=(dict(G, opt=["-O0"], xflags=["-fconstexpr-ops-limit=2000000000"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="differential testing against quad-precision definitions, seed-derived constant evaluation")
check("X01", ["x01_matrix.cpp"] + ["x01_matrix.cpp@PART=%d" % i for i in range(1, 13)],
      "pairs of matrices of fourteen shapes and eleven scalar types with vectors, scalars and further factors; integer results "
      "compared exactly, floating-point ones within rounding of each entry; seed-derived matrices in constant evaluation; "
      "non-trivial = neither operand is zero",
      builds=(dict(G, opt=["-O0"], xflags=["-fconstexpr-ops-limit=2000000000"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="differential testing against textbook definitions in quad precision, seed-derived constant evaluation")
check("X02", ["x02_inverse.cpp"] + ["x02_inverse.cpp@PART=%d" % i for i in range(1, 6)],
      "square matrices of ten scalar types (small integers, singular, triangular, near the identity, random) and 3x3, 3x4 and 4x4 "
      "floating-point matrices (also near rotations); seed-derived matrices in constant evaluation; non-trivial = not singular",
      builds=(dict(G, opt=["-O0"], xflags=["-fconstexpr-ops-limit=2000000000"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="differential testing against Leibniz' formula, the adjugate and Gram-Schmidt in quad precision, with error bounds from the conditioning")
check("X03", ["x03_transform.cpp"] + ["x03_transform.cpp@PART=%d" % i for i in range(1, 8)],
      "scales, shifts, axes (also near the coordinate axes), angles (multiples of 45 degrees, next to right angles, any), Euler "
      "angles, facing directions, points and whole matrices for every shape that can hold the transform; non-trivial = the "
      "transform is not the identity / the point does not map to infinity",
      builds=(dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="differential testing against Rodrigues' formula and textbook matrices in quad precision, round trips")
check("X04", ["x04_projection.cpp", "x04_projection.cpp@PART=1"],
      "fields of view (multiples of 30 degrees, any up to 3 radians), screen sizes, near and far planes with ratios from 1.05 to "
      "20000, points in and around the frustum, in all four conventions; non-trivial = the screen is not square",
      builds=(dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="oracle: where the frustum's corners, centre lines and random points must land in the clip volume; metamorphic relations between overloads and depths")
check("Q01", ["q01_quaternion.cpp"] + ["q01_quaternion.cpp@PART=%d" % i for i in range(1, 5)],
      "arbitrary and unit quaternions (quarter turns, half turns, tiny angles, any), vectors, factors, interpolation parameters, "
      "pairs of directions of any length (equal, nearly equal, opposite, nearly opposite); non-trivial = not the identity",
      builds=(dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="differential testing against quaternion algebra and Rodrigues' formula in quad precision, metamorphic relations")
check("Q02", ["q02_conversions.cpp"] + ["q02_conversions.cpp@PART=%d" % i for i in range(1, 5)],
      "unit quaternions (quarter and half turns, tiny angles, negated, at and near gimbal lock), Euler angles over two turns, "
      "chains of up to eight conversions; non-trivial = not the identity / more than one kind of conversion",
      builds=(dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="round trips and conversion chains compared as rotations in quad precision; the documented order of Euler rotations")
check("P01", ["p01_packed.cpp"] + ["p01_packed.cpp@PART=%d" % i for i in range(1, 5)],
      "2D and 3D unit vectors (axes, diagonals, near-axis, on and half way between the storage grid, any) of every scalar type "
      "packed into every width, arbitrary bit patterns, all constants; non-trivial = at least two components are not zero",
      builds=(dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True)),
      technique="round trips against the exact octahedral projection in quad precision")
GEO = (dict(G, opt=["-O0"]), C, dict(G, name="gcc17o3", std="c++17", san=False, opt=["-O3"], thorough_only=True))
check("G01", ["g01_plane.cpp"] + ["g01_plane.cpp@PART=%d" % i for i in range(1, 4)],
      "planes (axis-aligned with simple coordinates, where every answer is exact, or in any direction), points on and off them, "
      "segments, boxes, rigid, scaled, sheared and mirrored transforms; non-trivial = not everything is zero",
      builds=GEO, technique="differential testing against the plane equation in quad precision, exact for simple coordinates")
check("G02", ["g02_segment.cpp"] + ["g02_segment.cpp@PART=%d" % i for i in range(1, 4)],
      "segments (simple coordinates, any, short, along an axis, of zero length) with points on the line, near and far, and with "
      "segments on the same line, parallel, in a common plane or anywhere; non-trivial = the segment is not a point",
      builds=GEO, technique="differential testing against the parametrised segment in quad precision, symmetry under reversal")
check("G03", ["g03_triangle.cpp"] + ["g03_triangle.cpp@PART=%d" % i for i in range(1, 4)],
      "triangles (simple coordinates, any, thin, with repeated vertices), points in, on the edges of, next to and off them, pairs of "
      "triangles sharing vertices or edges, coplanar, parallel, touching, piercing or anywhere, in all vertex orders; non-trivial = "
      "the triangles are not degenerate",
      builds=GEO, technique="differential testing against vertex geometry and a complete separating-axis decision in quad precision, exact for simple coordinates")
check("G04", ["g04_aabb.cpp"] + ["g04_aabb.cpp@PART=%d" % i for i in range(1, 4)],
      "axis-aligned boxes (simple coordinates, where touching is decided exactly, or any; flat ones too) with points on, in and next to "
      "them, and segments, triangles, spheres, planes, boxes and oriented boxes moved until they only just touch or miss; point sets, "
      "growing, transforms; non-trivial = per-case note in the harness (the box has a volume, the point is near the surface, or any pair)",
      builds=GEO, technique="differential testing against corner geometry and a complete separating-axis decision in quad precision, exact for simple coordinates")
check("G05", ["g05_sphere.cpp"] + ["g05_sphere.cpp@PART=%d" % i for i in range(1, 4)],
      "spheres (simple coordinates, where touching is decided exactly, or any) with points on and next to the surface, spheres touching "
      "from outside or inside, and triangles reached at a vertex, an edge or within; non-trivial = the radius is not zero",
      builds=GEO, technique="differential testing against distances in quad precision, exact for simple coordinates")
check("G06", ["g06_obb.cpp"] + ["g06_obb.cpp@PART=%d" % i for i in range(1, 4)],
      "oriented boxes (along the coordinate axes in any order and direction, where touching is decided exactly, or in any frame; flat "
      "ones too) with points on and next to them, spheres around those, triangles and other oriented boxes moved until they only just "
      "touch or miss, transforms; non-trivial = the box has a volume, the point is near the surface, or any pair",
      builds=GEO, technique="differential testing against corner geometry and a complete separating-axis decision in quad precision, exact for simple coordinates")
check("G07", ["g07_ray.cpp"] + ["g07_ray.cpp@PART=%d" % i for i in range(1, 4)],
      "rays (along an axis, in a coordinate plane, in any direction, towards, past or away from the shape, starting outside, on or "
      "within it) against planes, triangles, spheres and boxes; simple coordinates, where every answer is exact, or any; non-trivial = "
      "the ray is not parallel to the plane, or any",
      builds=GEO, technique="differential testing against the first intersection computed in quad precision, exact for simple coordinates")

_e01 = ["e01_traits.cpp@PART=%d" % i for i in range(4)] + ["e01_detect.cpp"]
check("E01", _e01,
      "84 types of every kind (arithmetic, enum, pointer, class, union, array, function...) with every combination of const, volatile "
      "and reference, every pair of 48 types for conversions, one type per operator, seed-derived lists of types, function types, "
      "lambdas and seed-derived argument lists; non-trivial = the list is not empty, or all",
      builds=(dict(G, opt=["-O0"], san=False), dict(C, opt=["-O0"], src=["e01_detect.cpp"]), dict(C, name="clang17all", opt=["-O0"], thorough_only=True)),
      technique="exhaustive enumeration and seed-derived type lists against independent descriptions of the types")
check("E02", ["e02_type_list.cpp@PART=%d" % i for i in range(4)],
      "lists of 0 to 130 types: every position of six lengths, seed-derived lists with repeated types and positions or ranges of "
      "them, nested lists; non-trivial = the list is not empty",
      builds=(dict(G, opt=["-O0"], san=False), dict(C, opt=["-O0"])),
      technique="differential testing of seed-derived lists against a model on std::tuple")
check("E03", ["e03_type_name.cpp@PART=%d" % i for i in range(4)],
      "seed-derived types, built up to four levels deep from named types by pointers, references, const and volatile, arrays of "
      "arrays, functions and templates of types and values, whose spelling is built along with them; non-trivial = any",
      builds=(dict(G, opt=["-O0"], san=False), dict(C, opt=["-O0"])),
      technique="generated types against their spelling by construction")
check("E04", ["e04_compile_time.cpp@PART=%d" % i for i in range(3)] + ["e04_build.cpp@MONTH=%d" % m for m in range(1, 13)],
      "seed-derived lengths, types and callables, flag values of every underlying type, containers of ten kinds, argument lists "
      "of 0 to 124, paths of random separators and a compilation date in each month; non-trivial = more than one element",
      builds=(dict(G, opt=["-O0"], san=False), dict(C, opt=["-O0"])),
      technique="generated uses against plain loops, integer arithmetic and the caller's position")

SCHED = dict(fw=("sched.cpp@nosan",))
TSAN = dict(C, name="clang17tsan", opt=["-O1"], san=["-fsanitize=thread"])
check("C01", ["c01_pool.cpp", "pool_lib.cpp"],
      "histories of up to 14 operations (create, enqueue 16 kinds of task, concurrent producers and waiters, filling the "
      "queues while all workers are blocked, moving, assigning, destroying) on two pools, run on a deterministic scheduler "
      "that interleaves all threads at every synchronisation operation (random walk or random priorities, early timeouts, "
      "spurious wakeups); non-trivial = more than one task and more than 20 context switches",
      builds=(dict(G, name="gcc20san"), TSAN), lib=("thread_name.cpp", "string_param.cpp"), **SCHED,
      technique="stateful testing under generated deterministic schedules, with a data race detector")
check("C02", ["c02_for_each.cpp@PART=%d" % i for i in range(4)] + ["pool_lib.cpp"],
      "up to three for_each() calls at once over ranges of eight integer and three enum types (empty, reversed, at the "
      "type's limits, fewer or more elements than workers) and four kinds of collection, with eleven kinds of callable, on "
      "pools of 1-5 workers and small queues, run on the deterministic scheduler; non-trivial = uneven batches and more "
      "than 20 context switches",
      builds=(dict(G, name="gcc20san"), TSAN), lib=("thread_name.cpp", "string_param.cpp"), **SCHED,
      technique="model-based testing under generated deterministic schedules, with a data race detector")
check("C03", ["c03_spin.cpp"],
      "2-5 threads with generated sequences of lock, try_lock, lock_guard, unique_lock, nested and multi-mutex locking of up "
      "to three mutexes; threads that try while the holder waits for them; producers and consumers; all run on the "
      "deterministic scheduler that interleaves at every atomic operation and pause; non-trivial = contended",
      builds=(dict(G, name="gcc20san"), TSAN), **SCHED,
      technique="stateful testing under generated deterministic schedules, with a data race detector")
check("S01", ["s01_print.cpp@PART=%d" % i for i in range(5)],
      "vectors and matrices of sixteen shapes and eighteen scalar types, packed unit vectors and nine rotation and geometry "
      "types of every floating-point type, values over the whole range, printed to narrow and wide streams in generated "
      "formatting states (flags, width, fill, precision, locale) and to streams that fail part way, also throwing; "
      "non-trivial = more than one component",
      builds=(dict(G, opt=["-O0"]), dict(C, opt=["-O0"])), lib=("vector_types_common.cpp",),
      technique="differential testing against the stream's own number formatting, and reading back what was printed")
