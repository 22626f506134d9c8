#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public calls of the crate"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


ORTHO, COMPO, STEN = "src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/chebyshev/stencils.rs"
R2C, C2C, TR, MAC = "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/traits.rs", "src/internal_macros.rs"
LIN = ["src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs"]
SP = ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs", "src/space/traits.rs"]
D2, DIST = "src/space_mpi/decomp2d/mod.rs", "src/space_mpi/decomp2d/distribute.rs"
S2M = "src/space_mpi/space2.rs"

prop("C01", "Transforms give the exact spectral coefficients and physical values",
     "For every orthogonal base and size, transforming values on the grid to coefficients yields the coefficients of the unique interpolant (Chebyshev polynomials, complex exponentials with the documented scaling), and transforming coefficients yields the values of that expansion at the reported grid points. This holds up to rounding, for single and double precision and through every public route (slice, N-dimensional, allocating, in place, parallel).",
     ["inputs", "configurations"], "all sizes n >= 2 (Chebyshev) or n >= 1 (Fourier), all finite inputs, f32 and f64, all routes",
     "The tests transform one or two fixed vectors of a handful of sizes in double precision and compare round trips or a few numbers; odd sizes, primes, large sizes and most routes are never compared with an independent transform.",
     [ORTHO, R2C, C2C, TR, MAC], [("DCT-I with end-point scaling and sign flips", ORTHO + " forward_slice/backward_slice"), ("FFT with normalisation", R2C + ", " + C2C + " forward_slice/backward_slice")])
prop("C02", "Backward and forward transforms are inverse to each other",
     "Transforming admissible coefficients to values and back returns the coefficients, and transforming values of functions in the base forward and back returns the values, for every base and for spaces in one, two and three dimensions. For bases with boundary conditions the forward-backward map is a projection: applying it twice changes nothing.",
     ["inputs", "configurations"], "all bases and combinations, all sizes, all finite inputs, f32 and f64",
     "Tests round-trip a few fixed vectors on even sizes; odd lengths, the highest Fourier mode, three dimensions and mixed bases are not covered.",
     [ORTHO, COMPO, R2C, C2C] + SP, [("paired scaling in forward and backward", "forward_slice/backward_slice of each base"), ("stencil solve and product", STEN)])
prop("C03", "Fields from composite bases satisfy their boundary conditions",
     "Whatever coefficients or physical values a user supplies, the field represented by a composite base satisfies that base's boundary conditions (value, first or second derivative at the named walls) up to rounding. This holds for single bases and along the corresponding walls of spaces in several dimensions.",
     ["inputs", "configurations"], "all five composite bases, all admissible sizes, arbitrary coefficient vectors and fields",
     "Tests compare a few transformed vectors with stored numbers and never evaluate the boundary conditions; sizes near the minimum are not exercised.",
     [COMPO, STEN, "src/chebyshev/stencils/helpers.rs"], [("stencil coefficients", STEN + " *::new"), ("stencil product", "src/chebyshev/stencils/helpers.rs")])
prop("C04", "Composite projection: from-orthogonal is the left inverse of to-orthogonal",
     "Converting composite coefficients to orthogonal ones is multiplication by the stencil matrix the base reports, and converting back returns the original composite coefficients; for arbitrary orthogonal coefficients the result is the documented projection, the same one the forward transform uses. The explicit stencil and inverse matrices describe exactly these operations.",
     ["inputs", "configurations"], "all composite bases and admissible sizes, real and complex coefficient vectors, arbitrary orthogonal vectors, f32 and f64",
     "Tests check three fixed vectors of size 5 to 14 and inverse matrices of three bases at one size; other sizes select other paths in the banded solvers (parity, tails).",
     [COMPO, STEN, "src/chebyshev/stencils/helpers.rs"] + LIN, [("normal equations solved with banded elimination", STEN + " solve_inplace"), ("banded solvers", "src/chebyshev/linalg/")])
prop("C05", "Differentiation returns the coefficients of the exact derivative",
     "Differentiating coefficients any number of times gives the coefficients of the exact derivative of the represented function, for every base, real or complex coefficients, and every number of derivatives including zero. For composite bases the result is expressed in the orthogonal base.",
     ["inputs", "configurations"], "all bases, sizes, numbers of derivatives, coefficient vectors",
     "Tests differentiate a couple of fixed vectors once or twice; odd and tiny sizes, the highest mode, higher derivatives and complex coefficients are not covered (several were wrong).",
     [ORTHO, COMPO, R2C, C2C], [("Chebyshev recurrence", ORTHO + " gradient_slice"), ("wavenumber multiplication", R2C + ", " + C2C + " gradient_slice")])
prop("C06", "Differentiation matrices agree with the operator and their pseudoinverses",
     "The explicit differentiation and Laplacian matrices of a base map any coefficient vector to the same result as the differentiation operator. Their pseudoinverses multiply with them to exactly the partial identity the base reports.",
     ["inputs", "configurations"], "all bases and sizes, derivatives 1 to 4",
     "One test checks the pseudoinverse product for a single size and derivatives 1 and 2; other sizes and derivatives 3 and 4 (which over- or underflowed) are not reached.",
     [ORTHO, COMPO, R2C, C2C], [("closed-form matrices", ORTHO + " _dmat/_pinv/_pinv_eye"), ("diagonal matrices", R2C + ", " + C2C + " diffmat/laplacian")])
prop("C07", "Parallel calls equal serial calls",
     "Every parallel variant of an operation gives the same result as its serial counterpart, for any shape, axis, memory content of the output and any number of worker threads. Every lane is processed exactly once with its own input and output.",
     ["inputs", "schedules", "configurations"], "all operations, shapes with any number of lanes, axes, thread-pool sizes 1 to many, all schedules",
     "No test compares parallel with serial calls on more than a trivial shape, and none looks at which lanes ran how often or under different thread counts.",
     [TR, MAC] + SP, [("lane-wise parallel iteration", TR + " *_par"), ("enum dispatch of parallel calls", MAC)],
     observe=["a recording base implementing the crate's traits sees every lane call", "public calls of the crate"])
prop("C08", "N-dimensional calls act lane by lane, touch nothing else, overwrite outputs",
     "An operation along an axis of an N-dimensional array gives, in each lane, precisely what the one-dimensional operation gives for that lane, independent of other lanes, memory layout and previous content of the output. The input array and anything outside the output view stay untouched.",
     ["inputs", "configurations"], "all operations, one to four dimensions, all axes, shapes including empty ones and views into larger arrays, dirty outputs",
     "Tests use one or two small two-dimensional arrays with zeroed outputs; other axes, layouts, dimensions and dirty outputs are not covered.",
     [TR, MAC], [("provided N-dimensional drivers", TR), ("axis checks", "src/utils.rs check_array_axis")],
     observe=["a recording base implementing the crate's traits sees every lane call", "public calls of the crate"])
prop("C09", "A space is the tensor product of its bases",
     "Every operation of a one-, two- or three-dimensional space equals the corresponding one-dimensional operations of its bases applied axis by axis, with mixed derivatives and optional rescaling per axis, in all call variants. Per-axis information (coordinates, matrices, kinds) is that of the base of the axis asked for.",
     ["inputs", "configurations"], "all admissible combinations of base types and sizes in one to three dimensions, all derivative vectors and scalings, allocating/in place/serial/parallel",
     "Tests build a few two-dimensional spaces with two derivative vectors; three-dimensional derivatives (one was wrong), scaling and mixed kinds are not compared with anything.",
     SP, [("axis-by-axis composition", "src/space/space1.rs, space2.rs, space3.rs macros")])
prop("C10", "No call reads or writes outside the memory it was given",
     "Whatever lengths, shapes and sizes a caller passes to the safe interface, every memory access stays inside the arrays passed and the buffers allocated; a call that cannot be served is refused by panicking instead.",
     ["inputs"], "all operations, all combinations of slice lengths and array shapes, all sizes including degenerate ones",
     "The code skips bounds checks in its inner loops; an out-of-range access there silently returns a number, so that no assertion of a test sees it, and tests only use matching lengths.",
     [STEN, "src/chebyshev/stencils/helpers.rs", ORTHO, R2C, C2C] + LIN, [("get_unchecked in solvers and products", "src/chebyshev/linalg/, src/chebyshev/stencils/helpers.rs"), ("length checks before unchecked access", STEN)],
     observe=["AddressSanitizer, checked-unsafe debug build, Miri"])
prop("C11", "Bases and spaces can be shared between threads",
     "Any number of threads may call the same base or space at the same time: no data race occurs and every call returns what it would return alone.",
     ["schedules", "histories"], "all interleavings of calls of up to a dozen threads on one shared object and its clones",
     "No test uses an object from more than one thread; planner and scratch state hidden in the transform plans could be shared by mistake without any test noticing.",
     [ORTHO, R2C, C2C, COMPO, TR] + SP, [("immutable plans behind Arc", ORTHO + ", " + R2C + ", " + C2C + " struct fields"), ("per-call scratch buffers", "forward_slice/backward_slice")],
     observe=["ThreadSanitizer on rebuilt standard library, per-call result comparison"])
prop("C12", "Grid coordinates are the documented nodes",
     "The reported coordinates are exactly n points: Chebyshev-Gauss-Lobatto points in increasing order from -1 to 1, or equidistant points from 0 to just below 2 pi, accurate to rounding. Spaces report, for each axis, those of the base of this axis.",
     ["inputs", "configurations"], "all bases, sizes, single and double precision",
     "No test looks at coordinates beyond using them; accumulated rounding produced one point too many for certain sizes.",
     [ORTHO, R2C, C2C] + SP, [("node formulas", ORTHO + " nodes, " + R2C + "/" + C2C + " nodes")])
prop("C13", "All operations are linear and treat real and imaginary parts alike",
     "Transforms, differentiation and base conversions are linear in their input up to rounding. Applied to complex coefficients of a real base they act on real and imaginary parts separately.",
     ["inputs"], "all operations, all pairs of vectors and factors, including widely different magnitudes",
     "Linearity relates several executions; tests look at single ones, and complex coefficients of Chebyshev bases are hardly exercised.",
     [ORTHO, COMPO, R2C, C2C] + LIN, [("element-generic kernels", "slice functions generic over the element type")])
prop("C14", "Arguments of the wrong size are refused",
     "A call with an array whose size along the transformed axis, shape across it, or axis number does not fit is refused with a panic and never returns a result. Calls with fitting arguments are never refused, also directly after a refused one.",
     ["inputs", "histories"], "all operations, one wrong length, shape or axis at a time, before and after valid calls",
     "Tests pass only fitting arguments.",
     [TR, "src/utils.rs", STEN, ORTHO, R2C, C2C], [("check_array_axis", "src/utils.rs"), ("length assertions", "slice functions of each base")])
prop("C15", "Results depend on the arguments only, not on history or identity",
     "The same call gives bit-identical results at any time: on the object itself, on its clones, on a newly built equal object, after any sequence of other calls (including refused ones) on it or on other objects.",
     ["histories"], "all sequences of calls on an object, its clones and other objects of equal or different size",
     "Tests construct an object, call it once and stop; state carried between calls or caches shared between objects would go unnoticed.",
     [ORTHO, R2C, C2C, COMPO, TR] + SP, [("no interior state; scratch per call", "slice functions of each base"), ("cloning shares immutable plans only", "derive(Clone) on bases and spaces")])
prop("C16", "The decomposition is a balanced partition, the same for every process",
     "For any global shape with at least one cell per process, the pieces assigned to the processes cover the array exactly once, are contiguous in process order, whole along the contiguous axis, and differ by at most one in size. All processes compute the same table, and what one plans to send is what the other plans to receive.",
     ["inputs", "configurations"], "all global shapes and process counts with at least one cell per process, both orientations",
     "The distributed code has no tests that run under several processes.",
     [DIST, D2, "src/space_mpi/decomp_handler.rs"], [("distribute", DIST), ("counts and displacements", DIST + " get_counts_*"), ("lookup by global shape", "src/space_mpi/decomp_handler.rs")],
     observe=["per-process logs merged offline"])
prop("C17", "Distributed transposition moves every cell exactly once to its new owner",
     "Redistributing an array between the two orientations delivers every cell exactly once, unchanged, to the process owning it afterwards, and redistributing back restores the original. Sources stay unchanged and all of the target is overwritten, for every element type and memory layout.",
     ["inputs", "configurations", "schedules"], "1 to 8 processes arriving in any order, all shapes, remainders, element types, memory layouts, sequences over several decompositions",
     "The distributed code has no tests that run under several processes.",
     [D2, DIST, S2M], [("split/merge around all-to-all", D2 + " transpose_x_to_y, transpose_y_to_x")],
     observe=["per-process logs of uniquely numbered cells, merged offline"])
prop("C18", "Scatter, gather and all-gather lose, duplicate and misplace nothing",
     "Gathering assembles on the root (or on all processes) the array in which each cell has the value its owner held; scattering delivers to each process exactly the cells it owns. Allocating and in-place variants may be mixed between processes, any sequence of such calls over several arrays stays in step, and sources stay unchanged.",
     ["inputs", "configurations", "schedules", "histories"], "1 to 8 processes arriving in any order, all shapes, both orientations, element types, memory layouts, sequences of calls",
     "The distributed code has no tests that run under several processes.",
     [D2, DIST, S2M], [("gather/scatter with counts and displacements", D2), ("space wrappers choosing the decomposition", S2M)],
     observe=["per-process logs of uniquely numbered cells, merged offline"])
prop("C19", "A distributed space computes what the serial space computes",
     "Transforms, base conversions and gradients of a distributed two-dimensional space, assembled over all processes, equal those of the serial space on the assembled input, for every process count, base combination and call variant. Shapes, arrays and per-axis information it reports are consistent with the pieces the process owns.",
     ["inputs", "configurations", "schedules"], "1 to 8 processes, all admissible base combinations and sizes, arbitrary fields, derivatives and scalings",
     "The distributed code has no tests that run under several processes; one example uses one combination without composite bases of different kind.",
     [S2M, "src/space_mpi/traits.rs", "src/space_mpi/decomp_handler.rs"], [("axis operation, transposition, axis operation", S2M), ("intermediate decompositions by shape", S2M + " new")],
     observe=["per-process logs merged offline, serial reference"])
prop("C20", "Scalar collectives deliver the root's value or the sum over all processes",
     "Broadcasting leaves every process with the value the root had. Summing gives the sum over all processes of the values passed - on the root only, or on all processes - with every process counted once and nothing else modified.",
     ["inputs", "configurations", "schedules"], "1 to 8 processes arriving in any order, any values and element types, any sequence of calls",
     "The distributed code has no tests that run under several processes.",
     ["src/space_mpi/decomp2d/functions.rs"], [("broadcast_into, gather_into, all_gather_into", "src/space_mpi/decomp2d/functions.rs")],
     observe=["per-process logs merged offline"])
prop("C21", "Comparison and resizing helpers decide correctly",
     "The approximate comparison helpers accept arrays whose corresponding entries agree within the tolerance and refuse any pair of which one entry (real or imaginary part, anywhere) differs clearly or is not comparable. The array helpers produce or accept exactly the shape with one axis changed.",
     ["inputs"], "all shapes and entries including non-finite ones, any position of the deviation",
     "The helpers are the oracle of the crate's own tests and are themselves untested; one of them accepted wrong imaginary parts.",
     ["src/utils.rs"], [("approx_eq*, array_resized_axis, check_array_axis", "src/utils.rs")])
prop("C22", "Reported sizes and kinds describe the arrays actually produced",
     "Physical, spectral and orthogonal lengths, shapes and kinds reported by a base or space are those documented for it, and every operation consumes and produces arrays of exactly these shapes.",
     ["inputs", "configurations"], "all bases, spaces and sizes",
     "Tests use a few sizes and never compare reported sizes with produced arrays.",
     [ORTHO, COMPO, R2C, C2C, "src/enums.rs", MAC] + SP, [("len_phys/len_spec/len_orth, base_kind, transform_kind", "impl blocks of each base"), ("shape_* of spaces", "src/space/")])
prop("C23", "Distributed calls with misfitting arrays or roles are refused, in step",
     "A distributed call given an array that is not the caller's piece (or not the global array where one is required), or made in the wrong role, is refused on the process making it. If all processes are refused, no message is left behind and following calls work.",
     ["inputs", "configurations", "histories"], "1 to 8 processes, all distributed calls, any wrong shape per process",
     "The distributed code has no tests that run under several processes.",
     [D2, S2M, DIST], [("check_shape", D2), ("role checks", D2 + " gather_*/scatter_*")],
     observe=["per-process logs merged offline"])

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
