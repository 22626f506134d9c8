"""Per property: the stages (build variant, time budget in s) of each tier and
what its evidence counts."""

# seconds without progress on one case before the watchdog steps in
STALL = {"native": 90, "bare": 90, "deep": 150, "asan": 120, "tsan": 180, "miri": 600, "mpi": 60}

Q, T = 60, 600


def p(rule, quick=None, thorough=None):
    return {"rule": rule, "quick": quick or [("native", Q)], "thorough": thorough or [("deep", T), ("bare", 150)]}


# process counts, in order (more processes than cores from 9 up)
PROCESSES = {c: (4, 1, 7, 2, 3, 8, 5, 6, 11) for c in ("C16", "C17", "C18", "C19", "C23")}
PROCESSES["C20"] = (4, 1, 7, 2, 3, 8, 5, 6, 11, 9, 16, 13, 21)


def mpi(rule, quick=None):
    return {"rule": rule, "quick": quick or [("mpi", 120)], "thorough": [("mpi", T), ("mpibare", 150)]}


NT = " A case is non-trivial when an oracle compared at least one value; distinct ones differ in the listed signature."

PROPS = {
    "C01": p("Seeded vectors (12 styles) for every small size and landmark sizes, each through a random public route; signature: base, size, scalar, style, routes." + NT),
    "C02": p("Seeded vectors and coefficient vectors per base/size/scalar/route, and fields per space type; signature: base or space, size, scalar, style, routes." + NT),
    "C03": p("Arbitrary fields and coefficient vectors per composite base/size/scalar/route, and per space; signature: base or space, size, scalar, style, route, wall." + NT),
    "C04": p("Arbitrary coefficient and orthogonal vectors per composite base/size/scalar/route, plus all entries of the explicit matrices; signature: base, size, scalar, style, routes." + NT),
    "C05": p("Seeded coefficient vectors per base/size/scalar/number of derivatives/route, and known functions end to end; signature: base, size, derivative, scalar, style, route." + NT),
    "C06": p("Every entry of every matrix per base/size/scalar/derivative, and the matrix against the operator; signature: base, size, derivative, scalar." + NT),
    "C07": p("Each parallel call on random shapes under pools of 1, 2, 3 and 8 threads against the serial call, and a recording probe base; signature: operation, shape, axis, and for the probe the observed lane schedule." + NT),
    "C08": p("Each N-dimensional call on random shapes, layouts and dirty outputs against the slice form lane by lane, and a recording probe base; signature: operation, dimensions, axis, lanes." + NT),
    "C09": p("Each operation of random spaces (all type combinations) in all modes against one-dimensional operations axis by axis; signature: space, operation, derivative vector, scaling." + NT),
    "C10": p("Every slice operation with every combination of odd lengths, N-dimensional calls with odd shapes, degenerate sizes, under checked-unsafe, AddressSanitizer (and Miri, thorough); signature: operation, lengths or shapes." + NT,
             [("native", 40), ("asan", 80)], [("deep", 200), ("asan", 240), ("miri", 240)]),
    "C11": p("Threads share one base or space and call at random while an exclusive copy provides the expected bits; the same under ThreadSanitizer; signature: object, thread count and the observed global call order." + NT,
             [("native", 40), ("tsan", 60)], [("deep", 250), ("tsan", 350)]),
    "C12": p("Every grid point of every base, node function and space axis per size/scalar; signature: source, size." + NT),
    "C13": p("Pairs of seeded vectors and factors per operation/size/scalar; signature: operation, size, styles, factors." + NT),
    "C14": p("One wrong length, shape or axis at a time per operation/size/scalar, and right ones in between; signature: operation, lengths or shapes, axis." + NT,
             [("native", Q), ("bare", Q)]),
    "C15": p("Random call histories over an object, clones, rebuilt and noise objects with refused calls in between; results compared bit for bit; signature: object and the history." + NT),
    "C16": mpi("Decompositions of random sizes over 1..8 processes; every rank reports what it owns, the union is checked offline; signature: sizes, processes." + NT),
    "C17": mpi("Transposes of uniquely numbered cells over 1..8 processes, per-rank logs checked offline; signature: sizes, processes, direction, scalar." + NT),
    "C18": mpi("Collectives over uniquely numbered cells over 1..8 processes, per-rank logs checked offline; signature: sizes, processes, collective, root role." + NT),
    "C19": mpi("Distributed space operations against the same operation of the serial space; signature: space, processes, operation, mode." + NT),
    "C20": mpi("Scalar collectives of distinct values per rank; signature: processes, operation, value class." + NT),
    "C21": p("Pairs of arrays with entries off by clearly less or clearly more than the tolerance, non-finite entries, random shapes; signature: shape, which entry and part is off." + NT),
    "C23": mpi("Distributed calls with one wrong shape or role per rank, and a right call after each; signature: sizes, processes, call.",
               [("mpi", 120), ("mpibare", 120)]),
    "C22": p("Reported sizes, kinds and shapes per base/size/space against the arrays actually produced; signature: object, operation, shape." + NT),
}
