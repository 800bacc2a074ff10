COMMON_ASSUMPTIONS = [
    "Floating-point +,-,*,/ and sqrt of symbolic values are encoded over the exact reals (no rounding, overflow or NaN from symbolic data); comparisons on them are decided by Z3.",
    "BLAS/LAPACK, MPI, OpenMP runtime and C++ streams are replaced by contract models that also check the documented argument contracts; sample paths are replayed natively against the real libraries.",
    "The encoding is the clang 18 -O1 LLVM IR of /repo's headers as instantiated by the harness, regenerated on every run.",
]


def both(units, tu=None):
    """each unit for double and complex<double>"""
    r = []
    for u in units:
        a = dict(u)
        a["name"] = u["name"] + "_d"
        b = dict(u)
        b["name"] = u["name"] + "_z"
        b["defs"] = u.get("defs", []) + ["SXT=std::complex<double>"]
        r += [a, b]
    return r


def U(file, entry, name=None, **kw):
    d = {"file": file, "entry": entry, "name": name or entry}
    d.update(kw)
    return d


PROPS = {}
OT = {"merge_max": 1, "omp_threads": 2}
PROPS["C12"] = dict(
    units=both([U("C12.cpp", e, params=dict(OT, n=4), tparams={"n": 6, "mu": 2}, sample_kind="tsan", bounds=b + "; 2 threads, iterations dealt in every way of a family separating each pair of iterations in both orders") for e, b in (
        ("vector", "4x4 with every storage symmetry or 4x3, dense and low-rank blocks of rank 0-2"), ("row_major", "the same, 1 column"), ("scaling", "the same"),
        ("assembly", "4x4 general or symmetric or 4x3, blocks compressing with rank 0-2 or failing"))])
    + [U("C12.cpp", "compressors", params=dict(OT, n=4), tparams={"n": 6}, sample_kind="tsan", bounds="4x4 of fixed coefficients of rank one; partial, symmetric partial and full ACA; every dealing as above")],
    outside="more than two threads; larger matrices; generators or compressors of the user that are not thread-safe; loops with static schedules are dealt as the OpenMP runtime deals them",
    assumptions=["conflicting accesses of two iterations of one parallel region show up when those iterations run on different threads with nothing but the region's own critical sections between them (lockset check of every byte accessed)"])
PROPS["C13"] = dict(
    units=both([U("C13.cpp", e, params={"lo": 0, "hi": 2}, tparams={"hi": 3}, bounds="every dimension in 0..2, every flag, alpha and beta in {0,1,symbolic}, all entries symbolic", tbounds="every dimension in 0..3")
                for e in ("gemv", "gemm", "gemm_row_major", "symv", "symm", "symm_row_major", "elementwise")]),
    outside="dimensions above the bound; float coefficients; BLAS implementations that deviate from the reference contract")
PROPS["C01"] = dict(
    units=[U("C01.cpp", "tree", params={"n": 4, "p": 3, "merge_max": 1}, tparams={"n": 5, "p": 4}, bounds="n in 1..4 points with symbolic 1-D coordinates, 2-3 children, minimal size 0..2, both splitting strategies, 1-3 partitions (built or given)", tbounds="n in 1..5, up to 4 partitions"),
           U("C01.cpp", "bigger", params={"n": 18, "free": 1, "merge_max": 1}, tparams={"n": 20, "free": 2}, bounds="18 points, one of them anywhere, 2-4 children, minimal size 0..3, 1-6 partitions, both strategies; the tree is then moved")],
    outside="more points than the bound; the split direction is a fixed axis here (strategies are decided under C04)")
PROPS["C02"] = dict(
    units=[U("C02.cpp", "simple", params={"merge_max": 1, "n": 16, "p": 9}, tparams={"n": 40, "p": 16}, bounds="16 (or 7) points, one of them anywhere, 1-9 partitions, 2-5 children, minimal size 0..2, both strategies", tbounds="40 (or 7) points, 1-16 partitions"),
           U("C02.cpp", "given", params={"merge_max": 1, "n": 5, "p": 3}, tparams={"n": 6, "p": 4}, bounds="1-5 points anywhere on a line, every partition into 1-3 consecutive non-empty ranges, builder fresh or reused", tbounds="1-6 points, 1-4 ranges")],
    outside="empty ranges in a given partition; given ranges that are not in rank order; more points than the bound")
PROPS["C03"] = dict(
    units=[U("C03.cpp", "geometry", params={"n": 2, "n1": 3, "dim": 2}, tparams={"n": 3, "n1": 4, "dim": 3}, bounds="1-2 points in 1-2 dimensions (3 points on a line), coordinates, weights > 0 and radii >= 0 symbolic", tbounds="1-3 points in 1-3 dimensions (4 on a line)"),
           U("C03.cpp", "admissibility", bounds="any two balls in 1-3 dimensions, any eta > 0")],
    outside="more points than the bound; rounding of the centre and radius")
PROPS["C04"] = dict(
    units=[U("C04.cpp", "bounding_box", params={"n": 3, "merge_max": 1}, tparams={"n": 4}, bounds="1-3 points anywhere in 1-3 dimensions", tbounds="1-4 points"),
           U("C04.cpp", "ordering", params={"n1": 3, "n2": 2, "merge_max": 1}, tparams={"n1": 4, "n2": 3}, bounds="2-4 points on a line or 2-3 in the plane, all coordinates symbolic, 2-3 children, both splittings"),
           U("C04.cpp", "ordering_large", params={"n": 20, "free": 1, "merge_max": 1}, tparams={"n": 24, "free": 2}, bounds="20 points on a line, one anywhere, 2-4 children, both splittings"),
           U("C04.cpp", "principal2", bounds="every 2x2 covariance with variances >= 0.01 away from a multiple of the identity"),
           U("C04.cpp", "principal_pair", bounds="any two points of the plane at least 1 apart in a coordinate"),
           U("C04.cpp", "principal3_diagonal", bounds="every diagonal 3x3 covariance"),
           U("C04.cpp", "principal3_sets", bounds="6 concrete point sets x 2 weightings; optimality against every direction is decided by the solver")],
    outside="3-D principal axes of arbitrary covariances (trigonometric eigenvalue formula), (near-)multiple leading eigenvalues, where rounding decides the direction")
PROPS["C05"] = dict(
    units=both([U("C05.cpp", "renumbering", params={"merge_max": 1, "n": 4}, tparams={"n": 5}, bounds="1-4 points in any order, computed or given partition into 1-3 ranks, all vector entries symbolic, root / partition node / both entry points", tbounds="1-5 points")]),
    outside="more points than the bound")
PROPS["C06"] = dict(
    units=[U("C06.cpp", "round_trip", params={"merge_max": 1, "n": 5}, tparams={"n": 6}, bounds="1-5 points (one of them free on a line), 1-2 dimensions, 2-3 children, computed or given partition of 1-4 ranks; printed reals are compared as printed values"),
           U("C06.cpp", "manual", bounds="hand-built trees of depth 1-2 with 1-3 partition nodes, 1-3 dimensions, symbolic centres and radii")],
    outside="the decimal rounding of printed reals (the stream model keeps the value); other text locales")
PROPS["C24"] = dict(
    units=both([U("misc.cpp", "matrix_file", params={"n": 3}, tparams={"n": 5}, bounds="0..3 x 0..3 (thorough 0..5), every entry, owned or viewed source, five kinds of destination (empty, smaller, larger, view, empty with columns), file new or overwriting a longer one; reading again"),
        U("misc.cpp", "vector_file", params={"n": 4}, tparams={"n": 8}, bounds="1..4 (thorough 1..8) entries, destination empty or longer; missing file and uncreatable file report failure")])
    + [U("misc.cpp", "integer_file", bounds="1..3 entries, every int")],
    outside="larger contents; the operating system's files (in-memory model of the stream library; counterexamples are replayed with the real one); empty vectors")
PROPS["C25"] = dict(
    units=[U("C25.cpp", "square", params={"n": 5}, tparams={"n": 7}, bounds="5x5 (thorough 7x7), 2-3 children, 1-2 partitions, whole or one partition's rows; dense or low-rank blocks of rank 0-2 or failing compression, every storage symmetry"),
        U("C25.cpp", "rectangular", bounds="3-5 x 4, ranks as above, whole or one partition's rows"),
        U("C25.cpp", "part", bounds="children of the root of a 6x6 matrix"),
        U("C25.cpp", "huge", bounds="one rank-1 block of 66000x70000 or 70000x70000"),
        U("C25.cpp", "distributed", params={"P": 2}, tparams={"P": 3}, bounds="1-2 (thorough 1-3) simulated processes, square with every storage symmetry or rectangular, every process with its own structure and ranks")],
    outside="larger matrices; digits beyond those printed; timings' values; complex coefficients (statistics do not look at coefficients)")
PROPS["C26"] = dict(
    units=[U("misc.cpp", "logging", params={"steps": 2}, tparams={"steps": 3}, bounds="every history of 2 (thorough 3) changes of writer (two standard, one user-defined) and verbosity (every number 0..60 or named level), one message of every severity before, between and after")],
    outside="longer histories; concurrent logging")
PROPS["C27"] = dict(
    units=[U("misc.cpp", "strings", params={"n": 4}, tparams={"n": 6}, bounds="every string of 0..4 (thorough 0..6) bytes, every separator of 1..2 bytes"),
        U("misc.cpp", "joining", bounds="0..3 strings of 0..2 arbitrary bytes, every separator of 1..2 bytes"),
        U("misc.cpp", "numbers", params={"lim": 999}, tparams={"lim": 99999}, bounds="every int up to 999 in magnitude (thorough 99999) and the extreme ones")],
    outside="longer strings; printing of doubles")
PROPS["C29"] = dict(
    units=[U("misc.cpp", "tree", params={"steps": 4}, tparams={"steps": 5}, bounds="every history of 4 (thorough 5) operations: 1-2 children added at any node, children deleted, some children adopted back in another order, grandchild added, tree moved by construction or assignment; every node's relations, both traversals of the tree and its subtrees, memory")],
    outside="longer histories; adopting children of another depth or tree (the library only re-adopts its own children)")
PROPS["C31"] = dict(
    units=both([U("misc.cpp", "vectors", params={"n": 3}, tparams={"n": 6}, bounds="1..3 (thorough 1..6) entries, all free"),
        U("misc.cpp", "extremes", params={"n": 3}, tparams={"n": 4}, bounds="1..3 (thorough 1..4) entries, all free"),
        U("misc.cpp", "matrices", params={"n": 3}, tparams={"n": 4}, bounds="1..3 x 1..3 (thorough 1..4), all entries free")])
    + [U("misc.cpp", "printing", bounds="0..3 x 0..3 integer-valued entries of either sign, two delimiters; printed to a stream and saved to a file")],
    outside="larger sizes; rounding (exact arithmetic)")
NOT_APPLICABLE = {
    "C30": "The iterative method, the combination of the local solutions and the coarse correction are code of HPDDM, which is not installed and is not part of this repository: there is no code to encode. What htool contributes to it is decided by C32 (local solvers), C33 (coarse space) and C34 (the problem handed over, the answer returned).",
}
PROPS["C07"] = dict(
    units=[U("C07.cpp", "simple", params={"merge_max": 1, "budget": 2}, tparams={"budget": 5}, bounds="6 points, 2-3 children, 1-3 partitions, minimal depths 0-1, both consistency modes, every storage symmetry and rank restriction, free admissibility on 2 blocks (the others all or none), compression succeeding or failing", tbounds="free admissibility on 5 blocks"),
           U("C07.cpp", "given", params={"merge_max": 1, "n": 4, "budget": 1}, tparams={"n": 6, "budget": 3}, bounds="4 points, every partition into 1-3 ranges, otherwise as above", tbounds="6 points"),
           U("C07.cpp", "rectangular", params={"merge_max": 1, "budget": 1}, tparams={"m": 8, "budget": 4}, bounds="1-6 by 1-6 points, different trees, 1-2 partitions each, restricted to a rank or not", tbounds="1-8 points"),
           U("C07.cpp", "geometry", params={"merge_max": 1}, tparams={"free": 2}, bounds="4 points on a line, one anywhere, any eta in [1/8,16], the library's own admissibility condition"),
           U("C07.cpp", "arity", params={"merge_max": 1, "budget": 1}, tparams={"budget": 3}, bounds="8 x 8 points, 2-4 children per node and 3-4 partitions independently on each side, restricted to the last rank or not, both consistency modes"),
           U("C07.cpp", "wide", params={"merge_max": 1}, bounds="5-8 partitions of 2 points on both sides, every storage symmetry, first or last rank or no restriction; one tree object or two equal ones")],
    outside="more points than the bound")
PROPS["C08"] = dict(
    units=[U("C08.cpp", "square", params={"merge_max": 1, "budget": 1}, tparams={"budget": 4}, bounds="6 points, 1-3 partitions, whole matrix or one partition's rows, every storage symmetry, minimal depths 0-2, requested rank -1..2, free admissibility of 1 block (first or sixth visited; the others all or none), compression succeeding or failing per block or everywhere", tbounds="the same with 4 free blocks"),
           U("C08.cpp", "rectangular", params={"merge_max": 1, "budget": 1}, tparams={"budget": 4}, bounds="6 x 5 points, different arity, 1-2 partitions each; otherwise the same", tbounds="the same with 4 free blocks")],
    outside="more points than the bound")
PROPS["C09"] = dict(
    units=both([U("C09.cpp", "square", params={"merge_max": 1, "budget": 1}, tparams={"budget": 4}, bounds="4 points, 1-2 computed or given partitions, every storage symmetry, whole matrix or one partition's rows, free admissibility of 1 block, compression of rank 0, 1 or failing; coefficients given by a user generator, an internal generator or a dense-blocks generator; every coefficient free", tbounds="the same with 4 free blocks"),
           U("C09.cpp", "rectangular", params={"merge_max": 1, "budget": 1}, tparams={"budget": 4}, bounds="two trees, otherwise the same", tbounds="the same with 4 free blocks")]),
    outside="more points than the bound")

HB = "structures: one dense leaf, a hierarchy of dense leaves, disjoint blocks low rank, every block low rank, one low-rank leaf; compression ranks 0, 1, 2 or failure in turn; storage N / symmetric / hermitian, either triangle; every flag; (alpha,beta) in {(free,free),(1,0),(free,1),(0,free)}; all coefficients and operands symbolic"
PROPS["C10"] = dict(
    units=both([U("C10.cpp", "square", params={"merge_max": 1, "n": 4}, tparams={"n": 6}, bounds="4 points; " + HB, tbounds="6 points"),
                U("C10.cpp", "local", params={"merge_max": 1}, bounds="5 points, 2 processes, one process's rows"),
                U("C10.cpp", "rectangular", params={"merge_max": 1}, bounds="3 x 4 points, different trees, consistent or not; otherwise as for square"),
                U("C10.cpp", "user", params={"merge_max": 1}, bounds="4x4 and 3x4, through the local operator with both renumberings")]),
    outside="larger matrices; hermitian storage with real coefficients")
PROPS["C11"] = dict(
    units=both([U("C11.cpp", e, params={"merge_max": 1, "n": 4}, tparams={"n": 5, "mu": 3, "k": 3}, bounds=b + "; " + HB) for e, b in (("row_major_square", "4 points, 1-2 columns"), ("row_major_local", "5 points, 2 processes, one process's rows, 1-2 columns"), ("row_major_rectangular", "3 x 4 points, 1-2 columns"), ("left_square", "4 points, 2 columns"), ("left_rectangular", "3 x 4 points, 2 columns"), ("left_local", "5 points, 2 processes, one process's rows, 2 columns"), ("right_local", "5 points, 2 processes, one process's rows, 2 rows"), ("right_square", "4 points, 2 rows"), ("right_rectangular", "3 x 4 points, 2 rows"))]),
    outside="larger matrices; hermitian storage with real coefficients; low-rank destinations (C14)")
LB = "every flag; (alpha,beta) in {(free,free),(1,0),(free,1),(0,free)}; all entries symbolic"
PROPS["C14"] = dict(
    units=both([U("C14.cpp", e, params={"dim": d, "rank": 2, "coefs": 3}, tparams={"dim": 3, "rank": 3, "coefs": 4}, bounds="dimensions 1..%d, ranks 0..2; %s" % (d, LB)) for e, d in (("vector", 3), ("row_major", 2), ("lr_dense", 2), ("dense_lr", 2))]
               + [U("C14.cpp", "lr_lr", params={"dim": 2, "rank": 1, "coefs": 3}, tparams={"rank": 2, "coefs": 4}, bounds="dimensions 1..2, ranks 0..1; " + LB)]
               + [U("C14.cpp", e, params={"dim": 2, "rank": 1, "svd_free": 1}, bounds="dimensions 1..2, ranks 0..1, destination new or of rank 0..1") for e in ("lr_dense_to_lr", "dense_lr_to_lr", "lr_lr_to_lr", "dense_dense_to_lr")]),
    outside="larger shapes; truncating tolerances (C15, C16 decide what truncation may drop)")
HL = "H-matrix 3x3 (general or symmetric storage) or 2x3, the other operand of rank 0..1 or dense with 2 rows/columns; destination dense, low rank (new or of rank 0..1), or a 3x3 H-matrix with low-rank leaves"
PROPS["C14"]["units"] += both([U("C14.cpp", e, params={"rank": 1, "svd_free": 1, "merge_max": 1}, tparams={"k": -3, "rank": 2}, bounds=HL) for e in ("h_lr", "lr_h", "h_lr_to_lr", "lr_h_to_lr", "h_dense_to_lr", "dense_h_to_lr", "h_lr_to_h", "lr_h_to_h")])
PROPS["C15"] = dict(
    units=both([U("C15.cpp", "recompress_exact", params={"svd_free": 1, "hi": 3, "rank": 3}, tparams={"hi": 4, "rank": 4}, bounds="dimensions 1..3, rank 0..3 (above and below the dimensions), tolerance 0, both overloads"),
                U("C15.cpp", "recompress_tolerance", params={"qr_tri": 1}, must_reach=["dropped", "kept"], bounds="2..3 by 2..3, rank 2 with orthogonal factors, any singular values and any tolerance in [0,2] away from ties"),
                U("C15.cpp", "sum", params={"svd_free": 1, "merge_max": 1, "rank": 1}, tparams={"rank": 2}, bounds="3x3 and 3x4, every pair of root/child blocks (inside, around, equal, unrelated), ranks 0..1, tolerance 0"),
                U("C15.cpp", "sum_tolerance", params={"qr_tri": 1}, must_reach=["dropped", "kept"], bounds="2x2, ranks 1+1, any values, any tolerance in [0,2] away from ties"),
                U("C15.cpp", "to_h_square", params={"svd_free": 1, "merge_max": 1, "n": 4}, tparams={"n": 5}, bounds="4x4 H-matrices, every structure and storage, ranks 0..2, tolerance 0"),
                U("C15.cpp", "to_h_rectangular", params={"svd_free": 1, "merge_max": 1}, bounds="3x4 H-matrices, ranks 0..2, tolerance 0")]),
    outside="larger shapes; truncation error of general (non-orthogonal) factors, for which the library relies on LAPACK's QR and SVD")
PROPS["C16"] = dict(
    units=both([U("C16.cpp", "truncation", params={"hi": 3}, must_reach=["dropped", "kept"], bounds="1..3 by 1..3, orthonormal factors from 3 families, any decreasing singular values (zero and repeated ones included, largest in (0.01,100)), tolerance 0 or any in [0.001,2] away from exact ties", tparams={"hi": 4}, tbounds="1..4 by 1..4"),
                U("C16.cpp", "compressor", params={"hi": 3, "merge_max": 1}, must_reach=["failed", "dropped", "kept"], bounds="blocks of 1..3 by 1..3 inside a matrix twice as large, any requested rank -1..3, distinct singular values, tolerance 0 or 0.25", tparams={"tolerances": 3})]),
    outside="the zero block (its relative error is undefined; the library keeps every term); accuracy of LAPACK's singular value decomposition")
AB = {"small": "1..2 by 1..2, every coefficient free (full pivoting or complex: one free coefficient)", "exact": "4x4 blocks of exact rank 1 or 2 with a free parameter", "block": "4x4 blocks with one free coefficient at four places", "zeros": "2x2 and 4x4 diagonal blocks, zero rows and columns included"}
PROPS["C17"] = dict(
    units=both([U("C17.cpp", a + "_" + f, params={"merge_max": 1}, tparams={"hi": 3, "tolerances": 4, "ranks": 4}, bounds=AB[f] + "; requested rank -1, 1 or 2, tolerance 0.5 or 0.01; coefficients zero or of modulus in (1e-3,1e2)") for a in ("full", "partial", "sym") for f in ("small", "exact", "block", "zeros")]),
    outside="residuals between zero and the 1e-15 pivot threshold; larger blocks")
PROPS["C18"] = dict(
    units=both([U("C18.cpp", e, params={"svd_free": 1, "merge_max": 1, "cycles": 1}, tparams={"cycles": 3}, bounds="clusters of 3 and 2 points (or one of 3); operands: dense hierarchy, low-rank blocks, one low-rank or dense leaf; compression ranks 0, 1 or failure in turn; every transposition; alpha free, beta in {1, free, 0}") for e in ("to_dense", "to_lr", "to_h")]
               + [U("C18.cpp", e, params={"svd_free": 1, "merge_max": 1}, bounds="5 points, 2-4 partitions, the whole matrix, one process's rows or one diagonal part") for e in ("parted_to_dense", "parted_to_lr", "parted_to_h")]),
    outside="truncating tolerances (C15); operands with symmetric storage, which these products do not support; larger matrices")
PROPS["C19"] = dict(
    units=both([U("C19.cpp", "dense", params={}, tparams={"order": 5}, bounds="orders 0..3, 0..2 right-hand sides, every side, triangle, transposition, diagonal, any pivots, alpha 1 or free; non-zero diagonal", tbounds="orders 0..4")]
               + [U("C19.cpp", e, params={"svd_free": 1, "merge_max": 1, "cycles": 1, "rhs_structures": 2, "alphas": 0}, tparams={"cycles": 3, "rhs_structures": 4, "alphas": 1}, bounds="3 points in single leaves, 4 points in (pivoted) leaves of two, one leaf; general or symmetric storage; dense or low-rank (rank 0, 1, failed) off-diagonal blocks; every flag; alpha 1 or free; right-hand sides " + b) for e, b in (("h_dense", "dense, 1-2"), ("h_lr", "of rank 0-1"), ("h_h", "hierarchical"))]
               + [U("C19.cpp", e, params={"svd_free": 1, "merge_max": 1, "alphas": 0}, tparams={"alphas": 1}, bounds="4 points on 2-4 partitions") for e in ("parted_dense", "parted_h")]),
    outside="zero pivots; larger systems; truncating tolerances (C15)")
PROPS["C20"] = dict(
    units=both([U("C20.cpp", e, params={}, tparams={"free": 6}, bounds="orders 0..3, 0..2 right-hand sides, every transposition or triangle, any non-zero pivots; real: every entry free, complex of order 3: one free entry") for e in ("lu", "cholesky")]
               + [U("C20.cpp", e, params={"svd_free": 1, "merge_max": 1}, tparams={"free": 4}, bounds="3 points, 4 points in leaves of two, one process's cluster of 2 or 3 points; dense or low-rank (rank 0, 1, failed) off-diagonal blocks; general or symmetric storage; entries as for the dense units; right-hand sides in user numbering") for e in ("h_lu", "h_cholesky")]
               + [U("C20.cpp", e, params={"svd_free": 1, "merge_max": 1}, tparams={"free": 4}, bounds="3-4 points on 2-4 partitions, two or three children per node") for e in ("parted_lu", "parted_cholesky")]),
    outside="matrices on which a pivot vanishes; larger systems; truncating tolerances (C15)")
PROPS["C32"] = dict(
    units=both([U("C32.cpp", "dense", params={}, bounds="orders 1 to 3, every entry free (complex of order 3: one free entry); one or two solves of 0 to 2 columns with either signature"),
                U("C32.cpp", "hmat", params={"svd_free": 1, "merge_max": 1}, bounds="3 points in one tree or one process's cluster of 2 or 3 points; dense or low-rank (rank 0, 1, failed) off-diagonal blocks; general or symmetric/hermitian storage of either triangle; caller's or internal numbering; two solves of 0 to 2 columns with either signature"),
                U("C32.cpp", "overlap", params={"svd_free": 1, "merge_max": 1, "solves": 1}, tparams={"solves": 2}, bounds="local H-matrices as above on 2 or 3 points extended by 0 to 2 overlap points; general or symmetric/hermitian storage of either triangle; a solve of 1 or 2 columns (thorough: two of 0 to 2) with either signature; right-hand sides free, one free entry in one of the blocks at a time (complex: the last pivot), the others fixed generic numbers")]),
    outside="matrices on which a pivot vanishes; complex symmetric (not hermitian) local matrices, for which the library says it uses the hermitian factorisation; larger systems; truncating tolerances (C15)")
PROPS["C33"] = dict(
    units=both([U("C33.cpp", "space", params={}, bounds="local pencils of order 1 to 3, 0 to 2 of them overlap points, given with or without the overlap, general or symmetric/hermitian of either triangle; every entry, eigenvector and threshold free, spectra: symmetric and real general ones free (finite or one infinite eigenvalue), complex general ones a few fixed moduli in every order; 0 to n vectors or a threshold"),
                U("C33.cpp", "space_h", params={"svd_free": 1, "merge_max": 1}, bounds="the same with a local H-matrix of 2 or 3 points: one tree, one process's cluster, or a matrix that covers the overlap"),
                U("C33.cpp", "coarse", params={}, tparams={}, bounds="1 to 3 processes (simulated MPI), 5 points, general or symmetric storage of either triangle, 0 to 2 coarse vectors per process, every entry free")]),
    outside="eigenvalues of equal modulus; the eigenvalue solver itself (LAPACK, modelled from its documentation: any answer); complex conjugate pairs of real general pencils; hermitian coarse operators; larger sizes")
PROPS["C34"] = dict(
    units=both([U("C34.cpp", e, params={"svd_sorted": 1, "pivot": 0}, bounds="1 to 3 processes (simulated MPI), 5 points, bisected or given (uneven) partition, up to 2 overlap points, 1 to 2 right-hand sides, general and symmetric/hermitian storage (lower); " + b) for e, b in (
        ("dense", "dense local solvers: without overlap, overlap added to a diagonal block, local H-matrix built with overlap; right-hand sides, products and solutions free, fixed well-conditioned matrix"),
        ("hier", "same for the hierarchical local solvers, which are factorised and applied to a free right-hand side"),
        ("levels", "a second level given by free coarse vectors (0 to 2 per process) and a free coarse operator; every preconditioner choice (default, RAS, ASM, none); dense local solvers"))]),
    outside="what HPDDM does with these (the Krylov iteration, the combination of the local solutions): HPDDM is not installed; it is modelled from its documented interface")
PROPS["C28"] = dict(
    units=both([U("C28.cpp", e, params={"svd_free": 1, "merge_max": 1}, bounds=b) for e, b in (
        ("forward", "local operators on 5 points of 2 given partitions: whole matrix, a diagonal block, an off-diagonal block, the block of another tree; dense or hierarchical storage; general, symmetric and hermitian storage of either triangle; every renumbering flag; alpha and beta free or 1; vector and 1 to 2 columns; every entry and input free"),
        ("transposed", "same for the transposed products"),
        ("restricted", "same for the product restricted to a column range: every range inside, overlapping or outside the operator's columns"))]),
    outside="larger operators and more columns (same loops and offsets); the transposed product of a hermitian H-matrix, which the library reports as unsupported (an error has to be logged)")
_dist = "1 to 3 processes (simulated MPI, all ranks executed); 5x5 or 5x4 operators on contiguous (given) or bisected partitions, one of them with an uneven split; general, symmetric and hermitian storage of either triangle; operators: library default builder, H-matrix with low-rank blocks, one dense operator per column block, the sum of two operators, library diagonal block plus local H-matrices; vectors and 1 to 2 columns; renumbering on or off; every entry and input free"
PROPS["C21"] = dict(
    units=both([U("C21.cpp", "global", params={}, tparams={"processes": 4, "columns": 3}, bounds=_dist), U("C21.cpp", "half", params={}, tparams={"processes": 4, "columns": 3}, bounds=_dist + "; building blocks with one gathered side (internal numbering), gather of slices, product restricted to one partition's columns")]),
    outside="more processes, larger partitions; ranks are executed one at a time between MPI calls (no shared memory between ranks exists in the code); MPI itself is modelled from the standard; internal transposed building block of hermitian operators (reported as unsupported)")
PROPS["C22"] = dict(
    units=both([U("C21.cpp", "local", params={}, tparams={"processes": 4, "columns": 3}, bounds=_dist.replace(" or bisected", "") + "; caller's or internal numbering, caller's or library workspace")]),
    outside="more processes, larger partitions; renumberings that move points between processes (documented as unsupported by the library); MPI itself is modelled from the standard")
_hist = "two objects, every history of %s"
PROPS["C23"] = dict(
    units=[dict(u, params=dict(u["params"], steps=2)) if u["name"] in ("dense_z", "lowrank_d", "lowrank_z") else u for u in both([
        U("C23.cpp", "dense", params={"steps": 3}, tparams={"steps": 3}, bounds=_hist % "3 operations (double; 2 in the quick check for complex) out of copy/move construction and assignment (self-assignment included), resize, view of a caller's buffer, taking over memory, release, writing one or all entries, new (possibly empty) matrix; sizes 0x2 to 2x2; every entry free; contents, viewed buffers and memory (leaks, double frees) followed"),
        U("C23.cpp", "lowrank", params={"steps": 3}, tparams={"steps": 3}, bounds=_hist % "2 (thorough: 3) operations out of copy construction, copy/self/move assignment, writing a factor; 2x2 and 2x1 blocks of rank 0 to 2; every entry free"),
        U("C23.cpp", "hier", params={"steps": 2}, tparams={"steps": 3}, bounds=_hist % "2 (thorough: 3) operations out of copy/move construction and assignment, scaling the contents, changing a parameter, then destruction in either order, for five kinds of H-matrices (symmetric or hermitian hierarchy, hierarchy with low-rank blocks, dense leaf, low-rank leaf, rows of one partition of two); structure, attributes, represented matrix, tree parameters seen from every node, product with a free vector")])],
    outside="longer histories, more objects, larger matrices")
