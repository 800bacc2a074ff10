#include "hmat.hpp"
#include <htool/hmatrix/linalg/add_hmatrix_vector_product.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
using namespace htool;
typedef SXT T;
static void run(const sxh::Shape &o) {
    auto log = sxc::quiet();
    auto b = sxh::build_hmatrix<T>(o);
    if (log->errors) sx_prune();
    const D<T> &R = b.R;
    char t = pick("trans", "NTC");
    int am = sx_choice("alpha, beta", 4); // (free,free) (1,0) (free,1) (0,free)
    T al = am == 1 ? T(1) : am == 3 ? T(0) : SX<T>::real("alpha"), be = am == 1 ? T(0) : am == 2 ? T(1) : SX<T>::real("beta");
    D<T> x = symD<T>(t == 'N' ? R.n : R.m, 1, "x"), y = symD<T>(t == 'N' ? R.m : R.n, 1, "y");
    D<T> xx = x, yy = y;
    int v = sx_choice("variant", 3);
    log->errors = 0;
    char leafsym = b.h->get_symmetry_for_leaves();
    if (v == 0) internal_add_hmatrix_vector_product(t, al, *b.h, xx.v.data(), be, yy.v.data());
    else if (v == 1) sequential_internal_add_hmatrix_vector_product(t, al, *b.h, xx.v.data(), be, yy.v.data());
    else openmp_internal_add_hmatrix_vector_product(t, al, *b.h, xx.v.data(), be, yy.v.data());
    bool unsupported = (t == 'C' && b.sym == 'S' && SX<T>::c) || (t == 'T' && b.sym == 'H');
    if (unsupported) { // reported, or right all the same
        if (log->errors == 0 && !(v == 0 && b.h->is_leaf())) eqD(yy, lin(al, mul(op(t, R), x), be, y), "unreported unsupported product");
    } else eqD(yy, lin(al, mul(op(t, R), x), be, y), "H-matrix vector product");
    (void)leafsym;
    eqD(xx, x, "product changes its input");
    sxh::unchanged(b, "product changes its H-matrix");
    sx_reach("end");
}
SX_ENTRY(square) {
    sxh::Shape o;
    o.m = o.n = sx_param("n", 4);
    o.ranks = {1, 0, 2, -1};
    o.copies = true;
    run(o);
}
SX_ENTRY(local) { // one process's rows of a partitioned matrix
    sxh::Shape o;
    o.m = o.n = 5; o.P = 2; o.restrict_rank = true; o.structures = {1, 2, 3};
    run(o);
}
SX_ENTRY(rectangular) {
    sxh::Shape o;
    o.same = false; o.m = 3; o.n = 4; o.ranks = {1, 0, 2, -1};
    o.consistent = sx_choice("consistent", 2);
    run(o);
}
SX_ENTRY(user) { // the operator applied to vectors in user numbering
    auto log = sxc::quiet();
    sxh::Shape o;
    o.structures = {2}; o.ranks = {1, -1};
    bool sq = sx_choice("square", 2);
    if (!sq) { o.same = false; o.m = 3; o.n = 4; }
    auto b = sxh::build_hmatrix<T>(o);
    const Cluster<double> &t = *b.t, &s = b.s ? *b.s : *b.t;
    const D<T> &R = b.R;
    LocalHMatrix<T, double> op1(*b.h, t, s, b.sym, b.uplo, true, true);
    T al = SX<T>::real("alpha"), be = SX<T>::real("beta");
    D<T> x = symD<T>(R.n, 1, "x"), y = symD<T>(R.m, 1, "y"), yy = y;
    op1.add_vector_product_global_to_local(al, x.v.data(), be, yy.v.data());
    D<T> Ru(R.m, R.n);
    for (int i = 0; i < R.m; i++) for (int j = 0; j < R.n; j++) Ru(t.get_permutation()[i], s.get_permutation()[j]) = R(i, j);
    eqD(yy, lin(al, mul(Ru, x), be, y), "product in user numbering");
    sx_reach("end");
}
