#include "hmat.hpp"
#include <htool/hmatrix/linalg/add_hmatrix_matrix_product.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_matrix_product_row_major.hpp>
#include <htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp>
using namespace htool;
typedef SXT T;
typedef Matrix<T> HM;
static void coefs(T &al, T &be) {
    int am = sx_choice("alpha, beta", 4);
    al = am == 1 ? T(1) : am == 3 ? T(0) : SX<T>::real("alpha");
    be = am == 1 ? T(0) : am == 2 ? T(1) : SX<T>::real("beta");
}
static bool unsupported(char t, char sym) { return (t == 'C' && sym == 'S' && SX<T>::c) || (t == 'T' && sym == 'H'); }
static sxh::Shape shape(int kind) {
    sxh::Shape o;
    o.ranks = {1, 0, -1};
    if (kind == 0) { o.m = o.n = sx_param("n", 4); }
    if (kind == 1) { o.m = o.n = 5; o.P = 2; o.restrict_rank = true; o.structures = {1, 2, 3}; }
    if (kind == 2) { o.same = false; o.m = 3; o.n = 4; }
    return o;
}
static void row_major(int kind) { // in: (inner) x mu row-major, out: (rows) x mu row-major
    auto log = sxc::quiet();
    auto b = sxh::build_hmatrix<T>(shape(kind));
    if (log->errors) sx_prune();
    const D<T> &R = b.R;
    char t = pick("transa", "NTC");
    T al, be;
    coefs(al, be);
    int mu = 1 + sx_choice("columns", sx_param("mu", 2));
    int q = t == 'N' ? R.n : R.m, p = t == 'N' ? R.m : R.n;
    D<T> Bt = symD<T>(mu, q, "B"), Ct = symD<T>(mu, p, "C"), bb = Bt, cc = Ct; // column-major transpose == row-major
    int v = sx_choice("variant", 3);
    log->errors = 0;
    if (v == 0) internal_add_hmatrix_matrix_product_row_major(t, 'N', al, *b.h, bb.v.data(), be, cc.v.data(), mu);
    else if (v == 1) sequential_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, *b.h, bb.v.data(), be, cc.v.data(), mu);
    else openmp_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, *b.h, bb.v.data(), be, cc.v.data(), mu);
    if (!(unsupported(t, b.sym) && (log->errors || (v == 0 && b.h->is_leaf())))) eqD(op('T', cc), lin(al, mul(op(t, R), op('T', Bt)), be, op('T', Ct)), "H-matrix by row-major matrix");
    eqD(bb, Bt, "product changes its input");
    sxh::unchanged(b, "product changes its H-matrix");
    sx_reach("end");
}
SX_ENTRY(row_major_square) { row_major(0); }
SX_ENTRY(row_major_local) { row_major(1); }
SX_ENTRY(row_major_rectangular) { row_major(2); }
static void left(int kind) { // C = alpha op(H) op(B) + beta C
    auto log = sxc::quiet();
    auto b = sxh::build_hmatrix<T>(shape(kind));
    if (log->errors) sx_prune();
    const D<T> &R = b.R;
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    T al, be;
    coefs(al, be);
    int k = sx_param("k", 2);
    int q = ta == 'N' ? R.n : R.m, p = ta == 'N' ? R.m : R.n;
    (void)kind;
    D<T> B = tb == 'N' ? symD<T>(q, k, "B") : symD<T>(k, q, "B"), C = symD<T>(p, k, "C");
    HM bm = fromD<HM>(B), cm = fromD<HM>(C);
    log->errors = 0;
    internal_add_hmatrix_matrix_product(ta, tb, al, *b.h, bm, be, cm);
    if (!(unsupported(ta, b.sym) && log->errors)) { eqM(cm, lin(al, mul(op(ta, R), op(tb, B)), be, C), "H-matrix by matrix"); if (ta != 'C') sx_check(log->errors == 0, "error logged for a supported product"); }
    eqM(bm, B, "product changes its input");
    sxh::unchanged(b, "product changes its H-matrix");
    sx_reach("end");
}
SX_ENTRY(left_square) { left(0); }
SX_ENTRY(left_rectangular) { left(2); }
static void right(int kind) { // C = alpha op(A) op(H) + beta C
    auto log = sxc::quiet();
    auto b = sxh::build_hmatrix<T>(shape(kind));
    if (log->errors) sx_prune();
    const D<T> &R = b.R;
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    T al, be;
    coefs(al, be);
    int k = sx_param("k", 2);
    int q = tb == 'N' ? R.m : R.n, p = tb == 'N' ? R.n : R.m;
    D<T> A = ta == 'N' ? symD<T>(k, q, "A") : symD<T>(q, k, "A"), C = symD<T>(k, p, "C");
    HM am = fromD<HM>(A), cm = fromD<HM>(C);
    log->errors = 0;
    internal_add_matrix_hmatrix_product(ta, tb, al, am, *b.h, be, cm);
    if (!((unsupported(tb, b.sym) || (kind == 1 && b.sym == 'H')) && log->errors)) eqM(cm, lin(al, mul(op(ta, A), op(tb, R)), be, C), "matrix by H-matrix");
    eqM(am, A, "product changes its input");
    sxh::unchanged(b, "product changes its H-matrix");
    sx_reach("end");
}
SX_ENTRY(right_square) { right(0); }
SX_ENTRY(right_rectangular) { right(2); }
SX_ENTRY(left_local) { left(1); }
SX_ENTRY(right_local) { right(1); }
