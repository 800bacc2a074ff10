// Dense kernels (matrix.hpp, matrix/linalg/*)
#include "common.hpp"
#include <htool/matrix/matrix.hpp>
#include <htool/matrix/linalg/interface.hpp>
using namespace htool;
typedef SXT T;
typedef D<T> DM;
typedef Matrix<T> HM;
static int dim(const char *n) { int lo = sx_param("lo", 0), hi = sx_param("hi", 2); return lo + sx_choice(n, hi - lo + 1); }
SX_ENTRY(gemv) {
    int m = dim("m"), n = dim("n");
    char t = pick("trans", "NTC");
    T al = coef<T>("alpha", sx_choice("alpha mode", 3)), be = coef<T>("beta", sx_choice("beta mode", 3));
    DM A = symD<T>(m, n, "A"), x = symD<T>(t == 'N' ? n : m, 1, "x"), y = symD<T>(t == 'N' ? m : n, 1, "y");
    HM a = fromD<HM>(A);
    DM yy = y, xx = x;
    add_matrix_vector_product(t, al, a, xx.v.data(), be, yy.v.data());
    // the reference routine leaves y untouched when the matrix is empty
    if (m > 0 && n > 0) eqD(yy, lin(al, mul(op(t, A), x), be, y), "gemv result");
    eqD(xx, x, "gemv changes its input");
    eqM(a, A, "gemv changes its matrix");
    sx_reach("end");
}
SX_ENTRY(gemm) {
    int m = dim("m"), n = dim("n"), k = dim("k");
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    T al = coef<T>("alpha", sx_choice("alpha mode", 2)), be = coef<T>("beta", sx_choice("beta mode", 2));
    DM A = symD<T>(ta == 'N' ? m : k, ta == 'N' ? k : m, "A"), B = symD<T>(tb == 'N' ? k : n, tb == 'N' ? n : k, "B"), C = symD<T>(m, n, "C");
    HM a = fromD<HM>(A), b = fromD<HM>(B), c = fromD<HM>(C);
    add_matrix_matrix_product(ta, tb, al, a, b, be, c);
    eqM(c, lin(al, mul(op(ta, A), op(tb, B)), be, C), "gemm result");
    eqM(a, A, "gemm changes A");
    eqM(b, B, "gemm changes B");
    sx_reach("end");
}
SX_ENTRY(gemm_row_major) { // in and out are row-major with mu columns
    int m = dim("m"), k = dim("k"), mu = dim("mu");
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    T al = coef<T>("alpha", sx_choice("alpha mode", 2)), be = coef<T>("beta", sx_choice("beta mode", 2));
    DM A = symD<T>(ta == 'N' ? m : k, ta == 'N' ? k : m, "A");
    // op(B) is k x mu; B row-major == its transpose column-major
    DM Bt = tb == 'N' ? symD<T>(mu, k, "B") : symD<T>(k, mu, "B");
    DM Ct = symD<T>(mu, m, "C");
    HM a = fromD<HM>(A);
    DM bt = Bt, ct = Ct;
    add_matrix_matrix_product_row_major(ta, tb, al, a, bt.v.data(), be, ct.v.data(), mu);
    DM B = op('T', Bt);
    eqD(op('T', ct), lin(al, mul(op(ta, A), op(tb, B)), be, op('T', Ct)), "row-major gemm result");
    eqD(bt, Bt, "row-major gemm changes its input");
    eqM(a, A, "row-major gemm changes its matrix");
    sx_reach("end");
}
SX_ENTRY(symv) {
    int n = dim("n");
    char u = pick("uplo", "LU"), s = pick("sym", "SH");
    T al = coef<T>("alpha", sx_choice("alpha mode", 3)), be = coef<T>("beta", sx_choice("beta mode", 3));
    DM A = symD<T>(n, n, "A"), x = symD<T>(n, 1, "x"), y = symD<T>(n, 1, "y");
    HM a = fromD<HM>(A);
    DM yy = y, xx = x;
    if (s == 'S') add_symmetric_matrix_vector_product(u, al, a, xx.v.data(), be, yy.v.data());
    else add_hermitian_matrix_vector_product(u, al, a, xx.v.data(), be, yy.v.data());
    eqD(yy, lin(al, mul(mirror(A, u, s), x), be, y), "symmetric product result");
    eqD(xx, x, "symmetric product changes its input");
    eqM(a, A, "symmetric product changes its matrix");
    sx_reach("end");
}
template <class U> void hemm_(char side, char u, U al, const Matrix<U> &a, const Matrix<U> &b, U be, Matrix<U> &c, std::true_type) { add_hermitian_matrix_matrix_product(side, u, al, a, b, be, c); }
template <class U> void hemm_(char side, char u, U al, const Matrix<U> &a, const Matrix<U> &b, U be, Matrix<U> &c, std::false_type) { add_symmetric_matrix_matrix_product(side, u, al, a, b, be, c); }
SX_ENTRY(symm) {
    int m = dim("m"), n = dim("n");
    char u = pick("uplo", "LU"), s = pick("sym", "SH"), side = pick("side", "LR");
    T al = coef<T>("alpha", sx_choice("alpha mode", 2)), be = coef<T>("beta", sx_choice("beta mode", 2));
    int k = side == 'L' ? m : n;
    DM A = symD<T>(k, k, "A"), B = symD<T>(m, n, "B"), C = symD<T>(m, n, "C");
    HM a = fromD<HM>(A), b = fromD<HM>(B), c = fromD<HM>(C);
    if (s == 'S') add_symmetric_matrix_matrix_product(side, u, al, a, b, be, c);
    else hemm_<T>(side, u, al, a, b, be, c, std::integral_constant<bool, SX<T>::c>());
    DM F = mirror(A, u, s);
    eqM(c, lin(al, side == 'L' ? mul(F, B) : mul(B, F), be, C), "symmetric matrix product result");
    eqM(a, A, "symmetric matrix product changes A");
    eqM(b, B, "symmetric matrix product changes B");
    sx_reach("end");
}
SX_ENTRY(symm_row_major) {
    int n = dim("n"), mu = dim("mu");
    char u = pick("uplo", "LU"), s = pick("sym", "SH"), side = pick("side", "LR");
    T al = coef<T>("alpha", sx_choice("alpha mode", 2)), be = coef<T>("beta", sx_choice("beta mode", 2));
    DM A = symD<T>(n, n, "A");
    // side L: B, C are n x mu row-major (mu x n column-major); side R: B, C are mu x n row-major
    int p = side == 'L' ? mu : n, q = side == 'L' ? n : mu;
    DM Bt = symD<T>(p, q, "B"), Ct = symD<T>(p, q, "C");
    HM a = fromD<HM>(A);
    DM bt = Bt, ct = Ct;
    if (s == 'S') add_symmetric_matrix_matrix_product_row_major(side, u, al, a, bt.v.data(), be, ct.v.data(), mu);
    else add_hermitian_matrix_matrix_product_row_major(side, u, al, a, bt.v.data(), be, ct.v.data(), mu);
    DM F = mirror(A, u, s), B = op('T', Bt);
    eqD(op('T', ct), lin(al, side == 'L' ? mul(F, B) : mul(B, F), be, op('T', Ct)), "row-major symmetric product result");
    eqD(bt, Bt, "row-major symmetric product changes its input");
    eqM(a, A, "row-major symmetric product changes its matrix");
    sx_reach("end");
}
SX_ENTRY(elementwise) {
    int m = dim("m"), n = dim("n"), k = dim("k");
    DM A = symD<T>(m, n, "A"), B = symD<T>(m, n, "B"), C = symD<T>(n, k, "C");
    HM a = fromD<HM>(A), b = fromD<HM>(B), c = fromD<HM>(C);
    T z = SX<T>::real("z");
    eqM(a + b, lin(T(1), A, T(1), B), "operator+");
    eqM(a - b, lin(T(1), A, T(-1), B), "operator-");
    eqM(a * z, lin(z, A, T(0), A), "matrix * scalar");
    eqM(z * a, lin(z, A, T(0), A), "scalar * matrix");
    eqM(a * c, mul(A, C), "operator*");
    DM x = symD<T>(n, 1, "x");
    std::vector<T> y = a * x.v;
    DM e = mul(A, x);
    sx_check((int)y.size() == m, "size of matrix * vector");
    for (int i = 0; i < m; i++) SX<T>::eq(y[i], e(i, 0), "matrix * vector");
    for (int i = 0; i < m; i++) { std::vector<T> r = a.get_row(i); sx_check((int)r.size() == n, "get_row size"); for (int j = 0; j < n; j++) SX<T>::eq(r[j], A(i, j), "get_row"); }
    for (int j = 0; j < n; j++) { std::vector<T> r = a.get_col(j); sx_check((int)r.size() == m, "get_col size"); for (int i = 0; i < m; i++) SX<T>::eq(r[i], A(i, j), "get_col"); }
    if (m > 0 && n > 0) {
        int i0 = sx_choice("row", m), j0 = sx_choice("col", n);
        HM d = a;
        DM E = A, row = symD<T>(1, n, "row"), col = symD<T>(m, 1, "col");
        d.set_row(i0, row.v);
        for (int j = 0; j < n; j++) E(i0, j) = row(0, j);
        eqM(d, E, "set_row");
        d.set_col(j0, col.v);
        for (int i = 0; i < m; i++) E(i, j0) = col(i, 0);
        eqM(d, E, "set_col");
        HM f = a;
        f = z;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SX<T>::eq(f(i, j), z, "assign scalar");
    }
    HM t(n, m), s = a;
    transpose(a, t);
    eqM(t, op('T', A), "transpose");
    scale(z, s);
    eqM(s, lin(z, A, T(0), A), "scale");
    s = a;
    eqM(a, A, "operations change their operand");
    // Frobenius norm
    if (m * n > 0) {
        double f = normFrob(a), ss = 0;
        for (auto &w : A.v) ss += SX<T>::re(w) * SX<T>::re(w) + SX<T>::im(w) * SX<T>::im(w);
        sx_check_eq(f * f, ss, "Frobenius norm");
        sx_check(f >= 0, "Frobenius norm sign");
    }
    // resize keeps nothing but fills the value
    int m2 = dim("m2"), n2 = dim("n2");
    HM r = a;
    r.resize(m2, n2, z);
    sx_check(r.nb_rows() == m2 && r.nb_cols() == n2, "resize shape");
    for (int i = 0; i < m2; i++) for (int j = 0; j < n2; j++) SX<T>::eq(r(i, j), z, "resize fill");
    sx_reach("end");
}
