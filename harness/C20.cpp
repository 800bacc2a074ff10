// LU and Cholesky: factorise, solve, substitute the answer back into the system.
#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
using namespace htool;
typedef SXT T;
typedef Matrix<T> HM;
static const char H = SX<T>::c ? 'H' : 'S';
// real: every entry free. Complex beyond order 2: one entry free, the others fixed generic numbers (nested complex quotients grow too fast)
static bool partly(int n) { return SX<T>::c && n > 2; }
static T fixed(int i, int j) { return i == j ? SX<T>::mk(8 + i, 1 + j) : SX<T>::mk(1 + (3 * i + 5 * j) % 7 * 0.5, (i - 2 * j) * 0.25 + 0.125); }
static D<T> entries(int n) {
    if (partly(n)) sx_exact_arithmetic(1);
    int f = partly(n) ? sx_choice("free entry", sx_param("free", 3)) : -1;
    static const int at[][2] = {{2, 1}, {1, 2}, {2, 2}, {1, 1}, {2, 0}, {0, 0}};
    D<T> A(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = f < 0 || (i == at[f][0] && j == at[f][1]) ? SX<T>::real("A") : fixed(i, j);
    return A;
}
SX_ENTRY(lu) {
    int n = sx_choice("order", sx_param("order", 4)), k = sx_choice("right-hand sides", 3);
    D<T> A = entries(n), B = symD<T>(n, k, "B");
    HM a = fromD<HM>(A), b = fromD<HM>(B);
    char tr = pick("trans", "NTC");
    lu_factorization(a);
    D<T> F = toD<T>(a);
    lu_solve(tr, a, b);
    eqD(mul(op(tr, A), toD<T>(b)), B, "dense LU solve");
    eqM(a, F, "factors changed by the solve");
    sx_reach("end");
}
// only the stored triangle is given; the other one must play no part
static D<T> positive(int n) { D<T> A = entries(n); return mirror(A, 'L', H); }
SX_ENTRY(cholesky) {
    int n = sx_choice("order", sx_param("order", 4)), k = sx_choice("right-hand sides", 3);
    char uplo = pick("uplo", "LU");
    D<T> A = positive(n), B = symD<T>(n, k, "B"), G = A;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (uplo == 'L' ? i < j : i > j) G(i, j) = SX<T>::real("junk");
    HM a = fromD<HM>(G), b = fromD<HM>(B);
    cholesky_factorization(uplo, a);
    cholesky_solve(uplo, a, b);
    eqD(mul(A, toD<T>(b)), B, "dense Cholesky solve");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (uplo == 'L' ? i < j : i > j) SX<T>::eq(a(i, j), G(i, j), "the triangle not stored was written");
    sx_reach("end");
}
// the dense right-hand sides are in user numbering, the factorised operator over cluster c
static D<T> user(const Cluster<double> &c, const D<T> &R) {
    D<T> U(R.m, R.n);
    auto &p = c.get_permutation();
    int o = c.get_offset();
    for (int i = 0; i < R.m; i++) for (int j = 0; j < R.n; j++) U(p[o + i] - o, p[o + j] - o) = R(i, j);
    return U;
}
static void lu_h(const Cluster<double> &c, int st, int cyc, int tpart, int k) {
    auto log = sxc::quiet();
    D<T> A = entries((int)c.get_permutation().size());
    auto h = sxh::hm_over<T>(c, c, st, {1, 0, -1}, cyc, 0, 'N', 'N', tpart, tpart, true, &A, partly(A.m));
    D<T> R = sxh::represented<T>(*h);
    char tr = pick("trans", SX<T>::c ? "NTC" : "NT");
    D<T> B = symD<T>(R.m, k, "B");
    HM b = fromD<HM>(B);
    lu_factorization(*h);
    lu_solve(tr, *h, b);
    sx_check(log->errors == 0, "error logged for a supported factorisation or solve");
    eqD(mul(op(tr, user(h->get_target_cluster(), R)), toD<T>(b)), B, "hierarchical LU solve");
    sx_reach("end");
}
static void chol_h(const Cluster<double> &c, int st, int cyc, int k) {
    auto log = sxc::quiet();
    char uplo = pick("uplo", "LU");
    int how = sx_choice("storage", 2); // symmetric storage or the whole matrix
    D<T> A = positive((int)c.get_permutation().size());
    auto h = how == 0 ? sxh::hm_over<T>(c, c, st, {1, 0, -1}, cyc, 0, H, uplo, -1, -1, true, &A, partly(A.m)) : sxh::hm_over<T>(c, c, 1, {-1}, 0, 0, 'N', 'N', -1, -1, true, &A);
    D<T> R = how == 0 ? sxh::represented<T>(*h, H, uplo) : sxh::represented<T>(*h);
    D<T> B = symD<T>(R.m, k, "B");
    HM b = fromD<HM>(B);
    cholesky_factorization(uplo, *h);
    cholesky_solve(uplo, *h, b);
    sx_check(log->errors == 0, "error logged for a supported factorisation or solve");
    eqD(mul(user(c, R), toD<T>(b)), B, "hierarchical Cholesky solve");
    sx_reach("end");
}
static void plain(bool ch) {
    int shape = sx_choice("shape", sx_param("shapes", 4)); // 3 points with leaves of one; a local cluster: one leaf or 3 points; 4 points with leaves of two
    static const std::vector<int> part = {0, 2, 2, 3};
    auto t = shape == 3 ? sxh::make_cluster(4, 2, 2, 1, 1) : shape == 0 ? sxh::make_cluster(3, 2, 0, 1, 1) : sxh::make_cluster(5, 2, 0, 2, 1, &part);
    const Cluster<double> &c = shape == 1 || shape == 2 ? *t.get_clusters_on_partition()[shape - 1] : t;
    int st = 1 + sx_choice("structure", 2);
    int cyc = st == 1 ? 0 : sx_choice("compression outcomes", 3);
    int k = 1 + (shape == 0 ? sx_choice("right-hand sides", 2) : 0);
    if (ch) chol_h(c, st, cyc, k); else lu_h(c, st, cyc, -1, k);
}
SX_ENTRY(h_lu) { plain(false); }
SX_ENTRY(h_cholesky) { plain(true); }
static void parted(bool ch) {
    int P = 2 + sx_choice("partition", sx_param("partitions", 3));
    int n = P < 4 ? 3 : 4;
    int c = P == 3 ? 2 + sx_choice("three children", 2) : 2;
    auto t = sxh::make_cluster(n, c, 0, P, 1);
    int st = 1 + sx_choice("structure", 2);
    int cyc = st == 1 ? 0 : sx_choice("compression outcomes", 3);
    if (ch) chol_h(t, st, cyc, 1); else lu_h(t, st, cyc, -1, 1);
}
SX_ENTRY(parted_lu) { parted(false); }
SX_ENTRY(parted_cholesky) { parted(true); }
