// Triangular solves, dense and hierarchical. The answer is checked by substitution into the system.
#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
using namespace htool;
typedef SXT T;
typedef Matrix<T> HM;
static void solved(char side, const D<T> &opT, const D<T> &X, T al, const D<T> &B, const char *msg) { eqD(side == 'L' ? mul(opT, X) : mul(X, opT), lin(al, B, T(0), B), msg); }
// rows of block [o, o+n) of L exchanged as the pivots say: P * L with P from A = P L U
static void unpivot(D<T> &L, int o, const std::vector<int> &ip) {
    int n = (int)ip.size();
    for (int i = n - 1; i >= 0; i--) if (ip[i] != i + 1) for (int j = 0; j < n; j++) std::swap(L(o + i, o + j), L(o + ip[i] - 1, o + j));
}
static std::vector<int> pivots(int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i + 1 + (n - i > 1 ? sx_choice("pivot", n - i) : 0); return p; }
static T alpha_of() { return sx_choice("alpha", 2) ? SX<T>::real("alpha") : T(1); }
static void nonzero_diagonal(const D<T> &A, char diag) { if (diag == 'N') for (int i = 0; i < A.m; i++) sx_assume(A(i, i) != T(0)); }
SX_ENTRY(dense) {
    int n = sx_choice("order", sx_param("order", 4)), k = sx_choice("right-hand sides", sx_param("rhs", 3));
    char side = pick("side", "LR"), uplo = pick("uplo", "LU"), tr = pick("trans", "NTC"), diag = pick("diag", "NU");
    bool piv = n > 0 && sx_choice("pivoted", 2);
    D<T> A = symD<T>(n, n, "A"), B = side == 'L' ? symD<T>(n, k, "B") : symD<T>(k, n, "B");
    nonzero_diagonal(A, diag);
    HM a = fromD<HM>(A), b = fromD<HM>(B);
    D<T> L = tri(A, uplo, diag);
    if (piv) { std::vector<int> ip = pivots(n); a.get_pivots() = ip; if (uplo == 'L') unpivot(L, 0, ip); }
    T al = alpha_of();
    triangular_matrix_matrix_solve(side, uplo, tr, diag, al, a, b);
    solved(side, op(tr, L), toD<T>(b), al, B, "dense triangular solve");
    eqM(a, A, "triangular matrix changed");
    sx_reach("end");
}
// the triangular matrix: over cluster c, with pivots inside its diagonal leaves
struct Tri { std::unique_ptr<HMatrix<T>> h; D<T> R, L; char side, uplo, tr, diag; T al; };
static Tri triangular(const Cluster<double> &c, int st, int cyc, bool piv, bool sym) {
    Tri x;
    x.side = pick("side", "LR"); x.uplo = pick("uplo", "LU"); x.tr = pick("trans", SX<T>::c ? "NTC" : "NT"); x.diag = pick("diag", "NU");
    x.h = sym ? sxh::hm_over<T>(c, c, st, {1, 0, -1}, cyc, 0, SX<T>::c ? 'H' : 'S', x.uplo) : sxh::hm_over<T>(c, c, st, {1, 0, -1}, cyc, 0);
    x.R = sym ? sxh::represented<T>(*x.h, SX<T>::c ? 'H' : 'S', x.uplo) : sxh::represented<T>(*x.h);
    x.L = tri(x.R, x.uplo, x.diag);
    nonzero_diagonal(x.R, x.diag);
    if (piv) {
        std::vector<HMatrix<T> *> dl;
        preorder_tree_traversal(*x.h, [&](HMatrix<T> &k) { if (k.is_leaf() && k.get_target_cluster().get_offset() == k.get_source_cluster().get_offset() && k.is_dense()) dl.push_back(&k); });
        for (auto d : dl) {
            std::vector<int> ip = pivots(d->nb_rows());
            d->get_dense_data()->get_pivots() = ip;
            if (x.uplo == 'L') unpivot(x.L, d->get_target_cluster().get_offset() - c.get_offset(), ip);
        }
    }
    x.al = sx_param("alphas", 1) ? alpha_of() : (x.diag == 'U') == (x.side == 'R') ? T(1) : SX<T>::real("alpha");
    return x;
}
static void to_dense(const Tri &x, int k) {
    int n = x.R.m;
    D<T> B = x.side == 'L' ? symD<T>(n, k, "B") : symD<T>(k, n, "B");
    HM b = fromD<HM>(B);
    internal_triangular_hmatrix_matrix_solve(x.side, x.uplo, x.tr, x.diag, x.al, *x.h, b);
    solved(x.side, op(x.tr, x.L), toD<T>(b), x.al, B, "hierarchical triangular solve with dense right-hand sides");
}
static void to_lr(const Tri &x, int k, int r) {
    int n = x.R.m;
    auto B = x.side == 'L' ? sxl::sym<T>(n, k, r, "B") : sxl::sym<T>(k, n, r, "B");
    auto b = sxl::make(B, 0);
    internal_triangular_hmatrix_lrmat_solve(x.side, x.uplo, x.tr, x.diag, x.al, *x.h, b);
    D<T> X = x.side == 'L' ? sxl::value(b, n, k) : sxl::value(b, k, n);
    solved(x.side, op(x.tr, x.L), X, x.al, sxl::val(B), "hierarchical triangular solve with low-rank right-hand sides");
}
static void to_h(const Tri &x, const Cluster<double> &c, const Cluster<double> &o, int st, int cyc) {
    auto b = x.side == 'L' ? sxh::hm_over<T>(c, o, st, {1, 0, -1}, cyc, 0) : sxh::hm_over<T>(o, c, st, {1, 0, -1}, cyc, 0);
    D<T> B = sxh::represented<T>(*b);
    internal_triangular_hmatrix_hmatrix_solve(x.side, x.uplo, x.tr, x.diag, x.al, *x.h, *b);
    solved(x.side, op(x.tr, x.L), sxh::represented<T>(*b), x.al, B, "hierarchical triangular solve with hierarchical right-hand sides");
}
static void plain(int dest) {
    auto log = sxc::quiet();
    int shape = sx_choice("shape", 3); // 3 points with leaves of one, 4 points with (pivoted) leaves of two, one leaf of 2 points
    auto t = shape == 1 ? sxh::make_cluster(4, 2, 2, 1, 1) : shape == 0 ? sxh::make_cluster(3, 2, 0, 1, 1) : sxh::make_cluster(2, 2, 5, 1, 1);
    bool sym = shape != 2 && sx_choice("symmetric storage", 2);
    const Cluster<double> *c = shape == 2 ? &t : t.get_clusters_on_partition()[0];
    auto x = triangular(*c, shape == 0 ? 2 : 1 + sx_choice("structure", 2), shape == 1 ? 0 : (dest + sx_choice("compression outcomes", shape == 2 ? 1 : sx_param("cycles", 3))) % 3, !sym && shape, sym);
    if (log->errors) sx_prune();
    if (dest == 0) to_dense(x, 1 + sx_choice("right-hand sides", sx_param("rhs", 2)));
    if (dest == 1) to_lr(x, 2, 1 - sx_choice("rank", sx_param("ranks", 2)));
    if (dest == 2) {
        auto u = sxh::make_cluster(2, 2, 0, 1, 2);
        bool same = shape == 0 && sx_choice("square", 2);
        int st = shape == 2 ? 1 : 1 + sx_choice("structure of the right-hand sides", sx_param("rhs_structures", 4));
        to_h(x, *c, same ? *c : *u.get_clusters_on_partition()[0], st, st);
    }
    if (!sym) eqD(sxh::represented<T>(*x.h), x.R, "triangular matrix changed");
    sx_check(log->errors == 0, "error logged for a supported solve");
    sx_reach("end");
}
SX_ENTRY(h_dense) { plain(0); }
SX_ENTRY(h_lr) { plain(1); }
SX_ENTRY(h_h) { plain(2); }
// trees with a process partition
static void parted(int dest) {
    auto log = sxc::quiet();
    int P = 2 + sx_choice("partition", 3);
    auto t = sxh::make_cluster(4, 2, 0, P, 1), u = sxh::make_cluster(4, 2, 0, P, 2);
    auto x = triangular(t, 1 + sx_choice("structure", 2), 0, false, false);
    if (dest == 0) to_dense(x, 1);
    else to_h(x, t, sx_choice("same columns", 2) ? t : u, 1 + sx_choice("structure of the right-hand sides", 2), 0);
    sx_check(log->errors == 0, "error logged for a supported solve");
    sx_reach("end");
}
SX_ENTRY(parted_dense) { parted(0); }
SX_ENTRY(parted_h) { parted(1); }
