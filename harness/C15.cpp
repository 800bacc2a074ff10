#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
using namespace htool;
using namespace sxl;
typedef SXT T;
typedef Matrix<T> HM;
typedef LowRankMatrix<T> LM;
static void same(const LM &l, const LR<T> &x, const char *msg) { eqM(l.get_U(), x.U, msg); eqM(l.get_V(), x.V, msg); }
static int lo_n() { return sx_param("hi", 3); }
// tolerance 0: nothing may be lost
SX_ENTRY(recompress_exact) {
    int m = 1 + sx_choice("m", lo_n()), n = 1 + sx_choice("n", lo_n()), r = sx_choice("r", sx_param("rank", 3) + 1);
    LR<T> A = sxl::sym<T>(m, n, r, "A");
    LM a = make(A, 0);
    if (sx_choice("in place", 2)) {
        recompression(a);
        eqD(value(a, m, n), val(A), "value after recompression");
        sx_check(a.rank_of() <= r, "recompression increased the rank");
        sx_check(a.get_epsilon() == 0, "tolerance changed");
    } else {
        const LM &ca = a;
        std::unique_ptr<LM> b = recompression(ca);
        eqD(value(*b, m, n), val(A), "value after recompression");
        sx_check(b->rank_of() <= r, "recompression increased the rank");
        sx_check(b->get_epsilon() == 0, "tolerance changed");
        same(a, A, "recompression into a new object changed its argument");
    }
    sx_reach("end");
}
static T diff2(const D<T> &a, const D<T> &b) { T s(0); for (size_t k = 0; k < a.v.size(); k++) { T d = a.v[k] - b.v[k]; s += d * SX<T>::cj(d); } return s; }
// the value is diagonal (singular values known), so the smallest admissible rank is known too
static void within_tolerance(const D<T> &before, const LM &after, int m, int n, std::vector<double> s2, double eps) {
    D<T> got = value(after, m, n);
    std::sort(s2.begin(), s2.end(), [](double x, double y) { return x > y; });
    double norm2 = 0, tail = 0;
    for (double x : s2) norm2 += x;
    int p = (int)s2.size(), k = p;
    while (k > 1 && tail + s2[k - 1] < eps * eps * norm2) tail += s2[--k];
    sx_check(after.rank_of() == k, "number of terms kept");
    SX<T>::eq(diff2(got, before), T(tail), "squared error after truncation");
}
SX_ENTRY(recompress_tolerance) {
    int m = 2 + sx_choice("m", 2), n = 2 + sx_choice("n", 2), r = 2;
    double d[2] = {sx_real("d"), sx_real("d")}, eps = sx_real_in("eps", 0, 2);
    LR<T> A;
    A.U = D<T>(m, r); A.V = D<T>(r, n);
    for (int k = 0; k < r; k++) { A.U(k, k) = T(1); A.V(k, k) = T(d[k]); }
    std::vector<double> s2{d[0] * d[0], d[1] * d[1]};
    double norm2 = s2[0] + s2[1], lo = s2[0] < s2[1] ? s2[0] : s2[1], e2 = eps * eps * norm2;
    sx_assume(norm2 > 0.01 && norm2 < 100);
    sx_assume(lo > e2 + 0.001 || lo < e2 - 0.001);
    sx_assume(s2[0] > s2[1] + 0.001 || s2[1] > s2[0] + 0.001);
    LM a = make(A, eps);
    recompression(a);
    within_tolerance(val(A), a, m, n, s2, eps);
    sx_reach(a.rank_of() == 1 ? "dropped" : "kept");
}
// sums over cluster blocks; X may lie inside Y, Y inside X, or both be the same block
static const Cluster<double> &node(const Cluster<double> &r, int k) { return r.get_children().size() == 1 ? node(*r.get_children()[0], k) : k == 0 ? r : *r.get_children()[k - 1]; }
static D<T> restricted_or_extended(const D<T> &x, const Cluster<double> &xt, const Cluster<double> &xs, const Cluster<double> &yt, const Cluster<double> &ys) {
    D<T> r(yt.get_size(), ys.get_size());
    for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) {
        int a = yt.get_offset() + i - xt.get_offset(), b = ys.get_offset() + j - xs.get_offset();
        if (a >= 0 && a < x.m && b >= 0 && b < x.n) r(i, j) = x(a, b);
    }
    return r;
}
SX_ENTRY(sum) {
    auto log = sxc::quiet();
    int rectangular = sx_choice("rectangular", 2);
    Cluster<double> t = sxh::make_cluster(3, 2, 0, 1, 1), s = sxh::make_cluster(rectangular ? 4 : 3, 2, 0, 1, 2);
    int xt = sx_choice("X rows", 3), yt = sx_choice("Y rows", 3), xs = sx_choice("X columns", 3), ys = sx_choice("Y columns", 3);
    auto kind = [](int x, int y) { return x == y ? 0 : y == 0 ? 1 : x == 0 ? 2 : 3; }; // same, X inside Y, Y inside X, neither
    int kt = kind(xt, yt), ks = kind(xs, ys);
    const auto &Xt = node(t, xt), &Yt = node(t, yt), &Xs = node(s, xs), &Ys = node(s, ys);
    int rx = sx_choice("rank of X", 2), ry = sx_choice("rank of Y", sx_param("rank", 2) + 1);
    LR<T> X = sxl::sym<T>(Xt.get_size(), Xs.get_size(), rx, "X"), Y = sxl::sym<T>(Yt.get_size(), Ys.get_size(), ry, "Y");
    LM x = make(X, 0.5), y = make(Y, 0);
    add_lrmat_lrmat(x, Xt, Xs, y, Yt, Ys);
    bool supported = kt != 3 && ks != 3 && !(kt == 1 && ks == 2) && !(kt == 2 && ks == 1);
    if (supported) {
        sx_check(log->errors == 0, "error logged for a supported sum");
        eqD(value(y, Yt.get_size(), Ys.get_size()), lin(T(1), restricted_or_extended(val(X), Xt, Xs, Yt, Ys), T(1), val(Y)), "sum of low-rank matrices");
        sx_check(y.rank_of() <= rx + ry, "rank of a sum exceeds the sum of the ranks");
    } else {
        sx_check(log->errors > 0, "unsupported sum not reported");
        same(y, Y, "unsupported sum changed its destination");
    }
    same(x, X, "sum changed its argument");
    sx_reach("end");
}
// Y = diag(y, 0..), X lives in the block after it: the sum is diagonal
SX_ENTRY(sum_tolerance) {
    auto log = sxc::quiet();
    Cluster<double> t = sxh::make_cluster(2, 2, 0, 1, 1);
    double x = sx_real("x"), y = sx_real("y"), eps = sx_real_in("eps", 0, 2);
    int inside = sx_choice("X inside Y", 2);
    LR<T> X, Y;
    int o = inside ? 0 : 1;
    X.U = D<T>(1 + o, 1); X.V = D<T>(1, 1 + o); Y.U = D<T>(2, 1); Y.V = D<T>(1, 2);
    X.U(o, 0) = T(1); X.V(0, o) = T(x); Y.U(0, 0) = T(1); Y.V(0, 0) = T(y);
    std::vector<double> s2{y * y, x * x};
    double norm2 = s2[0] + s2[1], lo = s2[0] < s2[1] ? s2[0] : s2[1], e2 = eps * eps * norm2;
    sx_assume(norm2 > 0.01 && norm2 < 100);
    sx_assume(lo > e2 + 0.001 || lo < e2 - 0.001);
    sx_assume(s2[0] > s2[1] + 0.001 || s2[1] > s2[0] + 0.001);
    LM a = make(X, 0), b = make(Y, eps);
    const auto &xn = node(t, inside ? 2 : 0);
    add_lrmat_lrmat(a, xn, xn, b, t, t);
    D<T> sum = val(Y);
    sum(1, 1) += T(x);
    within_tolerance(sum, b, 2, 2, s2, eps);
    sx_reach(b.rank_of() == 1 ? "dropped" : "kept");
}
// a low-rank matrix added to every leaf of an H-matrix
static void to_h(bool square) {
    auto log = sxc::quiet();
    sxh::Shape o;
    o.eps = 0;
    o.ranks = {1, 0, 2};
    if (square) { o.m = o.n = sx_param("n", 4); o.structures = {0, 1, 2, 3, 4}; } else { o.same = false; o.m = 3; o.n = 4; o.structures = {0, 2, 3, 4}; }
    auto b = sxh::build_hmatrix<T>(o);
    if (log->errors) sx_prune();
    int r = sx_choice("rank", 3);
    LR<T> X = sxl::sym<T>(o.m, o.n, r, "X");
    LM x = make(X, 0.5);
    std::vector<const HMatrix<T> *> L;
    sxh::leaves_of<T>(*b.h, L);
    std::vector<D<T>> before;
    std::vector<int> rk;
    for (auto *l : L) { before.push_back(sxh::leaf_dense<T>(*l)); rk.push_back(l->is_low_rank() ? l->get_low_rank_data()->rank_of() : -1); }
    internal_add_lrmat_hmatrix(x, *b.h);
    std::vector<const HMatrix<T> *> L2;
    sxh::leaves_of<T>(*b.h, L2);
    sx_check(L == L2, "structure of the H-matrix changed");
    D<T> v = val(X);
    for (size_t k = 0; k < L.size(); k++) {
        const HMatrix<T> &l = *L[k];
        int i0 = l.get_target_cluster().get_offset(), j0 = l.get_source_cluster().get_offset();
        D<T> a = sxh::leaf_dense<T>(l), e = lin(T(1), before[k], T(1), sub(v, i0, j0, before[k].m, before[k].n));
        sx_check(l.is_dense() == (rk[k] < 0), "kind of a leaf changed");
        if (!l.is_dense()) sx_check(l.get_low_rank_data()->rank_of() <= rk[k] + r, "rank of a leaf exceeds the sum of the ranks");
        for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) {
            bool stored = l.get_symmetry() == 'N' || (l.get_UPLO() == 'U' ? i <= j : i >= j);
            if (stored) SX<T>::eq(a(i, j), e(i, j), "leaf after adding a low-rank matrix");
        }
    }
    same(x, X, "sum changed its argument");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(to_h_square) { to_h(true); }
SX_ENTRY(to_h_rectangular) { to_h(false); }
