#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/matrix/utils/SVD_truncation.hpp>
using namespace htool;
using namespace sxl;
typedef SXT T;
typedef Matrix<T> HM;
typedef LowRankMatrix<T> LM;
// an orthonormal n x n matrix: permutation, rotation of the first two axes, or (complex) a phase on the first column
static D<T> unitary(const char *nm, int n) {
    D<T> q(n, n);
    int k = sx_choice(nm, n == 1 ? 2 : 3);
    for (int i = 0; i < n; i++) q(k == 2 ? n - 1 - i : i, i) = T(1);
    if (k == 1) {
        T ph = SX<T>::c ? SX<T>::mk(0.8, 0.6) : T(-1);
        if (n == 1) q(0, 0) = ph;
        else { q(0, 0) = T(0.6) * ph; q(1, 0) = T(0.8) * ph; q(0, 1) = T(-0.8); q(1, 1) = T(0.6); }
    }
    return q;
}
struct Given { int m, n, p; D<T> U, V, A; std::vector<double> s; double norm2; };
static Given given(bool distinct) {
    Given g;
    g.m = 1 + sx_choice("m", sx_param("hi", 3)); g.n = 1 + sx_choice("n", sx_param("hi", 3));
    g.p = g.m < g.n ? g.m : g.n;
    g.U = unitary("U", g.m); g.V = unitary("V", g.n);
    g.norm2 = 0;
    for (int k = 0; k < g.p; k++) {
        g.s.push_back(sx_real("s"));
        sx_assume(g.s[k] >= 0);
        if (k) sx_assume(distinct ? g.s[k - 1] >= g.s[k] + 0.01 : g.s[k - 1] >= g.s[k]);
        g.norm2 += g.s[k] * g.s[k];
    }
    sx_assume(g.s[0] > 0.01 && g.s[0] < 100);
    g.A = D<T>(g.m, g.n);
    for (int i = 0; i < g.m; i++) for (int j = 0; j < g.n; j++) for (int k = 0; k < g.p; k++) g.A(i, j) += g.U(i, k) * T(g.s[k]) * g.V(k, j);
#ifdef SX_SYM
    sxb::register_svd(g.m, g.n, g.U.v.data(), g.s.data(), g.V.v.data());
#endif
    return g;
}
// the smallest k >= 1 whose tail is below the tolerance; ties are assumed away
static int smallest(const Given &g, double eps) {
    double tail[8] = {0}, e2 = eps * eps * g.norm2;
    for (int k = g.p; k-- > 0;) tail[k] = tail[k + 1] + g.s[k] * g.s[k];
    int r = g.p;
    for (int k = g.p - 1; k >= 1; k--) { sx_assume(tail[k] > e2 + 1e-6 || tail[k] < e2 - 1e-6 || (eps == 0)); if (eps > 0 && tail[k] < e2) r = k; else break; }
    return r;
}
static D<T> terms(const D<T> &u, const std::vector<double> &s, const D<T> &v, int k) {
    D<T> r(u.m, v.n);
    for (int i = 0; i < u.m; i++) for (int j = 0; j < v.n; j++) for (int q = 0; q < k; q++) r(i, j) += u(i, q) * T(s[q]) * v(q, j);
    return r;
}
static double tolerance() { return sx_choice("tolerance 0", 2) ? 0 : sx_real_in("eps", 1e-3, 2); }
SX_ENTRY(truncation) {
    Given g = given(false);
    double eps = tolerance();
    HM a = fromD<HM>(g.A), u, vt;
    std::vector<double> s;
    if (sx_choice("outputs sized", 2)) { u.resize(g.m, g.m); vt.resize(g.n, g.n); s.resize(g.p); }
    int k = SVD_truncation(a, eps, u, vt, s);
    sx_check((int)s.size() == g.p, "number of singular values");
    sx_check(u.nb_rows() == g.m && u.nb_cols() == g.m && vt.nb_rows() == g.n && vt.nb_cols() == g.n, "shape of the singular vectors");
    for (int i = 0; i < g.p; i++) sx_check_eq(s[i], g.s[i], "singular value");
    eqD(terms(toD<T>(u), s, toD<T>(vt), g.p), g.A, "product of the decomposition");
    int e = smallest(g, eps);
    sx_check(k == e, "number of terms kept");
    sx_reach(k < g.p ? "dropped" : "kept");
}
// the SVD compressor on a block of a larger matrix
SX_ENTRY(compressor) {
    Given g = given(true);
    static const double tol[3] = {0, 0.25, 0.75};
    double eps = tol[sx_choice("tolerance", sx_param("tolerances", 2))];
    int req = sx_choice("requested rank", 5) - 1;
    Cluster<double> t = sxh::make_cluster(2 * g.m, 2, g.m - 1, 1, 1), s = sxh::make_cluster(2 * g.n, 2, g.n - 1, 1, 2);
    const Cluster<double> *bt = &t, *bs = &s;
    int pos = sx_choice("block", 2);
    while (bt->get_children().size() == 1) bt = bt->get_children()[0].get();
    while (bs->get_children().size() == 1) bs = bs->get_children()[0].get();
    sx_check(bt->get_children().size() == 2 && bs->get_children().size() == 2, "harness: two children expected");
    bt = bt->get_children()[pos].get(); bs = bs->get_children()[1].get();
    sx_check(bt->get_size() == g.m && bs->get_size() == g.n, "harness: block size");
    sxh::SymGen<T> gen(symD<T>(2 * g.m, 2 * g.n, "a"));
    auto pt = [](const Cluster<double> &r) { std::vector<int> v; for (int i = 0; i < (int)r.get_permutation().size(); i++) v.push_back(r.get_permutation()[i]); return v; };
    std::vector<int> tp = pt(t), sp = pt(s);
    for (int i = 0; i < g.m; i++) for (int j = 0; j < g.n; j++) gen.A(tp[bt->get_offset() + i], sp[bs->get_offset() + j]) = g.A(i, j);
    InternalGeneratorWithPermutation<T> ig(gen, t.get_permutation().data(), s.get_permutation().data());
    SVD<T> svd;
    LM l(ig, svd, *bt, *bs, req, eps);
    int k = req >= 0 ? (req < g.p ? req : g.p) : smallest(g, eps);
    bool failed = req == -1 && k * (g.m + g.n) > g.m * g.n;
    sx_check(l.get_epsilon() == eps, "tolerance stored");
    if (failed) sx_check(l.rank_of() == 0 && l.nb_rows() == 0, "a compression that does not pay off must be reported as a failure");
    else {
        sx_check(l.rank_of() == k, "rank of the compressed block");
        eqD(value(l, g.m, g.n), terms(g.U, g.s, g.V, k), "compressed block");
    }
    sx_reach(failed ? "failed" : k < g.p ? "dropped" : "kept");
}
