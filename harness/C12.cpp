// Shared-memory parallel regions: no conflicting unsynchronised accesses, results independent of who does what.
// (parameter omp_threads=2: the engine deals the iterations of every parallel loop to two threads in every way that
// separates each pair of iterations, in both orders, and checks every memory access of the region for conflicts)
#include "hmat.hpp"
#include <htool/hmatrix/linalg/add_hmatrix_vector_product.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_matrix_product_row_major.hpp>
#include <htool/hmatrix/linalg/scale.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
using namespace htool;
typedef SXT T;
static const char *const PROD = "parallel product";
// block structure, storage and transposition
struct Case { std::unique_ptr<Cluster<double>> t, s; std::unique_ptr<HMatrix<T>> h; D<T> R; char sym, uplo, trans; };
static Case a_case() {
    Case c;
    int k = sx_choice("storage", SX<T>::c ? 4 : 3), st = 1 + sx_choice("structure", 2), n = sx_param("n", 4);
    c.uplo = k == 0 ? 'N' : k == 2 ? 'U' : 'L'; c.sym = k == 0 ? 'N' : k == 3 ? 'H' : 'S';
    c.trans = k == 0 ? pick("trans", "NTC") : k == 3 ? pick("trans", "NC") : pick("trans", "NT");
    c.t.reset(new Cluster<double>(sxh::make_cluster(n, 2, 0, 1, 1)));
    if (k == 0) c.s.reset(new Cluster<double>(sxh::make_cluster(3, 2, 0, 1, 2)));
    sx_threads(1); // assembled sequentially here
    c.h = sxh::hm_over<T>(*c.t, c.s ? *c.s : *c.t, k == 0 && st == 2 ? 3 : st, {1, 2, 0, -1}, 0, 0.25, c.sym, c.uplo);
    sx_threads(2);
    c.R = sxh::represented<T>(*c.h, c.sym, c.uplo);
    return c;
}
SX_ENTRY(vector) {
    auto log = sxc::quiet();
    Case c = a_case();
    T al = SX<T>::real("alpha"), be = sx_choice("beta is one", 2) ? T(1) : SX<T>::real("beta");
    D<T> x = symD<T>(c.trans == 'N' ? c.R.n : c.R.m, 1, "x"), y = symD<T>(c.trans == 'N' ? c.R.m : c.R.n, 1, "y"), yy = y;
    openmp_internal_add_hmatrix_vector_product(c.trans, al, *c.h, x.v.data(), be, yy.v.data());
    eqD(yy, lin(al, mul(op(c.trans, c.R), x), be, y), PROD);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(row_major) {
    auto log = sxc::quiet();
    Case c = a_case();
    if (c.sym != 'N' && c.trans == 'C' && !SX<T>::c) sx_prune();
    int mu = sx_param("mu", 1);
    T al = SX<T>::real("alpha"), be = SX<T>::real("beta");
    int k = c.trans == 'N' ? c.R.n : c.R.m, m = c.trans == 'N' ? c.R.m : c.R.n;
    D<T> x = symD<T>(k, mu, "x"), y = symD<T>(m, mu, "y");
    std::vector<T> xr((size_t)(k * mu)), yr((size_t)(m * mu));
    for (int i = 0; i < k; i++) for (int j = 0; j < mu; j++) xr[i * mu + j] = x(i, j);
    for (int i = 0; i < m; i++) for (int j = 0; j < mu; j++) yr[i * mu + j] = y(i, j);
    openmp_internal_add_hmatrix_matrix_product_row_major(c.trans, 'N', al, *c.h, xr.data(), be, yr.data(), mu);
    D<T> got(m, mu);
    for (int i = 0; i < m; i++) for (int j = 0; j < mu; j++) got(i, j) = yr[i * mu + j];
    eqD(got, lin(al, mul(op(c.trans, c.R), x), be, y), PROD);
    sx_reach("end");
}
SX_ENTRY(scaling) {
    auto log = sxc::quiet();
    Case c = a_case();
    if (c.trans != 'N') sx_prune();
    T al = SX<T>::real("alpha");
    std::vector<D<T>> was;
    { std::vector<const HMatrix<T> *> L; sxh::leaves_of<T>(*c.h, L); for (auto l : L) was.push_back(sxh::leaf_dense<T>(*l)); }
    if (sx_choice("called", 2)) scale(al, *c.h); else openmp_scale(al, *c.h);
    std::vector<const HMatrix<T> *> L;
    sxh::leaves_of<T>(*c.h, L);
    for (size_t k = 0; k < L.size(); k++) { // what is stored is scaled
        D<T> got = sxh::leaf_dense<T>(*L[k]);
        for (size_t i = 0; i < got.v.size(); i++) SX<T>::eq(got.v[i], al * was[k].v[i], "parallel scaling");
    }
    sx_reach("end");
}
// compression without state: the factors of a block come from a pool prepared beforehand
struct Pool : VirtualLowRankGenerator<T> {
    D<T> U, V;
    int shift = 0;
    static int rank_of(const Cluster<double> &t, const Cluster<double> &s, int shift) { return (t.get_offset() + 2 * s.get_offset() + t.get_size() + shift) % 4 - 1; }
    void copy_low_rank_approximation(const VirtualInternalGenerator<T> &, const Cluster<double> &t, const Cluster<double> &s, double, int &rank, Matrix<T> &Uo, Matrix<T> &Vo) const override {
        int k = rank_of(t, s, shift);
        if (k < 0) return;
        rank = k;
        Uo.resize(t.get_size(), k);
        Vo.resize(k, s.get_size());
        for (int i = 0; i < t.get_size(); i++) for (int j = 0; j < k; j++) Uo(i, j) = U(t.get_offset() + i, j);
        for (int i = 0; i < k; i++) for (int j = 0; j < s.get_size(); j++) Vo(i, j) = V(i, s.get_offset() + j);
    }
};
static void built(const HMatrix<T> &h, const D<T> &A, const Cluster<double> &t, const Cluster<double> &s, int shift, const Pool *P, const ::std::string &fp) {
    std::vector<const HMatrix<T> *> L;
    sxh::leaves_of<T>(h, L);
    int failed = 0;
    for (auto l : L) {
        const Cluster<double> &a = l->get_target_cluster(), &b = l->get_source_cluster();
        bool adm = !sxh::overlap(a, b) || &t != &s;
        int k = adm ? Pool::rank_of(a, b, shift) : -1;
        if (&h == l) continue;
        sx_check(l->is_low_rank() == (adm && k >= 0) && l->is_dense() == !l->is_low_rank(), "kind of a block");
        if (adm && k < 0) failed++;
        D<T> got = sxh::leaf_dense<T>(*l), want(a.get_size(), b.get_size());
        for (int i = 0; i < want.m; i++) for (int j = 0; j < want.n; j++) {
            int gi = t.get_permutation()[a.get_offset() + i], gj = s.get_permutation()[b.get_offset() + j];
            if (l->is_dense()) want(i, j) = A(gi, gj);
            else for (int q = 0; q < k; q++) want(i, j) += P->U(a.get_offset() + i, q) * P->V(q, b.get_offset() + j);
        }
        eqD(got, want, "content of a block");
    }
    sx_check(fp == std::to_string(failed), "number of false positives");
}
SX_ENTRY(assembly) {
    auto log = sxc::quiet();
    bool sq = sx_choice("square", 2);
    int n = sx_param("n", 4), m = sq ? n : 3;
    Cluster<double> t = sxh::make_cluster(n, 2, 0, 1, 1), s0 = sxh::make_cluster(m, 2, 0, 1, 2);
    const Cluster<double> &s = sq ? t : s0;
    char u = sq ? pick("storage", "NL") : 'N', y = u == 'N' ? 'N' : 'S';
    auto P = std::make_shared<Pool>();
    P->shift = sx_choice("outcomes", 4);
    P->U = symD<T>(n, 2, "U");
    P->V = symD<T>(2, m, "V");
    HMatrixTreeBuilder<T> b(t, s, 0.1, 3, y, u, -1, -1, -1);
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(0, 0, !sq, true);
    ad->said[sxh::key(t, s)] = false;
    b.set_admissibility_condition(ad);
    b.set_low_rank_generator(P);
    D<T> A = sxh::coefficients<T>(n, m, y);
    sxh::SymGen<T> g(A);
    HMatrix<T> h = b.build(g);
    built(h, A, t, s, P->shift, P.get(), h.get_hmatrix_tree_data()->m_information["Number_of_false_positive"]);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
// the library's own compressors used from two threads
SX_ENTRY(compressors) {
    auto log = sxc::quiet();
    int n = sx_param("n", 4);
    Cluster<double> t = sxh::make_cluster(n, 2, 0, 1, 1);
    int which = sx_choice("compressor", 3);
    HMatrixTreeBuilder<T> b(t, t, 0.1, 3, 'N', 'N', -1, -1, -1);
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(0, 0, false, true);
    b.set_admissibility_condition(ad);
    std::shared_ptr<VirtualLowRankGenerator<T>> lr;
    if (which == 0) lr = std::make_shared<partialACA<T>>();
    else if (which == 1) lr = std::make_shared<sympartialACA<T>>();
    else lr = std::make_shared<fullACA<T>>();
    b.set_low_rank_generator(lr);
    D<T> A(n, n); // rank one
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = SX<T>::mk((i + 1) * (2 * j + 1), 0);
    sxh::SymGen<T> g(A);
    HMatrix<T> h = b.build(g);
    D<T> R = sxh::represented<T>(h);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SX<T>::eq(R(i, j), A(t.get_permutation()[i], t.get_permutation()[j]), "compressed block");
    sx_reach("end");
}
