#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
using namespace htool;
using namespace sxl;
typedef SXT T;
typedef Matrix<T> HM;
typedef LowRankMatrix<T> LM;
// the block's coefficients; records which whole rows and columns are asked for
struct BlockGen : VirtualInternalGenerator<T> {
    D<T> A;
    int ro, co;
    mutable std::vector<int> rows, cols;
    void copy_submatrix(int M, int N, int r, int c, T *p) const override {
        sx_check(M >= 0 && N >= 0 && r >= ro && c >= co && r + M <= ro + A.m && c + N <= co + A.n, "coefficients outside the block requested");
        if (M == 1 && N == A.n) rows.push_back(r - ro);
        if (N == 1 && M == A.m) cols.push_back(c - co);
        for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) p[i + M * j] = A(r - ro + i, c - co + j);
    }
};
static double re(T x) { return SX<T>::re(x); }
static double norm2(const D<T> &a) { double s = 0; for (auto &x : a.v) s += re(x * SX<T>::cj(x)); return s; }
struct Case { D<T> A; int rank_bound; }; // rank_bound: the rank of A is at most this
static D<T> outer(const std::vector<T> &u, const std::vector<T> &v) { D<T> r((int)u.size(), (int)v.size()); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) r(i, j) = u[i] * v[j]; return r; }
// exact in exact arithmetic; the divisions of concrete numbers are rounded, so up to that rounding
static void near0(T x, const char *what) { double q = re(x * SX<T>::cj(x)); if (!sx_same(q, 0.)) sx_check_le(q, 1e-16, what); }
static void nearD(const D<T> &a, const D<T> &b, const char *what) { for (size_t k = 0; k < a.v.size(); k++) near0(a.v[k] - b.v[k], what); }
static Case block(int which, int family, bool few) {
    Case c;
    if (family == 0) { // small, every coefficient free
        int m = 1 + sx_choice("m", sx_param("hi", 2)), n = 1 + sx_choice("n", sx_param("hi", 2));
        if (few) { static const double b[9] = {2, 1, -4, 3, 0, 1, 2, -1, 5}; c.A = D<T>(m, n); for (int k = 0; k < m * n; k++) c.A.v[k] = SX<T>::c ? SX<T>::mk(b[k], b[8 - k] / 4) : T(b[k]); c.A.v[sx_choice("free coefficient", m * n)] = T(sx_real("a")); }
        else c.A = symD<T>(m, n, "a");
        c.rank_bound = m < n ? m : n;
    } else if (family == 1) { // exactly rank 1 or 2
        int two = sx_choice("rank of the block", few && which ? 1 : 2);
        std::vector<T> u1{T(2), T(-1), T(0), T(4)}, v1{two ? T(1) : T(sx_real("v")), T(1), T(3), T(-2)}, u2{T(1), T(3), T(2), T(-1)}, v2{T(1), T(0), SX<T>::c ? SX<T>::mk(0, 2) : T(2), T(-3)};
        c.A = outer(u1, v1);
        if (two) { D<T> b = outer(u2, v2); T s = T(sx_real("s")); for (size_t k = 0; k < b.v.size(); k++) c.A.v[k] += s * b.v[k]; }
        c.rank_bound = 1 + two;
    } else if (family == 2) { // a fixed 4x4 block with some free coefficients
        static const double base[16] = {5, 1, 2, 0, 1, -4, 0, 1, 2, 1, 3, -1, 0, 2, 1, 6};
        c.A = D<T>(4, 4);
        for (int k = 0; k < 16; k++) c.A.v[k] = SX<T>::c && k / 4 == 1 ? SX<T>::mk(0, base[k]) : T(base[k]);
        int where = sx_choice("free coefficient", few && which ? 1 : 4);
        c.A(where, where ? 1 : 3) = T(sx_real("a"));
        c.rank_bound = 4;
    } else { // diagonal: zero rows and columns
        int n = 2 + 2 * sx_choice("size", 2);
        c.A = D<T>(n, n);
        for (int i = 0; i < n; i++) c.A(i, i) = i == 2 ? T(0) : T(sx_real("a"));
        c.rank_bound = n;
    }
    return c;
}
struct Log : IObjectWriter { int warnings = 0, errors = 0; void write(LogLevel l, const std::string &) override { if (l == LogLevel::WARNING) warnings++; if (l <= LogLevel::ERROR) errors++; } void set_log_level(LogLevel) override {} };
static void run(int which, int family) { // 0 full, 1 partial, 2 symmetric partial
    auto log = std::make_shared<Log>();
    Logger::get_instance().set_current_writer(log);
    Case c = block(which, family, which == 0 || SX<T>::c);
    const D<T> &A = c.A;
    int m = A.m, n = A.n;
    for (auto &x : A.v) { double q = re(x * SX<T>::cj(x)); sx_assume(q == 0 || q > 1e-6); sx_assume(q < 1e4); } // away from the 1e-15 pivot threshold
    static const double tol[4] = {0.5, 0.01, 0, 1};
    double eps = tol[sx_choice("tolerance", sx_param("tolerances", 2))];
    static const int reqs[4] = {-1, 1, 2, 3};
    bool given = SX<T>::c && which && family == 2; // too hard for the solver otherwise
    int req = reqs[given ? 1 + sx_choice("requested rank", 2) : sx_choice("requested rank", sx_param("ranks", 3))];
    // two one-level trees; the block pairs their second children, or a second and a first one
    Cluster<double> t = sxh::make_cluster(2 * m, 2, m - 1, 1, 1), s = sxh::make_cluster(2 * n, 2, n - 1, 1, 2);
    int pos = sx_choice("block position", which == 2 ? 2 : 1);
    const Cluster<double> *bt = &t, *bs = &s;
    while (bt->get_children().size() == 1) bt = bt->get_children()[0].get();
    while (bs->get_children().size() == 1) bs = bs->get_children()[0].get();
    bt = bt->get_children()[pos ? 0 : 1].get(); bs = bs->get_children()[pos ? 1 : 0].get();
    sx_check(bt->get_size() == m && bs->get_size() == n, "harness: block size");
    BlockGen g;
    g.A = A; g.ro = bt->get_offset(); g.co = bs->get_offset();
    std::shared_ptr<VirtualLowRankGenerator<T>> lr;
    if (which == 0) lr = std::make_shared<fullACA<T>>();
    if (which == 1) lr = std::make_shared<partialACA<T>>();
    if (which == 2) lr = std::make_shared<sympartialACA<T>>();
    int rank = req;
    HM hu, hv;
    lr->copy_low_rank_approximation(g, *bt, *bs, eps, rank, hu, hv);
    sx_check(log->errors == 0, "error logged");
    if (rank <= 0) {
        sx_check(hu.nb_rows() == 0 && hv.nb_cols() == 0, "a failed compression must leave the factors empty");
        sx_reach("failed");
        return;
    }
    int k = rank;
    sx_check(hu.nb_rows() == m && hu.nb_cols() == k && hv.nb_rows() == k && hv.nb_cols() == n, "shape of the factors");
    sx_check(k * (m + n) <= m * n, "factors larger than the block");
    sx_check(req < 0 || k <= req, "requested rank exceeded");
    D<T> U = toD<T>(hu), V = toD<T>(hv), E = lin(T(1), A, T(-1), mul(U, V));
    if (k >= c.rank_bound) nearD(mul(U, V), A, "a block of small enough rank must be reproduced exactly");
    if (which == 0) {
        if (req < 0) sx_check_le(norm2(E), eps * eps * norm2(A) + 1e-9 * norm2(A), "error of full-pivoting cross approximation above the tolerance");
        if (k < req && log->warnings == 0) nearD(mul(U, V), A, "fewer terms than requested only when the block is reproduced");
    } else {
        // the residual vanishes on every chosen row and column
        const std::vector<int> &first = which == 2 && g.ro < g.co ? g.cols : g.rows, &second = which == 2 && g.ro < g.co ? g.rows : g.cols;
        if (m > 1 && n > 1 && m != 1) {
            sx_check((int)first.size() >= k && (int)second.size() >= k, "as many crosses as terms");
            for (int q = 0; q < k; q++) {
                bool swap = which == 2 && g.ro < g.co;
                int i = swap ? second[q] : first[q], j = swap ? first[q] : second[q];
                for (int b = 0; b < n; b++) near0(E(i, b), "residual on a chosen row");
                for (int a = 0; a < m; a++) near0(E(a, j), "residual on a chosen column");
                for (int q2 = 0; q2 < q; q2++) sx_check((swap ? second[q2] != i : first[q2] != i) && (swap ? first[q2] != j : second[q2] != j), "a row or column chosen twice");
            }
        }
        if (req < 0) { // stops with the first cross whose relative norm is within the tolerance (or at a vanishing row, with a warning)
            D<T> S(m, n);
            for (int q = 0; q < k; q++) {
                D<T> X = outer(op('T', sub(U, 0, q, m, 1)).v, sub(V, q, 0, 1, n).v);
                S = lin(T(1), S, T(1), X);
                double a = norm2(X), f = norm2(S);
                if (q + 1 < k) sx_check_le(eps * eps * f, a + 1e-9 * f, "stopped later than the tolerance asks for");
                else if (log->warnings == 0) sx_check_le(a, eps * eps * f + 1e-9 * f, "stopped before the tolerance was reached");
            }
        } else if (k < req) sx_check(log->warnings > 0 || k == m || k == n, "fewer terms than requested without a warning");
    }
    sx_reach("compressed");
}
SX_ENTRY(full_small) { run(0, 0); }
SX_ENTRY(full_exact) { run(0, 1); }
SX_ENTRY(full_block) { run(0, 2); }
SX_ENTRY(full_zeros) { run(0, 3); }
SX_ENTRY(partial_small) { run(1, 0); }
SX_ENTRY(partial_exact) { run(1, 1); }
SX_ENTRY(partial_block) { run(1, 2); }
SX_ENTRY(partial_zeros) { run(1, 3); }
SX_ENTRY(sym_small) { run(2, 0); }
SX_ENTRY(sym_exact) { run(2, 1); }
SX_ENTRY(sym_block) { run(2, 2); }
SX_ENTRY(sym_zeros) { run(2, 3); }
