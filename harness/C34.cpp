// Domain decomposition: what htool hands to the iterative method (right-hand sides, operator, local systems) and how it returns the answer.
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/solvers/utility.hpp>
using namespace htool;
typedef SXT T;
typedef Cluster<double> C;
struct Case {
    int P, kind, mu, over;
    char sym, uplo;
    const C *t;
    const double *geometry;
    D<T> A, b, X, V, W, r; // user numbering; W = A V
    std::vector<std::vector<int>> l2g, ovr, in_ovr; // per rank: expected local numbering, subdomain with overlap, place of the cluster's points in it
    std::vector<std::vector<int>> neighbors;
    std::vector<std::vector<std::vector<int>>> shared;
    int ok = 0, solves = 0, method = -2;
    std::vector<D<T>> Z; // coarse vectors of each rank
    std::vector<T> E;    // and their operator (first entry)
};
static Case *cur;
template <class S> static void local_system(const S &s, int) {
    Case &k = *cur;
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    auto &g = k.l2g[r];
    int n = (int)g.size();
    std::vector<T> z(n), q(n);
    for (int i = 0; i < n; i++) z[i] = q[i] = k.r(g[i], 0);
    s.solve(z.data(), 1);
    for (int i = 0; i < n; i++) { T a(0); for (int j = 0; j < n; j++) a += k.A(g[i], g[j]) * z[j]; SX<T>::eq(a, q[i], "local solver does not solve the system of its subdomain"); }
}
static void local_system(const HPDDM::LapackTRSub<T> &s, int) {
    Case &k = *cur;
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    auto &g = k.l2g[r];
    int n = (int)g.size();
    sx_check(s.factored == 1 && s.n == n && s.sym == (k.sym != 'N'), "local solver set up for another matrix");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (k.sym == 'N' || i >= j) SX<T>::eq(s.a[i + j * n], k.A(g[i], g[j]), "local matrix handed to the solver");
}
template <class Op, class K> int sx_hpddm_solve(const Op &A, const K *b, K *x, int mu) {
    Case &k = *cur;
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    auto &g = k.l2g[r];
    int n = (int)g.size();
    sx_check(mu == k.mu && A.getDof() == n, "size of the local problem");
    for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) SX<T>::eq(b[c * n + i], k.b(g[i], c), "local part of the right-hand side");
    std::vector<T> in(n * mu), out(n * mu, T(7));
    for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) in[c * n + i] = k.V(g[i], c);
    if (mu == 1) A.GMV(in.data(), out.data());
    else A.GMV(in.data(), out.data(), mu);
    for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) { SX<T>::eq(out[c * n + i], k.W(g[i], c), "product applied by the iterative method"); SX<T>::eq(in[c * n + i], k.V(g[i], c), "product changes its input"); }
    local_system(A.getSolver(), 0);
    for (int i = 0; i < n; i++) sx_check(A.d_[i] == (i < (int)(k.l2g[r].size() - (k.ovr[r].size() - k.in_ovr[r].size())) ? 1 : 0), "partition of unity");
    if (k.method != -2) {
        typedef typename Op::Prcndtnr M;
        sx_check(A.type_ == (k.method == HPDDM_SCHWARZ_METHOD_ASM ? M::SY : k.method == HPDDM_SCHWARZ_METHOD_NONE ? M::NO : M::GE), "preconditioner asked for");
        sx_check(A.two_ == 1, "coarse operator");
        SX<T>::eq(A.E0_, k.E[r], "coarse operator");
        for (int c = 0; c < k.Z[r].n; c++) for (int i = 0; i < n; i++) SX<T>::eq(A.ev_[c][i], k.Z[r](i, c), "coarse vectors");
    }
    for (int c = 0; c < mu; c++) for (int i = 0; i < n; i++) x[c * n + i] = k.X(g[i], c);
    k.solves++;
    return 17;
}
struct Space : VirtualCoarseSpaceBuilder<T> {
    int r;
    Matrix<T> build_coarse_space() override { return fromD<Matrix<T>>(cur->Z[r]); }
};
struct Operator : VirtualCoarseOperatorBuilder<T> {
    int r, calls = 0;
    Matrix<T> build_coarse_operator(int m, int n, T **Z) override {
        D<T> &z = cur->Z[r];
        calls++;
        sx_check(m == z.m && n == z.n, "size of the coarse space handed to the coarse operator");
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) SX<T>::eq(Z[j][i], z(i, j), "coarse vectors handed to the coarse operator");
        Matrix<T> E(2, 2);
        E(0, 0) = cur->E[r];
        return E;
    }
};
template <class S> static void use(S &s, int r) {
    Case &k = *cur;
    int N = k.A.m;
    sx_check(s.local_to_global_numbering.size() >= k.l2g[r].size(), "local numbering");
    s.solver.facto_one_level();
    if (k.method != -2) {
        Space z;
        Operator e;
        z.r = e.r = r;
        s.solver.build_coarse_space(z, e);
        sx_check(e.calls == 1 && s.solver.get_nevi() == k.Z[r].n, "number of coarse vectors");
        sx_check(s.solver.get_information("GenEO_coarse_size") == "2", "size of the coarse problem");
        sx_barrier();
        auto &o = *HPDDM::Option::get();
        o.v.clear();
        if (k.method >= 0) o["schwarz_method"] = k.method;
        sx_barrier();
    }
    std::vector<T> x(N * k.mu, T(5));
    D<T> b = k.b;
    if (k.mu == 1) s.solver.solve(b.v.data(), x.data());
    else s.solver.solve(b.v.data(), x.data(), k.mu);
    eqD(b, k.b, "right-hand side changed");
    for (int c = 0; c < k.mu; c++) for (int i = 0; i < N; i++) SX<T>::eq(x[c * N + i], k.X(i, c), "solution returned in the caller's numbering");
    sx_check(s.solver.get_local_size() == (int)k.l2g[r].size(), "local size");
    sx_check(s.solver.get_information("Nb_it") == "17", "number of iterations reported");
    if (k.method != -2) {
        bool none = k.method == HPDDM_SCHWARZ_METHOD_NONE;
        sx_check(s.solver.get_information("Precond") == (none ? "None" : k.method == HPDDM_SCHWARZ_METHOD_ASM ? "ASM" : "RAS"), "preconditioner reported");
        s.solver.set_infos("a", "2");
        s.solver.add_infos("a", "3");
        s.solver.add_infos("b", "4");
        sx_check(s.solver.get_information("a") == (r ? "" : "5") && s.solver.get_information("b") == (r ? "" : "4"), "information kept on the first process");
        sx_check(s.solver.get_information()["htool_solver"] == "ddm" && (r || s.solver.get_information("Nb_subdomains") == NbrToStr(k.P)), "information reported");
        if (r == 0 && !none) {
            int lo = 9, hi = 0;
            for (auto &z : k.Z) { lo = std::min(lo, z.n); hi = std::max(hi, z.n); }
            sx_check(s.solver.get_information("DDM_local_coarse_size_max") == NbrToStr(hi) && s.solver.get_information("DDM_local_coarse_size_min") == NbrToStr(lo), "sizes of the coarse spaces reported");
        }
    }
    sx_barrier();
    k.ok++;
}
// the tree the library built over the subdomain: every node sits at the mean of its points
static void placed(const C &c, const std::vector<int> &g) {
    Case &k = *cur;
    auto &pm = c.get_permutation();
    for (int d = 0; d < 2; d++) {
        double m = 0;
        for (int i = 0; i < c.get_size(); i++) m += k.geometry[2 * g[pm[c.get_offset() + i]] + d];
        double e = c.get_center()[d] * c.get_size() - m;
        sx_check(e < 1e-9 && e > -1e-9, "local cluster tree over other points than the subdomain's");
    }
    for (auto &x : c.get_children()) placed(*x, g);
}
static void rank_main(int r, void *a) {
    Case &k = *(Case *)a;
    sxh::SymGen<T> g(k.A);
    DefaultApproximationBuilder<T> def(g, *k.t, *k.t, 0., -1., k.sym, k.uplo, MPI_COMM_WORLD);
    auto &d = def.distributed_operator;
    auto *diag = const_cast<HMatrix<T> *>(def.block_diagonal_hmatrix);
    typedef DDMSolverWithDenseLocalSolver<T> Dense;
    typedef DDMSolverBuilder<T> Hier;
    switch (k.kind) {
    case 0: { Dense s(d, *diag); use(s, r); break; }
    case 1: { Dense s(d, *diag, g, k.ovr[r], k.in_ovr[r], k.neighbors[r], k.shared[r]); use(s, r); break; }
    case 2: { Dense s(d, k.ovr[r], k.in_ovr[r], k.neighbors[r], k.shared[r], g, 2, k.geometry, 0., -1.); placed(s.local_hmatrix->get_target_cluster(), k.l2g[r]); use(s, r); break; }
    case 3: { HMatrix<T> copy(*diag); Hier s(d, copy); use(s, r); break; }
    case 4: { HMatrix<T> copy(*diag); Hier s(d, copy, g, k.ovr[r], k.in_ovr[r], k.neighbors[r], k.shared[r]); use(s, r); break; }
    default: { Hier s(d, k.ovr[r], k.in_ovr[r], k.neighbors[r], k.shared[r], g, 2, k.geometry, 0., -1.); placed(s.local_hmatrix->get_target_cluster(), k.l2g[r]); use(s, r); }
    }
}
static T G(int i, int j) { return i < j ? T(0) : i == j ? T(2 + i % 2) : SX<T>::mk(1 + (i + 2 * j) % 3 * 0.5, (i - 2 * j) * 0.5); }
static void run(int first, bool levels = false) {
    auto log = sxc::quiet();
    Case k;
    cur = &k;
    k.kind = first + sx_choice("solver", levels ? 2 : 3);
    bool own = k.kind % 3 == 2; // the library clusters the subdomain itself, with its default leaf size
    int N = own ? 22 : 5;
    k.P = 1 + sx_choice("processes", own ? 2 : sx_param("processes", 3));
    k.over = own ? N : k.kind % 3 ? sx_choice("overlap", 3) : 0;
    k.mu = 1 + sx_choice("columns", 2);
    k.uplo = pick("storage", "NL");
    k.sym = k.uplo == 'N' ? 'N' : SX<T>::c ? 'H' : 'S';
    static const std::vector<int> parts[] = {{0, 5}, {0, 2, 2, 3}, {0, 2, 2, 1, 3, 2}};
    bool given = !own && sx_choice("given partition", 2);
    C t = sxh::make_cluster(N, 2, 0, k.P, 1, given ? &parts[k.P - 1] : nullptr);
    k.t = &t;
    double geometry[44];
    for (int i = 0; i < 2 * N; i++) geometry[i] = (i * 7) % 10 + 0.25 * i;
    k.geometry = geometry;
    k.A = D<T>(N, N);
    sx_exact_arithmetic(1);
    if (first && (own || k.sym != 'N')) { // points coupled in pairs: the factors are rational in any order
        static const int five[5][4] = {{0, 1, 2, 3}, {0, 2, 3, 4}, {0, 3, 1, 4}, {0, 4, 1, 2}, {1, 3, 2, 4}};
        int m = sx_choice("coupling", own ? 2 : 5);
        for (int i = 0; i < N; i++) k.A(i, i) = T(25);
        for (int q = 0; q < (own ? N / 2 : 2); q++) {
            int i = own ? (m ? 2 * q : q) : five[m][2 * q], j = own ? (m ? 2 * q + 1 : q + N / 2) : five[m][2 * q + 1];
            k.A(i, j) = SX<T>::c && q % 2 == 0 ? SX<T>::mk(9, 12) : T(15);
            k.A(j, i) = k.sym == 'N' ? T(q % 3 ? 40 : 5) : SX<T>::cj(k.A(i, j));
        }
    } else for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { T s(i == j ? 3 : 0); for (int q = 0; q < N; q++) s += G(i, q) * SX<T>::cj(G(j, q)); k.A(i, j) = k.sym == 'N' && i < j ? s + SX<T>::mk(0.5 * i - j, 0.25) : s; }
    k.b = symD<T>(N, k.mu, "b"); k.X = symD<T>(N, k.mu, "x"); k.V = symD<T>(N, k.mu, "v"); k.r = symD<T>(N, 1, "r");
    k.W = mul(k.A, k.V);
    auto &pm = t.get_permutation();
    for (int p = 0; p < k.P; p++) { // the overlap: up to so many points of the next ones
        const C &m = *t.get_clusters_on_partition()[p];
        std::vector<int> mine(pm.begin() + m.get_offset(), pm.begin() + m.get_offset() + m.get_size()), all = mine, in;
        for (int q = 0; q < k.over && k.P > 1; q++) { int c = pm[(m.get_offset() + m.get_size() + q) % N]; if (std::find(all.begin(), all.end(), c) == all.end()) all.push_back(c); }
        std::vector<int> ovr = all;
        for (size_t i = 1; i < ovr.size(); i++) for (size_t j = i; j && ovr[j - 1] > ovr[j]; j--) std::swap(ovr[j], ovr[j - 1]);
        for (int x : mine) in.push_back((int)(std::find(ovr.begin(), ovr.end(), x) - ovr.begin()));
        std::vector<int> l2g = mine;
        for (int x : ovr) if (std::find(mine.begin(), mine.end(), x) == mine.end()) l2g.push_back(x);
        k.ovr.push_back(ovr); k.in_ovr.push_back(in); k.l2g.push_back(l2g);
    }
    for (int p = 0; p < k.P; p++) {
        std::vector<int> nb;
        std::vector<std::vector<int>> sh;
        for (int q = 0; q < k.P; q++) if (q != p) {
            std::vector<int> s;
            for (size_t i = 0; i < k.ovr[p].size(); i++) if (std::find(k.ovr[q].begin(), k.ovr[q].end(), k.ovr[p][i]) != k.ovr[q].end()) s.push_back((int)i);
            if (s.size()) { nb.push_back(q); sh.push_back(s); }
        }
        k.neighbors.push_back(nb); k.shared.push_back(sh);
    }
    HPDDM::Option::get()->v.clear();
    if (levels) {
        static const int m[] = {-1, HPDDM_SCHWARZ_METHOD_RAS, HPDDM_SCHWARZ_METHOD_ASM, HPDDM_SCHWARZ_METHOD_NONE};
        k.method = m[sx_choice("method", 4)];
        int first = sx_choice("coarse vectors", 3);
        for (int p = 0; p < k.P; p++) { k.Z.push_back(symD<T>((int)k.l2g[p].size(), (first + p) % 3, "z")); k.E.push_back(SX<T>::real("e")); }
    }
    HPDDM::sx_slots<T>::get().assign(k.P * k.P, std::vector<T>());
    sx_run_ranks(k.P, rank_main, &k);
    sx_check(k.ok == k.P && k.solves == k.P, "a rank did not finish");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(dense) { run(0); }
SX_ENTRY(hier) { run(3); }
SX_ENTRY(levels) { run(0, true); }
