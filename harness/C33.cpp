// GenEO: the local coarse space (the pencil handed to LAPACK, the eigenvectors kept) and the assembled coarse operator.
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
using namespace htool;
typedef SXT T;
typedef Cluster<double> C;
typedef std::complex<double> Z;
static const char H = SX<T>::c ? 'H' : 'S';
// what LAPACK was asked, and what it answers: any eigenvalues and eigenvectors
static struct Pencil { int n = 0, queries = 0, calls = 0; bool sym = false; char uplo = 'N'; D<T> A, B, V; std::vector<double> w; std::vector<T> alpha, beta; } pencil;
static void ask(bool sym, int itype, char job, char uplo, int n, const T *a, int lda, const T *b, int ldb, int lwork, T *work, int need) {
    sx_check(job == 'V' && n == pencil.n && lda >= n && ldb >= n && sym == pencil.sym && (!sym || itype == 1), "generalised eigenvalue problem of the wrong kind");
    if (lwork == -1) { work[0] = T(need); pencil.queries++; return; }
    sx_check(lwork >= need, "workspace of the eigenvalue solver");
    pencil.calls++;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!sym || i == j || (i > j) == (uplo == 'L')) { SX<T>::eq(a[i + j * lda], pencil.A(i, j), "left matrix of the eigenvalue problem"); SX<T>::eq(b[i + j * ldb], pencil.B(i, j), "right matrix of the eigenvalue problem"); }
    for (int i = 0; i < need; i++) work[i] = T(7);
}
static void symmetric(int itype, char job, char uplo, int n, T *a, int lda, T *b, int ldb, double *w, T *work, int lwork, int *info) {
    ask(true, itype, job, uplo, n, a, lda, b, ldb, lwork, work, 3 * n);
    *info = 0;
    if (lwork == -1) return;
    sx_check(uplo == pencil.uplo, "triangle given to the eigenvalue solver");
    for (int i = 0; i < n; i++) { w[i] = pencil.w[i]; for (int j = 0; j < n; j++) { a[i + j * lda] = pencil.V(i, j); b[i + j * ldb] = T(-3); } }
}
static void general(char jl, char jr, int n, T *a, int lda, T *b, int ldb, T *al, T *be, T *vr, int ldvr, T *work, int lwork, int *info) {
    ask(false, 1, jr, 'N', n, a, lda, b, ldb, lwork, work, 8 * n);
    *info = 0;
    if (lwork == -1) return;
    sx_check(jl == 'N' && ldvr >= n, "eigenvectors asked for");
    for (int i = 0; i < n; i++) { al[i] = pencil.alpha[i]; be[i] = pencil.beta[i]; for (int j = 0; j < n; j++) { vr[i + j * ldvr] = pencil.V(i, j); a[i + j * lda] = T(5); b[i + j * ldb] = T(-3); } }
}
template <class S> void dsym(const int *it, const char *job, const char *uplo, const int *n, S *a, const int *lda, S *b, const int *ldb, double *w, S *work, const int *lwork, int *info) { sx_fail("eigenvalue solver of the other precision"); }
template <> void dsym<T>(const int *it, const char *job, const char *uplo, const int *n, T *a, const int *lda, T *b, const int *ldb, double *w, T *work, const int *lwork, int *info) { symmetric(*it, *job, *uplo, *n, a, *lda, b, *ldb, w, work, *lwork, info); }
template <class S> void dgen(const char *jl, const char *jr, const int *n, S *a, const int *lda, S *b, const int *ldb, S *al, S *be, S *vr, const int *ldvr, S *work, const int *lwork, int *info) { sx_fail("eigenvalue solver of the other precision"); }
template <> void dgen<T>(const char *jl, const char *jr, const int *n, T *a, const int *lda, T *b, const int *ldb, T *al, T *be, T *vr, const int *ldvr, T *work, const int *lwork, int *info) { general(*jl, *jr, *n, a, *lda, b, *ldb, al, be, vr, *ldvr, work, *lwork, info); }
extern "C" {
void dsygv_(const int *it, const char *job, const char *uplo, const int *n, double *a, const int *lda, double *b, const int *ldb, double *w, double *work, const int *lwork, int *info) { dsym<double>(it, job, uplo, n, a, lda, b, ldb, w, work, lwork, info); }
void zhegv_(const int *it, const char *job, const char *uplo, const int *n, Z *a, const int *lda, Z *b, const int *ldb, double *w, Z *work, const int *lwork, double *rwork, int *info) {
    if (*lwork != -1) for (int i = 0; i < 3 * *n - 2; i++) rwork[i] = 1;
    dsym<Z>(it, job, uplo, n, a, lda, b, ldb, w, work, lwork, info);
}
void dggev_(const char *jl, const char *jr, const int *n, double *a, const int *lda, double *b, const int *ldb, double *ar, double *ai, double *be, double *, const int *, double *vr, const int *ldvr, double *work, const int *lwork, int *info) {
    if (*lwork != -1) for (int i = 0; i < *n; i++) ai[i] = 0;
    dgen<double>(jl, jr, n, a, lda, b, ldb, ar, be, vr, ldvr, work, lwork, info);
}
void zggev_(const char *jl, const char *jr, const int *n, Z *a, const int *lda, Z *b, const int *ldb, Z *al, Z *be, Z *, const int *, Z *vr, const int *ldvr, Z *work, const int *lwork, double *rwork, int *info) {
    if (*lwork != -1) for (int i = 0; i < 8 * *n; i++) rwork[i] = 1;
    dgen<Z>(jl, jr, n, a, lda, b, ldb, al, be, vr, ldvr, work, lwork, info);
}
}
// how the builder is given its data: with a number of vectors or a threshold
struct Ask { bool thr; int nu; double threshold; };
static Ask wanted(int n) {
    Ask q{sx_choice("threshold", 2) == 1, 0, 0};
    if (q.thr) { if (SX<T>::c && !pencil.sym) q.threshold = (const double[]){0.5, 2, 4, 9}[sx_choice("threshold value", 4)]; else { q.threshold = sx_real("threshold"); sx_assume(q.threshold > 0 && q.threshold < 1e20); } }
    else q.nu = sx_choice("vectors", n + 1);
    return q;
}
// any spectrum, without ties; infinite eigenvalues (beta = 0) where the solver may report them
static void spectrum(int n) {
    pencil.V = symD<T>(n, n, "v");
    pencil.w.resize(n); pencil.alpha.resize(n); pencil.beta.resize(n);
    int inf = pencil.sym ? n : sx_choice("infinite eigenvalue", n + 1), rot = SX<T>::c && !pencil.sym ? sx_choice("order of the spectrum", n) : 0;
    static const double b[] = {1, 2, 0.5};
    for (int i = 0; i < n; i++) {
        double m;
        if (pencil.sym) m = pencil.w[i] = sx_real("w");
        else if (SX<T>::c) { // moduli 1, 2.5, 5
            static const double re[] = {0, 1.5, -3}, im[] = {-1, 2, 4};
            int k = (i + rot) % 3;
            pencil.beta[i] = T(i == inf ? 0 : b[i]);
            pencil.alpha[i] = SX<T>::mk(re[k] * b[i], im[k] * b[i]);
            m = k == 0 ? 1 : k == 1 ? 2.5 : 5;
        } else {
            double a = sx_real("alpha");
            pencil.alpha[i] = T(a);
            pencil.beta[i] = T(i == inf ? 0 : b[i]);
            m = a / b[i];
        }
        if (i == inf) pencil.w[i] = 1e30; else pencil.w[i] = m < 0 ? -m : m;
        if (i == inf) continue;
        if (pencil.sym) pencil.w[i] = m;
    }
    auto ab = [](double x) { return x < 0 ? -x : x; };
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(ab(pencil.w[i]) != ab(pencil.w[j]));
    if (inf < n && !SX<T>::c) for (int i = 0; i < n; i++) if (i != inf) sx_assume(pencil.w[i] < 1e20);
}
static void kept(const Matrix<T> &Zm, int n, int wo, const Ask &q) {
    auto ab = [](double x) { return x < 0 ? -x : x; };
    sx_check(pencil.calls == 1, "eigenvalue problem not solved exactly once");
    std::vector<int> o;
    for (int i = 0; i < n; i++) { size_t p = 0; while (p < o.size() && ab(pencil.w[o[p]]) > ab(pencil.w[i])) p++; o.insert(o.begin() + p, i); }
    int nu = q.nu;
    if (q.thr) for (nu = 0; nu < n && ab(pencil.w[o[nu]]) > q.threshold; nu++) {}
    sx_check(Zm.nb_rows() == n && Zm.nb_cols() == nu, "size of the coarse space");
    for (int c = 0; c < nu; c++) for (int i = 0; i < n; i++) SX<T>::eq(Zm(i, c), i < wo ? pencil.V(i, o[c]) : T(0), i < wo ? "coarse vector" : "coarse vector does not vanish on the overlap");
}
static void ask_for(int n, bool sym, char uplo) { pencil = Pencil(); pencil.n = n; pencil.sym = sym; pencil.uplo = uplo; }
SX_ENTRY(space) {
    int n = 1 + sx_choice("order", 3), wo = 1 + sx_choice("without overlap", n);
    bool sym = sx_choice("symmetric", 2), small = wo < n && sx_choice("interior matrix", 2);
    char uplo = sym ? pick("triangle", "LU") : 'N';
    ask_for(n, sym, uplo);
    D<T> A = symD<T>(small ? wo : n, small ? wo : n, "A");
    pencil.B = symD<T>(n, n, "B");
    pencil.A = D<T>(n, n);
    for (int i = 0; i < wo; i++) for (int j = 0; j < wo; j++) pencil.A(i, j) = A(i, j);
    Ask q = wanted(n);
    spectrum(n);
    Matrix<T> a = fromD<Matrix<T>>(A), b = fromD<Matrix<T>>(pencil.B);
    auto g = q.thr ? GeneoCoarseSpaceDenseBuilder<T>::GeneoWithThreshold(wo, n, a, b, sym ? H : 'N', uplo, q.threshold) : GeneoCoarseSpaceDenseBuilder<T>::GeneoWithNu(wo, n, a, b, sym ? H : 'N', uplo, q.nu);
    kept(g.build_coarse_space(), n, wo, q);
    eqM(a, A, "local matrix changed");
    eqM(b, pencil.B, "right matrix changed");
    sx_reach("end");
}
// the local matrix is an H-matrix: of the subdomain (cluster numbering) or of the subdomain with overlap (its own numbering)
SX_ENTRY(space_h) {
    auto log = sxc::quiet();
    int kind = sx_choice("kind", 3), extra = sx_choice("overlap", 2);
    if (kind == 2) extra = 1;
    bool sym = sx_choice("symmetric", 2);
    char uplo = sym ? pick("triangle", "LU") : 'N';
    C t = sxh::make_cluster(kind == 1 ? 5 : 3, 2, 0, kind == 1 ? 2 : 1, 1);
    const C &c = kind == 1 ? *t.get_clusters_on_partition()[1] : t;
    auto h = sxh::hm_over<T>(c, c, 1 + sx_choice("structure", 2), {1, 0, -1}, 0, 0, sym ? H : 'N', uplo);
    D<T> R = sxh::represented<T>(*h, sym ? H : 'N', uplo), U(R.m, R.n);
    int m = R.m;
    if (kind == 2) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) U(c.get_permutation()[i + c.get_offset()] - c.get_offset(), c.get_permutation()[j + c.get_offset()] - c.get_offset()) = R(i, j);
    bool whole = kind == 2; // the matrix covers the overlap
    int n = whole ? m : m + 1, wo = whole ? m - extra : m;
    if (kind != 2 && !extra) sx_prune();
    ask_for(n, sym, uplo);
    pencil.B = symD<T>(n, n, "B");
    pencil.A = D<T>(n, n);
    for (int i = 0; i < wo; i++) for (int j = 0; j < wo; j++) pencil.A(i, j) = whole ? U(i, j) : R(i, j);
    if (sym && whole) sx_prune(); // the stored triangle is that of the cluster numbering
    Ask q = wanted(1);
    for (int i = 0; i < n; i++) { pencil.w.push_back(2 + i); pencil.alpha.push_back(T(2 + i)); pencil.beta.push_back(T(1)); }
    pencil.V = symD<T>(n, n, "v");
    Matrix<T> b = fromD<Matrix<T>>(pencil.B);
    auto g = q.thr ? GeneoCoarseSpaceDenseBuilder<T>::GeneoWithThreshold(wo, n, *h, b, sym ? H : 'N', uplo, q.threshold) : GeneoCoarseSpaceDenseBuilder<T>::GeneoWithNu(wo, n, *h, b, sym ? H : 'N', uplo, q.nu);
    kept(g.build_coarse_space(), n, wo, q);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
// Z^T A Z on the first process, one column per coarse vector and process, row major
struct Coarse { int P, extra; char sym, uplo; const C *t; D<T> A, Z; std::vector<int> nu; int how, ok = 0; };
static void coarse_rank(int r, void *a) {
    Coarse &k = *(Coarse *)a;
    const C &mine = *k.t->get_clusters_on_partition()[r];
    int n = mine.get_size() + k.extra, first = 0, all = 0;
    for (int p = 0; p < k.P; p++) { if (p < r) first += k.nu[p]; all += k.nu[p]; }
    sxh::SymGen<T> g(k.A);
    DefaultApproximationBuilder<T> def(g, *k.t, *k.t, 0.1, -1., k.sym, k.uplo, MPI_COMM_WORLD);
    std::vector<std::vector<T>> z(k.nu[r]);
    std::vector<T *> zp;
    for (int j = 0; j < k.nu[r]; j++) {
        for (int i = 0; i < n; i++) z[j].push_back(i < mine.get_size() ? k.Z(mine.get_offset() + i, first + j) : T(3)); // what the overlap holds does not matter
        zp.push_back(z[j].data());
    }
    Matrix<T> E = GeneoCoarseOperatorBuilder<T>(def.distributed_operator).build_coarse_operator(n, k.nu[r], zp.data());
    if (r == 0) {
        auto &pm = k.t->get_permutation();
        D<T> S(k.A.m, k.A.n);
        for (int i = 0; i < S.m; i++) for (int j = 0; j < S.n; j++) S(i, j) = k.A(pm[i], pm[j]);
        D<T> X = mul(op('T', k.Z), mul(S, k.Z));
        sx_check(E.nb_rows() == all && E.nb_cols() == all, "size of the coarse operator");
        for (int i = 0; i < all; i++) for (int j = 0; j < all; j++) SX<T>::eq(E.data()[i * all + j], X(i, j), "entry of the coarse operator");
    }
    sx_barrier();
    k.ok++;
}
SX_ENTRY(coarse) {
    auto log = sxc::quiet();
    Coarse k;
    k.P = 1 + sx_choice("processes", sx_param("processes", 3));
    static const std::vector<int> parts[] = {{0, 5}, {0, 2, 2, 3}, {0, 2, 2, 1, 3, 2}};
    C t = sxh::make_cluster(5, 2, 0, k.P, 1, sx_choice("given partition", 2) ? &parts[k.P - 1] : nullptr);
    k.t = &t;
    k.uplo = pick("storage", "NLU");
    k.sym = k.uplo == 'N' ? 'N' : 'S';
    k.extra = sx_choice("overlap", 2);
    int c = sx_choice("vectors", 4), all = 0;
    static const int nu[4][3] = {{1, 1, 1}, {2, 1, 0}, {0, 2, 1}, {0, 0, 0}};
    for (int p = 0; p < k.P; p++) { k.nu.push_back(nu[c][p]); all += nu[c][p]; }
    k.A = sxh::coefficients<T>(5, 5, k.sym);
    k.Z = D<T>(5, all); // the vectors of a process vanish outside its part
    for (int p = 0, j = 0; p < k.P; p++) for (int q = 0; q < k.nu[p]; q++, j++) { const C &m = *t.get_clusters_on_partition()[p]; for (int i = 0; i < m.get_size(); i++) k.Z(m.get_offset() + i, j) = SX<T>::real("z"); }
    sx_run_ranks(k.P, coarse_rank, &k);
    sx_check(k.ok == k.P, "a rank did not finish");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
