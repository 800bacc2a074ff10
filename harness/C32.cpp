// Local solvers: factorise the local matrix, solve several times, substitute the answers back into the local system.
#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <HPDDM.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
using namespace htool;
typedef SXT T;
typedef Matrix<T> HM;
static const char H = SX<T>::c ? 'H' : 'S';
// generic numbers; those of the Hermitian kind are G G^H with a rational G
static T G(int i, int j) { return i < j ? T(0) : i == j ? T(2 + i % 2) : SX<T>::mk(1 + (i + 2 * j) % 3 * 0.5, (i - 2 * j) * 0.5); }
static T fixed(int i, int j) { T r(0); for (int k = 0; k < 5; k++) r += G(i, k) * SX<T>::cj(G(j, k)); return i < j ? r + SX<T>::mk(0.5 * i - j, 0.25) : r; }
// small orders: every entry free; beyond: one free entry, the others fixed generic numbers
// the free ones lie in rows and columns o .. o + k - 1
static D<T> entries(int n, bool few, bool lower, int o, int k) {
    if (few) sx_exact_arithmetic(1);
    int f = few ? sx_choice("free entry", sx_param("free", 2)) : -1;
    int z = o + k - 1, y = k > 1 ? z - 1 : z, at[2][2] = {{z, y}, {lower ? z : y, z}};
    D<T> A(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = f < 0 || (i == at[f][0] && j == at[f][1]) ? SX<T>::real("A") : fixed(i, j);
    return A;
}
// one or two solves with either signature and 0 to 2 columns
static void solves(const VirtualLocalSolver<T> &s, const D<T> &K, const char *msg) {
    int times = sx_param("solves", 2);
    for (int q = 0; q < times; q++) {
        int mu = times > 1 ? sx_choice("columns", 3) : 1 + sx_choice("columns", 2), n = K.m;
        D<T> B(n, mu);
        for (int j = 0; j < mu; j++) for (int i = 0; i < n; i++) B(i, j) = SX<T>::c && q == 0 && times > 1 ? SX<T>::mk(1 - i, j - 0.5 * i) : SX<T>::real("b"); // complex: only the last right-hand sides are free
        D<T> X = B;
        if (sx_choice("in place", 2)) s.solve(X.v.data(), (unsigned short)mu);
        else {
            for (auto &x : X.v) x = SX<T>::real("x");
            D<T> B0 = B;
            const T *b = B0.v.data();
            s.solve(b, X.v.data(), (unsigned short)mu);
            eqD(B0, B, "right-hand side changed");
        }
        eqD(mul(K, X), B, msg);
    }
}
SX_ENTRY(dense) {
    int n = 1 + sx_choice("order", 3);
    D<T> A = entries(n, SX<T>::c && n > 1, false, 0, n);
    HM a = fromD<HM>(A);
    LocalDenseSolver<T> s(a);
    s.numfact(nullptr);
    solves(s, A, "dense local solver");
    sx_reach("end");
}
static D<T> user(const Cluster<double> &c, const D<T> &R) {
    D<T> U(R.m, R.n);
    auto &p = c.get_permutation();
    int o = c.get_offset();
    for (int i = 0; i < R.m; i++) for (int j = 0; j < R.n; j++) U(p[o + i] - o, p[o + j] - o) = R(i, j);
    return U;
}
// the local H-matrix: over a whole tree, or over one process's cluster of a partitioned tree
struct Local { std::unique_ptr<Cluster<double>> t; const Cluster<double> *c; std::unique_ptr<HMatrix<T>> h; D<T> R; char sym, uplo; };
static Local local(const D<T> *A, int shape, int st, int cyc, char sym, char uplo, bool plain) {
    static const std::vector<int> part = {0, 2, 2, 3};
    Local l;
    l.t.reset(new Cluster<double>(shape == 0 ? sxh::make_cluster(3, 2, 0, 1, 1) : sxh::make_cluster(5, 2, 0, 2, 1, &part)));
    l.c = shape == 0 ? l.t.get() : l.t->get_clusters_on_partition()[shape - 1];
    l.sym = sym; l.uplo = uplo;
    l.h = sxh::hm_over<T>(*l.c, *l.c, st, {1, 0, -1}, cyc, 0, sym, uplo, -1, -1, true, A, plain);
    l.R = sym == 'N' ? sxh::represented<T>(*l.h) : sxh::represented<T>(*l.h, sym, uplo);
    return l;
}
static D<T> sym_entries(int n, bool few, char sym, int o, int k) { D<T> A = entries(n, few, sym != 'N', o, k); return sym == 'N' ? A : mirror(A, 'L', sym); }
SX_ENTRY(hmat) {
    auto log = sxc::quiet();
    int shape = sx_choice("shape", 3);
    char uplo = pick("storage", "NLU"), sym = uplo == 'N' ? 'N' : H;
    int st = 1 + sx_choice("structure", 2), cyc = st == 1 ? 0 : sx_choice("compression outcomes", 3);
    D<T> A = sym_entries(shape == 0 ? 3 : 5, SX<T>::c || shape == 2, sym, shape == 2 ? 2 : 0, shape == 1 ? 2 : 3);
    Local l = local(&A, shape, st, cyc, sym, uplo, SX<T>::c);
    bool perm = sx_choice("user numbering", 2);
    LocalHMatrixSolver<T> s(*l.h, perm);
    s.numfact(nullptr);
    solves(s, perm ? user(*l.c, l.R) : l.R, "hierarchical local solver");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(overlap) {
    auto log = sxc::quiet();
    int shape = 1 + sx_choice("shape", 2), st = 1 + sx_choice("structure", 2), cyc = st == 1 ? 0 : sx_choice("compression outcomes", 3);
    char uplo = pick("storage", "NLU"), sym = uplo == 'N' ? 'N' : H;
    sx_exact_arithmetic(1);
    // the free entries: inside the local H-matrix, in one of the coupling blocks or in the overlap's own block
    int where = SX<T>::c ? 3 : sx_choice("free block", 4); // complex: only the last pivot (nested complex quotients grow too fast)
    D<T> A(5, 5);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) A(i, j) = where == 0 && ((i == 4 && j == 3) || (i == 1 && j == 0)) ? SX<T>::real("A") : fixed(i, j);
    if (sym != 'N') A = mirror(A, 'L', sym);
    Local l = local(&A, shape, st, cyc, sym, uplo, true);
    int n1 = l.R.m, n2 = where == 3 ? sx_choice("overlap", 3) : 1;
    D<T> B(n1, n2), C(n2, n1), Dd(n2, n2);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) B(i, j) = where == 1 && i == 0 && j == 0 ? SX<T>::real("e") : fixed(i, j + n1);
    for (int i = 0; i < n2; i++) for (int j = 0; j < n1; j++) C(i, j) = sym == 'N' ? (where == 2 && i == n2 - 1 && j == n1 - 1 ? SX<T>::real("e") : fixed(i + n1, j)) : SX<T>::cj(B(j, i));
    for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) Dd(i, j) = where == 3 && i == n2 - 1 && j == n2 - 1 ? SX<T>::real("d") : fixed(i + n1, j + n1);
    if (sym != 'N') Dd = mirror(Dd, 'L', sym);
    D<T> K(n1 + n2, n1 + n2);
    for (int i = 0; i < n1 + n2; i++) for (int j = 0; j < n1 + n2; j++) K(i, j) = i < n1 ? (j < n1 ? l.R(i, j) : B(i, j - n1)) : j < n1 ? C(i - n1, j) : Dd(i - n1, j - n1);
    HM b, c, d = fromD<HM>(Dd);
    // symmetric storage: only the block on the stored side is given
    if (uplo != 'L' && n2) b = fromD<HM>(B);
    if (uplo != 'U' && n2) c = fromD<HM>(C);
    LocalHMatrixPlusOverlapSolver<T> s(*l.h, b, c, d);
    s.numfact(nullptr);
    solves(s, K, "hierarchical local solver with overlap");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
