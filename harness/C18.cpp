// Products of two H-matrices into a dense, low-rank or H-matrix destination. All tolerances are 0.
#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
using namespace htool;
typedef SXT T;
static T beta_of(int k) { return k == 0 ? T(1) : k == 1 ? SX<T>::real("beta") : T(0); }
struct Ops { const Cluster<double> *o, *m, *i; int ap = -1; }; // clusters of the rows of op(A), of the sum, of the columns of op(B)
static void product(const Ops &c, int sa, int sb, int sc, int cyc, int cyc0, int dest, const char *trs, int br) {
    auto log = sxc::quiet();
    char ta = pick("transa", trs), tb = pick("transb", trs);
    // compression outcomes: a matrix that is one low-rank leaf starts with a positive rank (2 for the second of two)
    std::vector<int> ranks{1, 0, -1}, wide{2, 0, -1};
    int ca = sa == 4 ? cyc - cyc0 : cyc, cb = sb == 4 ? cyc - cyc0 : cyc + 1;
    const std::vector<int> &rb = sa == 4 && sb == 4 ? wide : ranks;
    const Cluster<double> &o = *c.o, &m = *c.m, &i = *c.i;
    auto A = ta == 'N' ? sxh::hm_over<T>(o, m, sa, ranks, ca, 0) : sxh::hm_over<T>(m, o, sa, ranks, ca, 0);
    auto B = tb == 'N' ? sxh::hm_over<T>(m, i, sb, rb, cb, 0) : sxh::hm_over<T>(i, m, sb, rb, cb, 0);
    D<T> RA = sxh::represented<T>(*A), RB = sxh::represented<T>(*B);
    T al = SX<T>::real("alpha"), be = beta_of(sx_choice("beta", br));
    D<T> P = mul(op(ta, RA), op(tb, RB)), before, after;
    if (dest == 0) {
        before = symD<T>(P.m, P.n, "C");
        Matrix<T> C = fromD<Matrix<T>>(before);
        internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, C);
        after = toD<T>(C);
    } else if (dest == 1) {
        auto L = sxl::sym<T>(P.m, P.n, sx_choice("rank of the destination", 2), "C");
        auto C = sxl::make(L, 0);
        before = sxl::val(L);
        internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, C);
        after = sxl::value(C, P.m, P.n);
    } else {
        auto C = sxh::hm_over<T>(o, i, sc, ranks, cyc + 2, 0);
        before = sxh::represented<T>(*C);
        internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, *C);
        after = sxh::represented<T>(*C);
    }
    eqD(after, lin(al, P, be, before), "product of two H-matrices");
    sx_check(log->errors == 0, "error logged for a supported product");
    eqD(sxh::represented<T>(*A), RA, "left operand changed");
    eqD(sxh::represented<T>(*B), RB, "right operand changed");
    sx_reach("end");
}
// no partition: clusters of 3, 2 and 3 points (or one shared cluster of 3)
static void plain(int dest) {
    bool shared = sx_choice("one cluster", 2);
    auto t3 = sxh::make_cluster(3, 2, 0, 1, 1);
    auto t2 = sxh::make_cluster(2, 2, 0, 1, 2);
    auto u3 = sxh::make_cluster(3, 2, 0, 1, 2);
    const Cluster<double> *l3 = t3.get_clusters_on_partition()[0], *l2 = t2.get_clusters_on_partition()[0], *r3 = u3.get_clusters_on_partition()[0];
    Ops c{l3, shared ? l3 : l2, shared ? l3 : r3};
    static const int st[][2] = {{1, 1}, {2, 2}, {4, 2}, {2, 4}, {4, 4}, {1, 3}, {3, 1}};
    int k = sx_choice("structures", 7);
    product(c, st[k][0], st[k][1], dest == 2 ? 1 + sx_choice("structure of the destination", 4) : 0, k % 3 + sx_choice("compression outcomes", sx_param("cycles", 3)), k % 3, dest, SX<T>::c ? "NTC" : "NT", dest == 1 ? 3 : 3);
}
SX_ENTRY(to_dense) { plain(0); }
SX_ENTRY(to_lr) { plain(1); }
SX_ENTRY(to_h) { plain(2); }
// trees with a process partition: the whole matrix, one process's rows, or a process's diagonal part
static void parted(int dest) {
    int P = 2 + sx_choice("partition", sx_param("p", 3)); // 4 of them with two children each: the partition is two levels below the root
    auto t = sxh::make_cluster(P < 4 ? 5 : 4, 2, 0, P, 1);
    int which = sx_choice("part", 3);
    const Cluster<double> *l = t.get_clusters_on_partition()[P - 1];
    Ops c{which == 0 ? &t : l, &t, which == 2 ? l : &t};
    int st = 1 + sx_choice("structures", 2);
    product(c, st, 3 - st, dest == 2 ? 1 + sx_choice("structure of the destination", 2) : 0, 0, 0, dest, "NT", 2);
}
SX_ENTRY(parted_to_dense) { parted(0); }
SX_ENTRY(parted_to_lr) { parted(1); }
SX_ENTRY(parted_to_h) { parted(2); }
