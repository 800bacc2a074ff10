// Local operators: block, offset, numbering, accumulation; restricted column ranges.
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
using namespace htool;
typedef SXT T;
typedef Cluster<double> C;
struct Setup {
    std::unique_ptr<C> a, b;
    const C *t, *s;
    std::unique_ptr<Matrix<T>> dense;
    std::unique_ptr<HMatrix<T>> h;
    std::unique_ptr<VirtualLocalOperator<T>> op;
    D<T> M; // target rows, source columns, in the operator's own numbering
    char sym, uplo;
    int nt, ns, N; // N: length of the global input
};
// row i of the operator's numbering is row p[i] of the caller's
static std::vector<int> numbering(const C &c, bool user) {
    std::vector<int> p(c.get_size());
    for (int i = 0; i < c.get_size(); i++) p[i] = user ? c.get_permutation()[c.get_offset() + i] - c.get_offset() : i;
    return p;
}
static Setup make() {
    Setup x;
    static const std::vector<int> pa = {0, 2, 2, 3}, pb = {0, 3, 3, 1};
    x.a.reset(new C(sxh::make_cluster(5, 2, 0, 2, 1, &pa)));
    int where = sx_choice("blocks", 4); // whole matrix; diagonal block; off-diagonal block; part of another tree
    bool same = where < 3;
    if (!same) x.b.reset(new C(sxh::make_cluster(4, 2, 0, 2, 2, &pb)));
    const C &src = same ? *x.a : *x.b;
    x.t = where == 0 ? x.a.get() : x.a->get_clusters_on_partition()[where == 3 ? 0 : 1];
    x.s = where == 0 ? x.a.get() : where == 1 ? x.t : src.get_clusters_on_partition()[where == 3 ? 1 : 0];
    x.uplo = x.t == x.s ? pick("storage", "NLU") : 'N';
    x.sym = x.uplo == 'N' ? 'N' : SX<T>::c ? pick("symmetry", "SH") : 'S';
    x.nt = x.t->get_size(); x.ns = x.s->get_size(); x.N = (int)x.s->get_permutation().size();
    bool pt = sx_choice("target permutation", 2), ps = sx_choice("source permutation", 2);
    D<T> R;
    if (sx_choice("dense block", 2)) {
        D<T> A = symD<T>(x.nt, x.ns, "A");
        R = x.sym == 'N' ? A : mirror(A, x.uplo, x.sym);
        if (x.sym == 'H') for (int i = 0; i < x.nt; i++) A(i, i) = R(i, i);
        x.dense.reset(new Matrix<T>(fromD<Matrix<T>>(A)));
        x.op.reset(new LocalDenseMatrix<T, double>(*x.dense, *x.t, *x.s, x.sym, x.uplo, pt, ps));
    } else {
        x.h = sxh::hm_over<T>(*x.t, *x.s, 2, {1, -1}, 0, 0, x.sym, x.uplo);
        R = sxh::represented<T>(*x.h, x.sym, x.uplo);
        x.op.reset(new LocalHMatrix<T, double>(*x.h, *x.t, *x.s, x.sym, x.uplo, pt, ps));
    }
    x.M = D<T>(x.nt, x.ns);
    auto p = numbering(*x.t, pt), q = numbering(*x.s, ps);
    for (int i = 0; i < x.nt; i++) for (int j = 0; j < x.ns; j++) x.M(p[i], q[j]) = R(i, j);
    return x;
}
static void scalars(T &al, T &be) { int k = sx_choice("alpha, beta", 2); al = k ? T(1) : SX<T>::real("alpha"); be = k ? T(1) : SX<T>::real("beta"); }
static void rowmajor(const D<T> &a, std::vector<T> &v) { v.resize(a.v.size()); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) v[i * a.n + j] = a(i, j); }
static void compare(const std::vector<T> &v, const D<T> &e, const char *msg) { for (int i = 0; i < e.m; i++) for (int j = 0; j < e.n; j++) SX<T>::eq(v[i * e.n + j], e(i, j), msg); }
SX_ENTRY(forward) {
    auto log = sxc::quiet();
    Setup x = make();
    T al, be;
    scalars(al, be);
    int mu = sx_choice("columns", 3); // 0: vector
    D<T> in = symD<T>(x.N, mu ? mu : 1, "x"), y = symD<T>(x.nt, mu ? mu : 1, "y");
    D<T> e = lin(al, mul(x.M, sub(in, x.s->get_offset(), 0, x.ns, in.n)), be, y);
    std::vector<T> i, o, i0;
    rowmajor(in, i); rowmajor(y, o); i0 = i;
    if (mu == 0) x.op->add_vector_product_global_to_local(al, i.data(), be, o.data());
    else x.op->add_matrix_product_global_to_local(al, i.data(), be, o.data(), mu);
    compare(o, e, "local operator product");
    compare(i, in, "product changes its input");
    sx_check(log->errors == 0, "error logged for a supported product");
    sx_reach("end");
}
SX_ENTRY(transposed) {
    auto log = sxc::quiet();
    Setup x = make();
    T al, be;
    scalars(al, be);
    int mu = sx_choice("columns", 3);
    D<T> in = symD<T>(x.nt, mu ? mu : 1, "x"), y = symD<T>(x.N, mu ? mu : 1, "y"), e = y;
    int o0 = x.s->get_offset();
    D<T> z = lin(al, mul(op('T', x.M), in), be, sub(y, o0, 0, x.ns, y.n));
    for (int i = 0; i < x.ns; i++) for (int j = 0; j < y.n; j++) e(o0 + i, j) = z(i, j);
    std::vector<T> i, o;
    rowmajor(in, i); rowmajor(y, o);
    if (mu == 0) x.op->add_vector_product_transp_local_to_global(al, i.data(), be, o.data());
    else x.op->add_matrix_product_transp_local_to_global(al, i.data(), be, o.data(), mu);
    if (log->errors) { sx_check(x.sym == 'H', "error logged for a supported product"); sx_reach("reported"); return; } // hermitian storage does not offer every transposition
    compare(o, e, "transposed local operator product");
    compare(i, in, "product changes its input");
    sx_reach("end");
}
// only the columns [offset, offset+size) of the input are given
SX_ENTRY(restricted) {
    auto log = sxc::quiet();
    Setup x = make();
    int mu = 1 + sx_choice("columns", 2);
    int off = sx_choice("first column", x.N), size = 1 + sx_choice("number of columns", x.N - off);
    D<T> in = symD<T>(size, mu, "x"), full(x.N, mu), y(x.nt, mu);
    for (int i = 0; i < size; i++) for (int j = 0; j < mu; j++) full(off + i, j) = in(i, j);
    D<T> e = mul(x.M, sub(full, x.s->get_offset(), 0, x.ns, mu));
    std::vector<T> i, o;
    rowmajor(in, i); rowmajor(y, o);
    x.op->sub_matrix_product_to_local(i.data(), o.data(), mu, off, size);
    compare(o, e, "restricted local operator product");
    sx_check(log->errors == 0, "error logged for a supported product");
    sx_reach("end");
}
