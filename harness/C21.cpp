// Distributed operators: every rank gets the product with the assembled global matrix (C21) or its slice of it (C22).
#include "hmat.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
using namespace htool;
typedef SXT T;
typedef Cluster<double> C;
struct Case {
    int P, how, which;
    const C *t, *s;
    char sym, uplo;
    D<T> A;    // user numbering
    D<T> X;    // input, numbering of the caller
    D<T> Y;    // expected output
    D<T> old;  // contents of the output buffers beforehand
    bool trans, perm, work;
    std::vector<LogLevel> none;
    int errors = 0, ok = 0;
};
static D<T> permuted(const D<T> &a, const C &c) { D<T> r(a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r(i, j) = a(c.get_permutation()[i], j); return r; }
// the operators a rank owns
struct Mine {
    std::vector<std::unique_ptr<VirtualLocalOperator<T>>> ops;
    std::vector<std::unique_ptr<Matrix<T>>> mats;
    std::vector<std::unique_ptr<HMatrix<T>>> hs;
    std::unique_ptr<DefaultApproximationBuilder<T>> def;
    std::unique_ptr<DefaultLocalApproximationBuilder<T>> loc;
    std::unique_ptr<DistributedOperatorFromHMatrix<T>> fromh;
    std::unique_ptr<CustomApproximationBuilder<T>> custom;
    DistributedOperator<T> *d = nullptr;
};
static std::unique_ptr<HMatrix<T>> rows_of(const Case &k, const C &t, const C &s, int r) {
    HMatrixTreeBuilder<T> tb(t, s, 0.25, 3, 'N', 'N', -1, r, r);
    tb.set_admissibility_condition(std::make_shared<sxh::ChoiceAdmissible>(0, 0, false, true));
    auto lr = std::make_shared<sxh::StubLR<T>>(std::vector<int>{0}, 0);
    lr->exact = true;
    tb.set_low_rank_generator(lr);
    sxh::SymGen<T> g(k.A);
    return std::unique_ptr<HMatrix<T>>(new HMatrix<T>(tb.build(g)));
}
static void setup(const Case &k, int r, Mine &m) {
    const C &mine = *k.t->get_clusters_on_partition()[r];
    sxh::SymGen<T> g(k.A);
    auto block = [&](const C &s, bool half) { // rows of this rank, columns of s; half: one part of a sum
        std::unique_ptr<Matrix<T>> b(new Matrix<T>(mine.get_size(), s.get_size()));
        for (int i = 0; i < mine.get_size(); i++) for (int j = 0; j < s.get_size(); j++) (*b)(i, j) = k.A(k.t->get_permutation()[mine.get_offset() + i], k.s->get_permutation()[s.get_offset() + j]) * T(half ? 0.5 : 1);
        m.mats.push_back(std::move(b));
        return m.mats.back().get();
    };
    if (k.how == 0) {
        m.def.reset(new DefaultApproximationBuilder<T>(g, *k.t, *k.s, 0.1, -1., k.sym, k.uplo, MPI_COMM_WORLD));
        m.d = &m.def->distributed_operator;
    } else if (k.how == 1) {
        HMatrixTreeBuilder<T> tb(*k.t, *k.s, 0.25, 3, k.sym, k.uplo, -1, r, r);
        tb.set_admissibility_condition(std::make_shared<sxh::ChoiceAdmissible>(0, 0, false, true));
        auto lr = std::make_shared<sxh::StubLR<T>>(std::vector<int>{0}, 0);
        lr->exact = true;
        tb.set_low_rank_generator(lr);
        m.fromh.reset(new DistributedOperatorFromHMatrix<T>(g, *k.t, *k.s, tb, MPI_COMM_WORLD));
        m.d = &m.fromh->distributed_operator;
    } else if (k.how == 2) { // one operator per column block
        for (int p = 0; p < k.P; p++) m.ops.emplace_back(new LocalDenseMatrix<T, double>(*block(*k.s->get_clusters_on_partition()[p], false), mine, *k.s->get_clusters_on_partition()[p], 'N', 'N'));
        m.custom.reset(new CustomApproximationBuilder<T>(*k.t, *k.s, k.sym, k.uplo, MPI_COMM_WORLD, *m.ops[0]));
        m.d = &m.custom->distributed_operator;
        for (int p = 1; p < k.P; p++) m.d->add_local_operator(m.ops[p].get());
    } else if (k.how == 3) { // the sum of two operators over the same columns
        m.ops.emplace_back(new LocalDenseMatrix<T, double>(*block(*k.s, true), mine, *k.s, 'N', 'N'));
        m.ops.emplace_back(new LocalDenseMatrix<T, double>(*block(*k.s, true), mine, *k.s, 'N', 'N'));
        m.custom.reset(new CustomApproximationBuilder<T>(*k.t, *k.s, k.sym, k.uplo, MPI_COMM_WORLD, *m.ops[0]));
        m.d = &m.custom->distributed_operator;
        m.d->add_local_operator(m.ops[1].get());
    } else { // diagonal block by the library, the rest by local H-matrices
        m.loc.reset(new DefaultLocalApproximationBuilder<T>(g, *k.t, *k.s, 0.1, -1., k.sym, k.uplo, MPI_COMM_WORLD));
        m.d = &m.loc->distributed_operator;
        for (int p = 0; p < k.P; p++) if (p != r) {
            const C &sp = *k.s->get_clusters_on_partition()[p];
            m.hs.push_back(rows_of(k, mine, sp, -1));
            m.ops.emplace_back(new LocalHMatrix<T, double>(*m.hs.back(), mine, sp, 'N', 'N'));
            m.d->add_local_operator(m.ops.back().get());
        }
    }
    m.d->use_permutation() = k.perm;
}
static void same(const T *got, const D<T> &e, int i0, int m, bool rowmajor, int n, const char *msg) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SX<T>::eq(got[rowmajor ? i * n + j : i + j * m], e(i0 + i, j), msg);
}
static void fill(std::vector<T> &o, const D<T> &old) { for (size_t i = 0; i < o.size(); i++) o[i] = old.v[i % old.v.size()]; }
static void global_rank(int r, void *a) {
    Case &k = *(Case *)a;
    Mine m;
    setup(k, r, m);
    int ni = k.X.m, no = k.Y.m;
    for (int mu = 0; mu <= k.X.n; mu++) {
        int c = mu ? mu : 1;
        std::vector<T> in(k.X.v.begin(), k.X.v.begin() + ni * c), out(no * c);
        fill(out, k.old);
        if (mu == 0) { if (k.trans) m.d->vector_product_transp_global_to_global(in.data(), out.data()); else m.d->vector_product_global_to_global(in.data(), out.data()); }
        else { if (k.trans) m.d->matrix_product_transp_global_to_global(in.data(), out.data(), mu); else m.d->matrix_product_global_to_global(in.data(), out.data(), mu); }
        same(out.data(), k.Y, 0, no, false, c, mu ? "distributed product of several columns" : "distributed vector product");
        for (size_t i = 0; i < in.size(); i++) SX<T>::eq(in[i], k.X.v[i], "product changes its input");
    }
    sx_barrier();
    k.ok++;
}
// everything below works on slices; internal: partition numbering, row major
static void local_rank(int r, void *a) {
    Case &k = *(Case *)a;
    Mine m;
    setup(k, r, m);
    const C &ci = *(k.trans ? k.t : k.s)->get_clusters_on_partition()[r], &co = *(k.trans ? k.s : k.t)->get_clusters_on_partition()[r];
    int ni = ci.get_size(), no = co.get_size(), nc = k.s->get_size(), ls = k.s->get_clusters_on_partition()[r]->get_size();
    for (int mu = 0; mu <= k.X.n; mu++) {
        int c = mu ? mu : 1;
        bool rm = k.which == 1;
        std::vector<T> in(ni * c), in0, out(no * c), w;
        for (int i = 0; i < ni; i++) for (int j = 0; j < c; j++) in[rm ? i * c + j : i + j * ni] = k.X(ci.get_offset() + i, j);
        in0 = in;
        fill(out, k.old);
        if (k.work) { w.resize((nc + (k.trans ? k.P * ls : 0)) * c); fill(w, k.old); }
        T *wp = k.work ? w.data() : nullptr;
        if (k.which == 0) {
            if (mu == 0) { if (k.trans) m.d->vector_product_transp_local_to_local(in.data(), out.data(), wp); else m.d->vector_product_local_to_local(in.data(), out.data(), wp); }
            else { if (k.trans) m.d->matrix_product_transp_local_to_local(in.data(), out.data(), mu, wp); else m.d->matrix_product_local_to_local(in.data(), out.data(), mu, wp); }
        } else if (k.which == 1) {
            if (mu == 0) { if (k.trans) m.d->internal_vector_product_transp_local_to_local(in.data(), out.data(), wp); else m.d->internal_vector_product_local_to_local(in.data(), out.data(), wp); }
            else { if (k.trans) m.d->internal_matrix_product_transp_local_to_local(in.data(), out.data(), mu, wp); else m.d->internal_matrix_product_local_to_local(in.data(), out.data(), mu, wp); }
        }
        same(out.data(), k.Y, co.get_offset(), no, rm, c, "slice of the distributed product");
        for (size_t i = 0; i < in.size(); i++) SX<T>::eq(in[i], in0[i], "product changes its input");
    }
    sx_barrier();
    k.ok++;
}
// building blocks in partition numbering, row major: gathered input or gathered output
static void half_rank(int r, void *a) {
    Case &k = *(Case *)a;
    Mine m;
    setup(k, r, m);
    const C &ct = *k.t->get_clusters_on_partition()[r];
    int ni = k.trans ? ct.get_size() : k.s->get_size(), no = k.trans ? k.s->get_size() : ct.get_size(), i0 = k.trans ? ct.get_offset() : 0, o0 = k.trans ? 0 : ct.get_offset();
    for (int mu = 0; mu <= k.X.n; mu++) {
        int c = mu ? mu : 1;
        std::vector<T> in(ni * c), out(no * c);
        for (int i = 0; i < ni; i++) for (int j = 0; j < c; j++) in[i * c + j] = k.X(i0 + i, j);
        fill(out, k.old);
        if (mu == 0) { if (k.trans) m.d->internal_vector_product_transp_local_to_global(in.data(), out.data()); else m.d->internal_vector_product_global_to_local(in.data(), out.data()); }
        else { if (k.trans) m.d->internal_matrix_product_transp_local_to_global(in.data(), out.data(), mu); else m.d->internal_matrix_product_global_to_local(in.data(), out.data(), mu); }
        same(out.data(), k.Y, o0, no, true, c, "distributed product with a gathered side");
        std::vector<T> g((k.trans ? k.t : k.s)->get_size() * c), part;
        const C &gc = *(k.trans ? k.t : k.s)->get_clusters_on_partition()[r];
        for (int i = 0; i < gc.get_size(); i++) for (int j = 0; j < c; j++) part.push_back(k.X(gc.get_offset() + i, j));
        fill(g, k.old);
        if (k.trans) m.d->local_to_global_target(part.data(), g.data(), c); else m.d->local_to_global_source(part.data(), g.data(), c);
        same(g.data(), k.X, 0, k.X.m, true, c, "gathering the slices of a vector");
        if (!k.trans) { // columns of one partition only
            for (int p = 0; p < k.P; p++) {
                const C &sp = *k.s->get_clusters_on_partition()[p];
                std::vector<T> sub_in(in.begin() + sp.get_offset() * c, in.begin() + (sp.get_offset() + sp.get_size()) * c), sub_out(no * c), z(k.s->get_size() * c), full(no * c);
                std::copy(sub_in.begin(), sub_in.end(), z.begin() + sp.get_offset() * c);
                m.d->internal_sub_matrix_product_to_local(sub_in.data(), sub_out.data(), c, sp.get_offset(), sp.get_size());
                m.d->internal_matrix_product_global_to_local(z.data(), full.data(), c);
                for (int i = 0; i < no * c; i++) SX<T>::eq(sub_out[i], full[i], "product restricted to one partition's columns");
            }
        }
    }
    sx_barrier();
    k.ok++;
}
static void run(int kind) { // 0 global, 1 local, 2 half
    auto log = sxc::quiet();
    Case k;
    k.P = 1 + sx_choice("processes", sx_param("processes", 3));
    bool square = sx_choice("square", 2), given = kind == 1 || sx_choice("given partition", 2);
    static const std::vector<int> parts[] = {{0, 5}, {0, 2, 2, 3}, {0, 2, 2, 1, 3, 2}, {0, 1, 1, 2, 3, 1, 4, 1}}, qarts[] = {{0, 4}, {0, 3, 3, 1}, {0, 1, 1, 2, 3, 1}, {0, 1, 1, 1, 2, 1, 3, 1}};
    C t = sxh::make_cluster(5, 2, 0, k.P, 1, given ? &parts[k.P - 1] : nullptr), s = sxh::make_cluster(4, 2, 0, k.P, 2, given ? &qarts[k.P - 1] : nullptr);
    k.t = &t; k.s = square ? &t : &s;
    k.how = sx_choice("operator", 5);
    k.uplo = square && k.how != 2 && k.how != 3 ? pick("storage", "NLU") : 'N';
    k.sym = k.uplo == 'N' ? 'N' : SX<T>::c ? pick("symmetry", "SH") : 'S';
    k.trans = sx_choice("transposed", 2);
    if (kind == 2 && k.trans && k.sym == 'H') sx_prune(); // reported as unsupported by the H-matrix products; the public products go through the conjugate
    k.which = kind == 1 ? sx_choice("numbering", 2) : kind == 2;
    k.perm = k.which == 0 && sx_choice("renumber", 2);
    k.work = kind == 1 && sx_choice("workspace", 2);
    k.A = sxh::coefficients<T>(k.t->get_size(), k.s->get_size(), k.sym);
    int mu = sx_param("columns", 2);
    D<T> x = symD<T>(k.trans ? k.A.m : k.A.n, mu, "x"), y = mul(op(k.trans ? 'T' : 'N', k.A), x);
    const C &ci = k.trans ? *k.t : *k.s, &co = k.trans ? *k.s : *k.t;
    k.X = k.perm ? x : permuted(x, ci);
    k.Y = k.perm ? y : permuted(y, co);
    k.old = symD<T>(1, 3, "old");
    sx_run_ranks(k.P, kind == 0 ? global_rank : kind == 1 ? local_rank : half_rank, &k);
    sx_check(k.ok == k.P, "a rank did not finish");
    sx_check(log->errors == 0, "error logged for a supported product");
    sx_reach("end");
}
SX_ENTRY(global) { run(0); }
SX_ENTRY(local) { run(1); }
SX_ENTRY(half) { run(2); }
