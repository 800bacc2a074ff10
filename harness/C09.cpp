#include "hmat.hpp"
using namespace htool;
typedef SXT T;
typedef HMatrix<T> H;
// coefficients already in cluster numbering
struct Internal : VirtualInternalGenerator<T> {
    const D<T> &A; const std::vector<int> &p, &q;
    Internal(const D<T> &a, const std::vector<int> &p_, const std::vector<int> &q_) : A(a), p(p_), q(q_) {}
    void copy_submatrix(int M, int N, int ro, int co, T *ptr) const override { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) ptr[i + M * j] = A(p[ro + i], q[co + j]); }
};
struct Blocks : VirtualDenseBlocksGenerator<T> {
    const D<T> &A; const std::vector<int> &p, &q;
    mutable int calls = 0;
    Blocks(const D<T> &a, const std::vector<int> &p_, const std::vector<int> &q_) : A(a), p(p_), q(q_) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &rows, const std::vector<int> &cols, std::vector<T *> &ptr) const override {
        calls++;
        sx_check(M.size() == N.size() && M.size() == rows.size() && M.size() == cols.size() && M.size() == ptr.size(), "dense blocks request has consistent lengths");
        for (size_t b = 0; b < M.size(); b++) for (int i = 0; i < M[b]; i++) for (int j = 0; j < N[b]; j++) ptr[b][i + M[b] * j] = A(p[rows[b] + i], q[cols[b] + j]);
    }
};
static void exports(Cluster<double> &t, Cluster<double> &s, bool same, bool local) {
    auto log = sxc::quiet();
    char uplo = same ? pick("uplo", "NLU") : 'N', sym = uplo == 'N' ? 'N' : SX<T>::c ? pick("symmetry", "SH") : 'S';
    int np = (int)t.get_clusters_on_partition().size();
    int tp = sx_choice("restriction", 2) ? sx_choice("rank", np) : -1;
    HMatrixTreeBuilder<T> b(t, s, 0.25, 3, sym, uplo, -1, tp, same ? tp : -1);
    if (sym == 'N') b.set_block_tree_consistency(sx_choice("consistent", 2));
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(sx_param("budget", 2), sx_choice("skip", 2) * sx_param("skip", 5), !same || sym == 'N', sx_choice("rest", 2));
    b.set_admissibility_condition(ad);
    auto lr = std::make_shared<sxh::StubLR<T>>(std::vector<int>{1, 0, -1}, sx_choice("compression", 3) - 1);
    b.set_low_rank_generator(lr);
    D<T> A = sxh::coefficients<T>(t.get_size(), s.get_size(), sym);
    const auto &pt = t.get_permutation(), &ps = s.get_permutation();
    int how = sx_choice("coefficients given", 3);
    auto blocks = std::make_shared<Blocks>(A, pt, ps);
    if (how == 2) b.set_dense_blocks_generator(blocks);
    sxh::SymGen<T> g(A);
    Internal gi(A, pt, ps);
    H h = how == 0 ? b.build(g) : b.build(gi);
    int t0 = h.get_target_cluster().get_offset(), s0 = h.get_source_cluster().get_offset(), m = h.nb_rows(), n = h.nb_cols();
    // value of every represented entry, from the leaves
    std::vector<const H *> L, M;
    sxh::leaves_of<T>(h, L);
    sxh::mirrored_of<T>(h, false, M);
    D<T> R(m, n);
    std::vector<int> kind((size_t)(m * n), 0); // 1 stored, 2 mirrored
    for (auto l : L) {
        int i0 = l->get_target_cluster().get_offset(), j0 = l->get_source_cluster().get_offset();
        auto *rec = lr->find(sxh::key(l->get_target_cluster(), l->get_source_cluster()));
        D<T> low;
        if (l->is_low_rank()) { sx_check(rec && !rec->failed, "low-rank leaf without factors"); low = mul(rec->U, rec->V); }
        for (int i = 0; i < l->nb_rows(); i++) for (int j = 0; j < l->nb_cols(); j++) {
            T e = l->is_low_rank() ? low(i, j) : A(pt[i0 + i], ps[j0 + j]);
            if (l->is_dense()) SX<T>::eq((*l->get_dense_data())(i, j), e, "dense leaf coefficient");
            R(i0 - t0 + i, j0 - s0 + j) = e;
            kind[i0 - t0 + i + (j0 - s0 + j) * m] = 1;
        }
    }
    for (auto l : M) {
        int i0 = l->get_target_cluster().get_offset(), j0 = l->get_source_cluster().get_offset();
        for (int i = 0; i < l->nb_rows(); i++) for (int j = 0; j < l->nb_cols(); j++) {
            T e = R(i0 - t0 + i, j0 - s0 + j);
            R(j0 + j - t0, i0 + i - s0) = sym == 'H' ? SX<T>::cj(e) : e;
            kind[j0 + j - t0 + (i0 + i - s0) * m] = 2;
        }
    }
    std::vector<T> out((size_t)(m * n), T(7));
    copy_to_dense(h, out.data());
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (kind[i + j * m] == 1) SX<T>::eq(out[i + j * m], R(i, j), "dense export in cluster numbering");
    bool root = tp < 0;
    if (root || local) {
        std::vector<T> u((size_t)(m * n), T(7));
        copy_to_dense_in_user_numbering(h, u.data());
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
            sx_check(kind[i + j * m] != 0, "an entry is not represented");
            int a = pt[t0 + i] - t0, c = ps[s0 + j] - s0;
            sx_check(a >= 0 && a < m && c >= 0 && c < n, "user index outside the block");
            SX<T>::eq(u[a + c * m], R(i, j), "dense export in user numbering");
        }
        sx_check(log->errors == 0, "error logged for a stable permutation");
    }
    if (same) {
        const H *d = &h;
        if (tp >= 0) d = h.get_sub_hmatrix(*t.get_clusters_on_partition()[tp], *s.get_clusters_on_partition()[tp]);
        if (d) {
            int o = d->get_target_cluster().get_offset(), q = d->nb_rows();
            sx_check(d->nb_rows() == d->nb_cols() && o == d->get_source_cluster().get_offset(), "diagonal block");
            std::vector<T> dg(q, T(5)), du(q, T(5));
            copy_diagonal(*d, dg.data());
            for (int i = 0; i < q; i++) SX<T>::eq(dg[i], R(o - t0 + i, o - s0 + i), "diagonal in cluster numbering");
            if (root || local) {
                copy_diagonal_in_user_numbering(*d, du.data());
                for (int i = 0; i < q; i++) SX<T>::eq(du[pt[o + i] - o], R(o - t0 + i, o - s0 + i), "diagonal in user numbering");
            }
        }
    }
    sx_reach("end");
}
SX_ENTRY(square) {
    auto log = sxc::quiet();
    int P = 1 + sx_choice("partitions", 2);
    std::vector<int> part = P == 1 ? std::vector<int>{0, 4} : std::vector<int>{0, 1 + 2 * sx_choice("first size", 2), 0, 0};
    if (P == 2) { part[2] = part[1]; part[3] = 4 - part[1]; }
    bool given = sx_choice("given partition", 2);
    Cluster<double> c = sxh::make_cluster(4, 2, 0, P, 1, given ? &part : nullptr);
    if (log->errors) sx_prune();
    exports(c, c, true, given);
}
SX_ENTRY(rectangular) {
    auto log = sxc::quiet();
    int P = 1 + sx_choice("partitions", 2);
    std::vector<int> a{0, 2, 2, 1}, b{0, 1, 1, 3};
    bool given = P == 2 && sx_choice("given partition", 2);
    Cluster<double> t = sxh::make_cluster(3, 2, 0, P, 1, given ? &a : nullptr), s = sxh::make_cluster(4, 2, 0, P, 2, given ? &b : nullptr);
    if (log->errors) sx_prune();
    exports(t, s, false, given);
}
