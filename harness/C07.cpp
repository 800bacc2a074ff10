#include "hmat.hpp"
using namespace htool;
typedef double T;
typedef HMatrix<T> H;
// who covers what
static void check_cover(const H &h, const Cluster<double> &T0, const Cluster<double> &S0, char sym, char uplo, int part, int psym) {
    const Cluster<double> &rt = part < 0 ? T0 : *T0.get_clusters_on_partition()[part];
    sx_check(h.get_target_cluster().get_offset() == rt.get_offset() && h.get_target_cluster().get_size() == rt.get_size(), "rows of the H-matrix");
    sx_check(h.get_source_cluster().get_offset() == S0.get_offset() && h.get_source_cluster().get_size() == S0.get_size(), "columns of the H-matrix");
    sx_check(h.nb_rows() == rt.get_size() && h.nb_cols() == S0.get_size(), "reported shape");
    int t0 = rt.get_offset(), m = rt.get_size(), s0 = S0.get_offset(), n = S0.get_size();
    std::vector<int> cnt((size_t)(m * n), 0), mir((size_t)(m * n), 0);
    std::vector<const H *> L;
    sxh::leaves_of<T>(h, L);
    auto pr = get_leaves_from(h);
    sx_check(pr.first.size() == L.size(), "number of enumerated leaves");
    for (auto l : L) { int c = 0; for (auto k : pr.first) c += k == l; sx_check(c == 1, "every leaf is enumerated exactly once"); }
    for (auto l : L) {
        int a = l->get_target_cluster().get_offset() - t0, b = l->get_source_cluster().get_offset() - s0;
        int p = l->get_target_cluster().get_size(), q = l->get_source_cluster().get_size();
        sx_check(a >= 0 && a + p <= m && b >= 0 && b + q <= n, "a leaf lies inside the matrix");
        for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) cnt[a + i + (b + j) * m]++;
        sx_check(l->is_dense() != l->is_low_rank() && !l->is_hierarchical(), "a leaf is dense or low-rank");
        sx_check((l->get_dense_data() != nullptr) == l->is_dense() && (l->get_low_rank_data() != nullptr) == l->is_low_rank(), "a leaf has exactly its kind of data");
        if (l->is_dense()) sx_check(l->get_dense_data()->nb_rows() == p && l->get_dense_data()->nb_cols() == q, "shape of a dense leaf");
        if (l->is_low_rank()) { auto r = l->get_low_rank_data(); sx_check(r->nb_rows() == p && r->nb_cols() == q && r->get_V().nb_rows() == r->rank_of(), "shape of a low-rank leaf"); }
    }
    for (auto l : pr.second) {
        int a = l->get_target_cluster().get_offset(), b = l->get_source_cluster().get_offset();
        for (int i = 0; i < l->get_target_cluster().get_size(); i++) for (int j = 0; j < l->get_source_cluster().get_size(); j++) {
            int r = b + j - t0, c = a + i - s0;
            sx_check(r >= 0 && r < m && c >= 0 && c < n, "a mirrored leaf lies inside the matrix");
            mir[r + c * m]++;
        }
    }
    int r0 = T0.get_offset(), r1 = r0 + T0.get_size(), c0 = s0, c1 = s0 + n; // where symmetry applies
    if (psym >= 0) { auto &tp = *T0.get_clusters_on_partition()[psym]; auto &sp = *S0.get_clusters_on_partition()[psym]; r0 = tp.get_offset(); r1 = r0 + tp.get_size(); c0 = sp.get_offset(); c1 = c0 + sp.get_size(); }
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        int gi = t0 + i, gj = s0 + j, c = cnt[i + j * m], r = mir[i + j * m];
        bool wrong = sym != 'N' && gi >= r0 && gi < r1 && gj >= c0 && gj < c1 && (uplo == 'U' ? gi > gj : gi < gj);
        if (!wrong) { sx_check(c == 1, c == 0 ? "an entry is not covered" : "an entry is covered twice"); sx_check(r == 0, "an entry is covered by a leaf and by a mirrored leaf"); }
        else {
            sx_check(c + r <= 1, "an entry of the mirrored triangle is covered twice");
            bool partner = gj >= t0 && gj < t0 + m; // the mirrored entry is local
            if (partner) sx_check(c + r == 1, "an entry of the mirrored triangle is not covered");
        }
    }
    // every inner node is tiled by its children
    sx_check(h.is_root() && h.get_depth() == 0, "root of the H-matrix");
}
// where symmetric leaves are flagged
static bool check_flags(const H &h, char sym, char uplo, const Cluster<double> *where) {
    bool diag = h.get_target_cluster().get_offset() == h.get_source_cluster().get_offset() && h.get_target_cluster().get_size() == h.get_source_cluster().get_size();
    int off = h.get_target_cluster().get_offset();
    diag = diag && sym != 'N' && (!where || (where->get_offset() <= off && off + h.nb_rows() <= where->get_offset() + where->get_size()));
    sx_check(h.get_symmetry() == (diag ? sym : 'N') && h.get_UPLO() == (diag ? uplo : 'N'), "symmetry of a block");
    if (h.is_leaf()) sx_check(h.get_symmetry_for_leaves() == (diag ? sym : 'N') && h.get_UPLO_for_leaves() == (diag ? uplo : 'N'), "symmetry recorded for a leaf");
    // a block with symmetric blocks inside tells so (the products rely on it)
    bool inside = diag;
    for (auto &c : h.get_children()) inside = check_flags(*c, sym, uplo, where) || inside;
    sx_check(h.get_symmetry_for_leaves() == (inside ? sym : 'N') && h.get_UPLO_for_leaves() == (inside ? uplo : 'N'), "symmetry recorded for the leaves of a block");
    return inside;
}
struct Gen : VirtualGenerator<T> { void copy_submatrix(int M, int N, const int *r, const int *c, T *p) const override { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) p[i + M * j] = r[i] * 100 + c[j]; } };
// square, one cluster tree, any symmetry and partition restriction
static void square(int n, int c, int mcs, int P, bool given) {
    auto log = sxc::quiet();
    std::vector<int> part;
    if (given) part = sxc::choose_partition(n, P);
    Cluster<double> cl = sxh::make_cluster(n, c, mcs, P, sx_choice("scramble", 2), given ? &part : nullptr);
    if (log->errors) sx_prune();
    int np = (int)cl.get_clusters_on_partition().size();
    char uplo = pick("uplo", "NLU"), sym = uplo == 'N' ? 'N' : 'S';
    int rst = sx_choice("restriction", 3), tp = -1, ps = -1;
    if (rst >= 1) { tp = sx_choice("rank", np); ps = tp; }
    if (rst == 2) tp = -1;
    if (rst == 2 && sym == 'N') sx_prune();
    HMatrixTreeBuilder<T> b(cl, cl, 0.1, 2, sym, uplo, -1, tp, ps);
    if (sx_choice("consistent", 2) == 0) { if (sym != 'N') sx_prune(); b.set_block_tree_consistency(false); }
    int md = sx_choice("minimal depth", 3);
    b.set_minimal_target_depth(md & 1);
    b.set_minimal_source_depth(md >> 1);
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(sx_param("budget", 4), sx_choice("skip", 2) * sx_param("skip", 4), sym == 'N', sx_choice("rest", 2));
    b.set_admissibility_condition(ad);
    auto lr = std::make_shared<sxh::StubLR<T>>(std::vector<int>{1}, sx_choice("compression", 2) ? 1 : -1);
    b.set_low_rank_generator(lr);
    H h = b.build(Gen());
    check_cover(h, cl, cl, sym, uplo, tp, ps);
    check_flags(h, sym, uplo, ps >= 0 ? cl.get_clusters_on_partition()[ps] : nullptr);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(simple) { square(6, 2 + sx_choice("children", 2), 1, 1 + sx_choice("partitions", 3), false); }
SX_ENTRY(given) { int n = sx_param("n", 5); square(n, 2, sx_choice("minclustersize", 2), 1 + sx_choice("partitions", 3), true); }
// two different trees
SX_ENTRY(rectangular) {
    auto log = sxc::quiet();
    int m = 1 + sx_choice("rows", sx_param("m", 6)), n = 1 + sx_choice("cols", sx_param("m", 6)), pt = 1 + sx_choice("target partitions", 2), ps = 1 + sx_choice("source partitions", 2);
    if (m < 2 * pt || n < 2 * ps) sx_prune();
    Cluster<double> t = sxh::make_cluster(m, 2 + sx_choice("target children", 2), 1, pt, 0), s = sxh::make_cluster(n, 2, 1, ps, 1);
    if (log->errors) sx_prune();
    int tp = sx_choice("restriction", 2) ? sx_choice("rank", pt) : -1;
    HMatrixTreeBuilder<T> b(t, s, 0.1, 2, 'N', 'N', -1, tp, -1);
    b.set_block_tree_consistency(sx_choice("consistent", 2));
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(sx_param("budget", 3), sx_choice("skip", 2) * sx_param("skip", 4), true, sx_choice("rest", 2));
    b.set_low_rank_generator(std::make_shared<sxh::StubLR<T>>(std::vector<int>{1}, 1));
    if ((m + n) % 2) { // the builder already built something else
        b.set_admissibility_condition(std::make_shared<sxh::ChoiceAdmissible>(0, 0, true, 1));
        b.build(Gen());
    }
    b.set_admissibility_condition(ad);
    H h = b.build(Gen());
    check_cover(h, t, s, 'N', 'N', tp, -1);
    check_flags(h, 'N', 'N', nullptr);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
// the real admissibility condition on symbolic coordinates
SX_ENTRY(geometry) {
    auto log = sxc::quiet();
    int n = sx_param("n", 4);
    std::vector<double> x(n);
    for (int i = 0; i < n; i++) x[i] = i < n - sx_param("free", 1) ? i : sx_real_in("x", -100, 100);
    sxc::Opt o; o.n = n; o.P = 1 + sx_choice("partitions", 2);
    auto bc = sxc::builder(o, 0, 1);
    Cluster<double> cl = bc.create_cluster_tree(n, 1, x.data(), 2, o.P);
    if (log->errors) sx_prune();
    char uplo = pick("uplo", "NLU"), sym = uplo == 'N' ? 'N' : 'S';
    double eta = sx_real_in("eta", 0.125, 16);
    HMatrixTreeBuilder<T> b(cl, cl, 0.1, eta, sym, uplo, -1, -1, -1);
    b.set_low_rank_generator(std::make_shared<sxh::StubLR<T>>(std::vector<int>{1}, 1));
    H h = b.build(Gen());
    check_cover(h, cl, cl, sym, uplo, -1, -1);
    check_flags(h, sym, uplo, nullptr);
    sx_reach("end");
}
// wide trees: many partitions on both sides
SX_ENTRY(wide) {
    auto log = sxc::quiet();
    int P = 5 + sx_choice("partitions", 4), n = 2 * P;
    std::vector<int> part;
    for (int p = 0; p < P; p++) { part.push_back(2 * p); part.push_back(2); }
    Cluster<double> cl = sxh::make_cluster(n, 2, 0, P, 0, &part);
    char uplo = pick("uplo", "NLU"), sym = uplo == 'N' ? 'N' : 'S';
    int tp = sx_choice("restriction", 2) ? sx_choice("rank", 2) * (P - 1) : -1;
    std::unique_ptr<Cluster<double>> twin; // an equal but distinct tree for the columns
    if (P == 5 && sx_choice("distinct trees", 2)) twin.reset(new Cluster<double>(sxh::make_cluster(n, 2, 0, P, 0, &part)));
    const Cluster<double> &sc = twin ? *twin : cl;
    HMatrixTreeBuilder<T> b(cl, sc, 0.1, 2, sym, uplo, -1, tp, tp);
    b.set_admissibility_condition(std::make_shared<sxh::ChoiceAdmissible>(1, 6, false, sx_choice("rest", 2)));
    b.set_low_rank_generator(std::make_shared<sxh::StubLR<T>>(std::vector<int>{1}, 1));
    H h = b.build(Gen());
    check_cover(h, cl, sc, sym, uplo, tp, tp);
    check_flags(h, sym, uplo, tp >= 0 ? cl.get_clusters_on_partition()[tp] : nullptr);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}

// trees of different arity: partitions at different depths, partition nodes above or below one another
SX_ENTRY(arity) {
    auto log = sxc::quiet();
    int ct = 2 + sx_choice("target children", 3), cs = 2 + sx_choice("source children", 3), pt = 3 + sx_choice("target partitions", 2), ps = 3 + sx_choice("source partitions", 2);
    Cluster<double> t = sxh::make_cluster(8, ct, 0, pt, 0), s = sxh::make_cluster(8, cs, 0, ps, 1);
    if (log->errors) sx_prune();
    int tp = sx_choice("restriction", 2) ? pt - 1 : -1;
    HMatrixTreeBuilder<T> b(t, s, 0.1, 2, 'N', 'N', -1, tp, -1);
    b.set_block_tree_consistency(sx_choice("consistent", 2));
    b.set_admissibility_condition(std::make_shared<sxh::ChoiceAdmissible>(sx_param("budget", 1), sx_choice("skip", 2) * 3, true, sx_choice("rest", 2)));
    b.set_low_rank_generator(std::make_shared<sxh::StubLR<T>>(std::vector<int>{1}, 1));
    H h = b.build(Gen());
    check_cover(h, t, s, 'N', 'N', tp, -1);
    check_flags(h, 'N', 'N', nullptr);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
