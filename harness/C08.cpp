#include "hmat.hpp"
using namespace htool;
typedef SXT T;
typedef HMatrix<T> H;
static void config(Cluster<double> &t, Cluster<double> &s, bool same) {
    auto log = sxc::quiet();
    char uplo = same ? pick("uplo", "NLU") : 'N', sym = uplo == 'N' ? 'N' : 'S';
    int np = (int)t.get_clusters_on_partition().size();
    int tp = sx_choice("restriction", 2) ? sx_choice("rank", np) : -1;
    int req = sx_choice("requested rank", 4) - 1;
    double eps = 0.25, eta = 3.5;
    HMatrixTreeBuilder<T> b(t, s, eps, eta, sym, uplo, req, tp, same ? tp : -1);
    bool cons = sym != 'N' || sx_choice("consistent", 2);
    if (sym == 'N') b.set_block_tree_consistency(cons);
    int mt = sx_choice("minimal target depth", 3), ms = sx_choice("minimal source depth", 3);
    b.set_minimal_target_depth(mt);
    b.set_minimal_source_depth(ms);
    auto ad = std::make_shared<sxh::ChoiceAdmissible>(sx_param("budget", 2), sx_choice("skip", 2) * sx_param("skip", 5), !same, sx_choice("rest", 2));
    ad->eta = eta;
    b.set_admissibility_condition(ad);
    // rank 2 when free, at most the requested one otherwise; or failure
    auto lr = std::make_shared<sxh::StubLR<T>>(req < 0 ? std::vector<int>{2, -1} : std::vector<int>{req, -1}, sx_choice("compression", 2) ? -1 : (req < 0 ? 2 : req));
    b.set_low_rank_generator(lr);
    D<T> A = sxh::coefficients<T>(t.get_size(), s.get_size(), sym);
    sxh::SymGen<T> g(A);
    H h = b.build(g);
    sx_check(!ad->bad_eta, "admissibility asked with another eta");
    std::vector<const H *> L;
    sxh::leaves_of<T>(h, L);
    const auto &pt = t.get_permutation(), &psrc = s.get_permutation();
    int lowrank = 0;
    for (auto l : L) {
        auto k = sxh::key(l->get_target_cluster(), l->get_source_cluster());
        bool said = ad->said.count(k) && ad->said[k];
        auto *rec = lr->find(k);
        if (l->is_low_rank()) {
            lowrank++;
            sx_check(said, "low-rank leaf on a block that was not accepted");
            sx_check((int)l->get_target_cluster().get_depth() >= mt && (int)l->get_source_cluster().get_depth() >= ms, "low-rank leaf above the minimal depth");
            sx_check(l->get_target_cluster().get_rank() >= 0, "low-rank leaf straddling several partitions (rows)");
            if (cons) sx_check(l->get_source_cluster().get_rank() >= 0, "low-rank leaf straddling several partitions (columns)");
            auto *d = l->get_low_rank_data();
            if (req >= 0) sx_check(d->rank_of() <= req, "rank above the requested one");
            if (req != 0) {
                sx_check(rec && !rec->failed, "low-rank leaf although the compression failed");
                sx_check(rec->req == req, "requested rank handed to the compressor");
                sx_check_eq(rec->eps, eps, "tolerance handed to the compressor");
                eqM(d->get_U(), rec->U, "row factor");
                eqM(d->get_V(), rec->V, "column factor");
                sx_check(l->get_rank() == rec->U.n, "reported rank");
            }
            sx_check_eq(d->get_epsilon(), eps, "tolerance of the leaf");
        } else {
            sx_check(l->get_rank() == -1, "reported rank of a dense leaf");
            const auto &d = *l->get_dense_data();
            for (int i = 0; i < d.nb_rows(); i++) for (int j = 0; j < d.nb_cols(); j++) SX<T>::eq(d(i, j), A(pt[l->get_target_cluster().get_offset() + i], psrc[l->get_source_cluster().get_offset() + j]), "dense leaf coefficient");
            if (rec) sx_check(rec->failed, "compression succeeded but the leaf is dense");
            // an inadmissible block is only kept when neither side can be split
            if (!rec) sx_check(l->get_target_cluster().is_leaf() && l->get_source_cluster().is_leaf(), "a block that can be split was stored dense");
        }
    }
    for (size_t i = 0; i < lr->recs.size(); i++) for (size_t j = 0; j < i; j++) sx_check(!(lr->recs[i].k == lr->recs[j].k), "a block is compressed twice");
    // an accepted block at an eligible position is not refined further
    for (auto &kv : ad->said) if (kv.second && kv.first[2] >= mt && kv.first[5] >= ms) for (auto l : L) {
        auto &c = l->get_target_cluster(), &e = l->get_source_cluster();
        bool below = kv.first[0] <= c.get_offset() && c.get_offset() + c.get_size() <= kv.first[0] + kv.first[1] && kv.first[3] <= e.get_offset() && e.get_offset() + e.get_size() <= kv.first[3] + kv.first[4] && !(kv.first == sxh::key(c, e));
        bool eligible = c.get_rank() >= 0 && e.get_rank() >= 0 && (int)t.get_clusters_on_partition()[c.get_rank()]->get_depth() <= kv.first[2] && (int)s.get_clusters_on_partition()[e.get_rank()]->get_depth() <= kv.first[5];
        sx_check(!(below && eligible), "an accepted block was refined");
    }
    auto &inf = h.get_hmatrix_tree_data()->m_information;
    int failures = 0;
    for (auto &r : lr->recs) failures += r.failed;
    sx_check(inf["Number_of_false_positive"] == std::to_string(failures), "number of failed compressions");
    sx_check(log->errors == 0, "error logged");
    if (lowrank) sx_reach("a low-rank leaf");
    sx_reach("end");
}
SX_ENTRY(square) {
    auto log = sxc::quiet();
    Cluster<double> c = sxh::make_cluster(sx_param("n", 6), 2, 1, 1 + sx_choice("partitions", 3), 1);
    if (log->errors) sx_prune();
    config(c, c, true);
}
SX_ENTRY(rectangular) {
    auto log = sxc::quiet();
    Cluster<double> t = sxh::make_cluster(6, 2, 0, 1 + sx_choice("target partitions", 2), 1), s = sxh::make_cluster(5, 3, 0, 1 + sx_choice("source partitions", 2), 2);
    if (log->errors) sx_prune();
    config(t, s, false);
}
