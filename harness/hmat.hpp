// H-matrices for the harnesses: concrete clusters, symbolic coefficients, stand-in admissibility and compression.
#pragma once
#include "cluster.hpp"
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
namespace sxh {
using htool::Cluster;
using htool::HMatrix;
using htool::HMatrixTreeBuilder;
using htool::Matrix;
// points whose left-to-right order is a fixed scramble of the user's order; given partition: part = {offset,size,...} over the user's order
inline Cluster<double> make_cluster(int n, int c, int mcs, int P, int scramble = 0, const std::vector<int> *part = nullptr) {
    std::vector<double> x(n);
    static const int mult[3] = {1, 7, 5};
    for (int i = 0; i < n; i++) {
        int v = scramble == 0 ? i : (i * mult[scramble] + 2) % 11;
        x[i] = v + i / 11 * 11 + 0.01 * i;
    }
    sxc::Opt o;
    o.n = n; o.c = c; o.mcs = mcs; o.P = P;
    auto b = sxc::builder(o, 0, 1);
    return b.create_cluster_tree(n, 1, x.data(), c, P, part ? part->data() : nullptr);
}
inline bool overlap(const Cluster<double> &t, const Cluster<double> &s) { return t.get_offset() < s.get_offset() + s.get_size() && s.get_offset() < t.get_offset() + t.get_size(); }
typedef std::vector<int> Key;
template <class Cl> Key key(const Cl &t, const Cl &s) { return {t.get_offset(), t.get_size(), (int)t.get_depth(), s.get_offset(), s.get_size(), (int)s.get_depth()}; }
inline Key key(const Cluster<double> &t, const Cluster<double> &s) { return {t.get_offset(), t.get_size(), (int)t.get_depth(), s.get_offset(), s.get_size(), (int)s.get_depth()}; }
// the answer for each block is free (budget blocks, after skipping `skip`), the others follow a fixed rule
struct ChoiceAdmissible : htool::VirtualAdmissibilityCondition<double> {
    mutable std::map<Key, bool> said;
    mutable int budget, skip;
    bool allow_overlap, rest;
    double eta = -1;
    mutable bool bad_eta = false;
    ChoiceAdmissible(int b, int s = 0, bool ao = false, bool r = false) : budget(b), skip(s), allow_overlap(ao), rest(r) {}
    bool ComputeAdmissibility(const Cluster<double> &t, const Cluster<double> &s, double e) const override {
        if (eta >= 0 && e != eta) bad_eta = true;
        Key k = key(t, s);
        auto it = said.find(k);
        if (it != said.end()) return it->second;
        bool r = false;
        if (!allow_overlap && overlap(t, s)) r = false;
        else if (skip > 0) { skip--; r = rest; }
        else if (budget > 0) { budget--; r = sx_choice("admissible", 2); }
        else r = rest;
        said[k] = r;
        return r;
    }
};
// the user's coefficients
template <class T> struct SymGen : htool::VirtualGenerator<T> {
    D<T> A;
    SymGen(const D<T> &a) : A(a) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *p) const override {
        for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
            sx_check(rows[i] >= 0 && rows[i] < A.m && cols[j] >= 0 && cols[j] < A.n, "generator asked for an index outside the matrix");
            p[i + M * j] = A(rows[i], cols[j]);
        }
    }
};
// coefficients in user numbering, with the requested symmetry
template <class T> D<T> coefficients(int m, int n, char sym) {
    D<T> a(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        if (sym == 'N' || i > j) a(i, j) = SX<T>::real("a");
        else if (i == j) { a(i, i) = SX<T>::real("a"); if (sym == 'H') a(i, i) = SX<T>::mk(SX<T>::re(a(i, i)), 0); }
    }
    if (sym != 'N') for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) a(i, j) = sym == 'H' ? SX<T>::cj(a(j, i)) : a(j, i);
    return a;
}
// each compression either gives factors of a chosen rank with free entries, or fails (factors left empty)
template <class T> struct StubLR : htool::VirtualLowRankGenerator<T, double> {
    struct Rec { Key k; bool failed; D<T> U, V; int req; double eps; };
    mutable std::vector<Rec> recs;
    std::vector<int> ranks; // -1: failure; chosen per block
    int fixed;              // >= -1: always this entry of ranks
    bool exact = false;     // factors reproduce the block: U = block, V = identity
    bool plain = false;     // fixed numbers in the factors
    mutable int cycle = -1; // >= 0: take the entries of ranks in turn, starting there
    StubLR(std::vector<int> r, int f = -2) : ranks(r), fixed(f) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cluster<double> &t, const Cluster<double> &s, double epsilon, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        Rec r;
        r.k = key(t, s);
        r.req = rank;
        r.eps = epsilon;
        int m = t.get_size(), n = s.get_size();
        int k = cycle >= 0 ? ranks[cycle++ % ranks.size()] : fixed >= -1 ? fixed : ranks[ranks.size() == 1 ? 0 : sx_choice("compression rank", (int)ranks.size())];
        r.failed = k < 0;
        if (!r.failed) {
            if (exact) {
                r.U = D<T>(m, n);
                A.copy_submatrix(m, n, t.get_offset(), s.get_offset(), r.U.v.data());
                r.V = D<T>(n, n);
                for (int i = 0; i < n; i++) r.V(i, i) = 1;
                rank = n;
            } else {
                r.U = symD<T>(m, k, "U");
                r.V = symD<T>(k, n, "V");
                rank = k;
                if (plain) for (size_t i = 0; i < r.U.v.size(); i++) r.U.v[i] = SX<T>::mk(1 + 0.5 * i, i % 2 ? 0.5 : -0.25);
                if (plain) for (size_t i = 0; i < r.V.v.size(); i++) r.V.v[i] = SX<T>::mk(0.75 - 0.5 * i, i % 2 ? -0.25 : 1);
            }
            U = fromD<Matrix<T>>(r.U);
            V = fromD<Matrix<T>>(r.V);
        }
        recs.push_back(r);
    }
    const Rec *find(const Key &k) const { for (auto &r : recs) if (r.k == k) return &r; return nullptr; }
};
template <class T> void leaves_of(const HMatrix<T> &h, std::vector<const HMatrix<T> *> &out) {
    if (h.get_children().empty()) out.push_back(&h);
    else for (auto &c : h.get_children()) leaves_of<T>(*c, out);
}
// leaves below a node whose diagonal block is stored symmetrically
template <class T> void mirrored_of(const HMatrix<T> &h, bool below, std::vector<const HMatrix<T> *> &out) {
    below = below || h.get_symmetry() != 'N';
    if (h.get_children().empty()) { if (below && h.get_target_cluster().get_offset() != h.get_source_cluster().get_offset()) out.push_back(&h); }
    else for (auto &c : h.get_children()) mirrored_of<T>(*c, below, out);
}
template <class T> D<T> leaf_dense(const HMatrix<T> &l) {
    if (l.is_dense()) return toD<T>(*l.get_dense_data());
    return mul(toD<T>(l.get_low_rank_data()->get_U()), toD<T>(l.get_low_rank_data()->get_V()));
}
// the dense matrix an H-matrix stands for, in cluster numbering relative to its root blocks
template <class T> D<T> represented(const HMatrix<T> &h, char sym = 'N', char uplo = 'N') {
    D<T> r(h.get_target_cluster().get_size(), h.get_source_cluster().get_size());
    int t0 = h.get_target_cluster().get_offset(), s0 = h.get_source_cluster().get_offset();
    std::vector<const HMatrix<T> *> L, M;
    leaves_of<T>(h, L);
    for (auto l : L) {
        D<T> b = leaf_dense<T>(*l);
        if (l->get_symmetry() != 'N' && l->is_dense()) b = mirror(b, l->get_UPLO(), l->get_symmetry());
        int i0 = l->get_target_cluster().get_offset() - t0, j0 = l->get_source_cluster().get_offset() - s0;
        for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) r(i0 + i, j0 + j) = b(i, j);
    }
    mirrored_of<T>(h, false, M);
    for (auto l : M) {
        D<T> b = leaf_dense<T>(*l);
        int i0 = l->get_target_cluster().get_offset(), j0 = l->get_source_cluster().get_offset();
        for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) r(j0 + j - t0, i0 + i - s0) = sym == 'H' ? SX<T>::cj(b(i, j)) : b(i, j);
    }
    return r;
}
// a built H-matrix over concrete clusters: storage symmetry, block structure and compression outcomes are case splits
template <class T> struct Built {
    std::unique_ptr<Cluster<double>> t, s;
    std::unique_ptr<HMatrix<T>> h;
    D<T> R; // the dense matrix it represents (cluster numbering)
    char sym = 'N', uplo = 'N';
    int part = -1;
};
struct Shape {
    int m = 4, n = 4, c = 2, P = 1;
    bool same = true;             // one cluster tree for both sides
    const char *uplos = "NLU";    // storage choices when square
    bool herm = true;             // allow 'H' for complex coefficients
    bool restrict_rank = false;   // restrict to one rank's rows
    std::vector<int> ranks{1, 0, -1};
    std::vector<int> structures{0, 1, 2, 3, 4}; // 0: one dense leaf, 1: hierarchy of dense leaves, 2: disjoint blocks low rank, 3: every block but the root low rank, 4: one low-rank leaf
    int mcs = 0;
    bool consistent = true;
    int scramble = 1;
    double eps = 0.25;
    bool leaf_root = true;        // structure 4 without partition: the root block itself is the leaf
    bool copies = false;          // symmetric storage also with an equal but distinct tree for the columns
};
template <class T> Built<T> build_hmatrix(const Shape &o) {
    Built<T> b;
    int st = o.structures[sx_choice("structure", (int)o.structures.size())];
    int mcs = st == 0 ? o.m + o.n : o.mcs;
    b.t.reset(new Cluster<double>(make_cluster(o.m, o.c, mcs, st == 0 ? 1 : o.P, o.scramble)));
    if (!o.same) b.s.reset(new Cluster<double>(make_cluster(o.n, o.c, mcs, st == 0 ? 1 : o.P, 2)));
    b.uplo = o.same && st < 3 ? pick("storage", o.uplos) : 'N';
    b.sym = b.uplo == 'N' ? 'N' : SX<T>::c && o.herm ? pick("symmetry", "SH") : 'S';
    if (o.restrict_rank && st != 0) b.part = sx_choice("rank", o.P);
    if (o.copies && st == 1 && b.sym != 'N' && sx_choice("distinct trees", 2)) b.s.reset(new Cluster<double>(make_cluster(o.m, o.c, mcs, o.P, o.scramble)));
    const Cluster<double> *tp = b.t.get(), *sp = b.s ? b.s.get() : tp;
    if (o.leaf_root && st == 4 && o.P == 1) { tp = tp->get_clusters_on_partition()[0]; sp = sp->get_clusters_on_partition()[0]; }
    const Cluster<double> &t = *tp, &s = *sp;
    HMatrixTreeBuilder<T> tb(t, s, o.eps, 3, b.sym, b.uplo, -1, b.part, o.same ? b.part : -1);
    if (b.sym == 'N') tb.set_block_tree_consistency(o.consistent);
    auto ad = std::make_shared<ChoiceAdmissible>(0, 0, st >= 3, st >= 2);
    if (st == 3) ad->said[key(t, s)] = false;
    tb.set_admissibility_condition(ad);
    auto lr = std::make_shared<StubLR<T>>(o.ranks);
    lr->cycle = st < 2 ? 0 : sx_choice("compression outcomes", (int)o.ranks.size());
    tb.set_low_rank_generator(lr);
    D<T> A = coefficients<T>(t.get_size(), s.get_size(), b.sym);
    SymGen<T> g(A);
    b.h.reset(new HMatrix<T>(tb.build(g)));
    b.R = represented<T>(*b.h, b.sym, b.uplo);
    return b;
}
// an H-matrix over given clusters. st as in Shape (1: hierarchy of dense leaves, 2: disjoint blocks low rank, 3: every block but the root low rank, 4: the root block is compressed)
template <class T> std::unique_ptr<HMatrix<T>> hm_over(const Cluster<double> &t, const Cluster<double> &s, int st, const std::vector<int> &ranks, int cycle, double eps, char sym = 'N', char uplo = 'N', int tpart = -1, int spart = -1, bool consistent = true, const D<T> *coef = nullptr, bool plain_lr = false) {
    HMatrixTreeBuilder<T> tb(t, s, eps, 3, sym, uplo, -1, tpart, spart);
    if (!consistent) tb.set_block_tree_consistency(false);
    auto ad = std::make_shared<ChoiceAdmissible>(0, 0, st >= 3, st >= 2);
    if (st == 3) ad->said[key(t, s)] = false;
    tb.set_admissibility_condition(ad);
    auto lr = std::make_shared<StubLR<T>>(ranks);
    lr->cycle = cycle;
    lr->plain = plain_lr;
    tb.set_low_rank_generator(lr);
    SymGen<T> g(coef ? *coef : coefficients<T>((int)t.get_permutation().size(), (int)s.get_permutation().size(), sym));
    return std::unique_ptr<HMatrix<T>>(new HMatrix<T>(tb.build(g)));
}
template <class T> void unchanged(const Built<T> &b, const char *msg) { eqD(represented<T>(*b.h, b.sym, b.uplo), b.R, msg); }
}
