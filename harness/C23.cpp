// Matrices are values: every history of copies, moves, assignments, views and resizes.
#include "hmat.hpp"
#include "lr.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
using namespace htool;
typedef SXT T;
typedef Matrix<T> M;
struct Slot {
    M *o = nullptr;
    D<T> v;           // expected value
    int view = -1;    // >= 0: looks at this buffer
    bool any = false; // moved from: only destruction and assignment are meaningful
};
struct World {
    std::vector<T> buf[2];
    std::vector<T> keep[2]; // expected contents
    Slot s[2];
};
static void look(World &w) {
    for (auto &s : w.s) {
        if (s.any) continue;
        if (s.view >= 0) for (size_t k = 0; k < s.v.v.size(); k++) s.v.v[k] = w.keep[s.view][k];
        eqM(*s.o, s.v, "value of a matrix after a history of copies, moves and assignments");
    }
    for (int b = 0; b < 2; b++) for (size_t k = 0; k < w.keep[b].size(); k++) SX<T>::eq(w.buf[b][k], w.keep[b][k], "data behind a view changed");
}
// the slot got a value: a view may either keep looking at its buffer (which then holds the value) or let go of it
static void got(World &w, Slot &s, const D<T> &v) {
    s.any = false;
    s.v = v;
    if (s.view >= 0) {
        if (s.o->data() == w.buf[s.view].data()) for (size_t k = 0; k < v.v.size(); k++) w.keep[s.view][k] = v.v[k];
        else s.view = -1;
    }
}
static void step(World &w, bool first) {
    // kinds with the number of operand variants
    static const int variants[] = {2, 4, 2, 4, 4, 4, 2, 2, 2, 2, 2};
    int total = 0;
    for (int v : variants) total += v;
    int c = sx_choice("operation", total), kind = 0;
    while (c >= variants[kind]) c -= variants[kind++];
    int i = c & 1, j = c >> 1 & 1;
    Slot &d = w.s[i];
    if (kind == 0 || kind == 2) j = 1 - i;
    Slot &s = w.s[j];
    static const int sh[3][2] = {{1, 2}, {2, 1}, {0, 2}};
    switch (kind) {
    case 0: { // copy construction
        if (s.any) sx_prune();
        M *n = new M(*s.o);
        delete d.o;
        d.o = n; d.view = -1; d.any = false; d.v = s.v;
        break;
    }
    case 1: // copy assignment
        if (s.any) sx_prune();
        *d.o = *s.o;
        if (i != j) got(w, d, s.v);
        break;
    case 2: { // move construction
        M *n = new M(std::move(*s.o));
        delete d.o;
        d.o = n; d.view = s.view; d.any = s.any; d.v = s.v;
        s.any = true; s.view = -1;
        break;
    }
    case 3: // move assignment
        *d.o = std::move(*s.o);
        if (i != j) { d.view = s.view; d.any = s.any; d.v = s.v; s.any = true; s.view = -1; }
        break;
    case 4: { // resize
        T x = SX<T>::real("x");
        d.o->resize(sh[j][0], sh[j][1] + (j ? 1 : 0), x);
        D<T> v(sh[j][0], sh[j][1] + (j ? 1 : 0));
        for (auto &e : v.v) e = x;
        got(w, d, v);
        break;
    }
    case 5: { // view of a buffer
        d.o->assign(j ? 2 : 1, j ? 2 : 2, w.buf[j].data(), false);
        d.view = j; d.any = false;
        d.v = D<T>(j ? 2 : 1, 2);
        break;
    }
    case 6: { // take over a block of memory
        T *p = new T[2];
        d.v = symD<T>(2, 1, "p");
        p[0] = d.v.v[0]; p[1] = d.v.v[1];
        d.o->assign(2, 1, p, true);
        d.view = -1; d.any = false;
        break;
    }
    case 7: { // give up the memory
        T *p = d.o->release();
        if (d.view < 0) delete[] p;
        d.any = true; d.view = -1;
        break;
    }
    case 8: // write an entry
        if (d.any || d.v.v.empty()) sx_prune();
        {
            T x = SX<T>::real("w");
            (*d.o)(d.v.m - 1, d.v.n - 1) = x;
            d.v.v.back() = x;
            if (d.view >= 0) w.keep[d.view][d.v.v.size() - 1] = x;
        }
        break;
    case 9: { // a new, possibly empty matrix
        delete d.o;
        d.o = new M(sh[2 * c][0], sh[2 * c][1]);
        d.v = D<T>(sh[2 * c][0], sh[2 * c][1]);
        d.view = -1; d.any = false;
        break;
    }
    case 10: { // all entries
        if (d.any) sx_prune();
        T x = SX<T>::real("all");
        *d.o = x;
        for (auto &e : d.v.v) e = x;
        if (d.view >= 0) for (size_t k = 0; k < d.v.v.size(); k++) w.keep[d.view][k] = x;
        break;
    }
    }
}
SX_ENTRY(dense) {
    int live;
    {
        live = sx_live();
        World w;
        for (int b = 0; b < 2; b++) { for (int k = 0; k < (b ? 4 : 2); k++) w.keep[b].push_back(SX<T>::real("buf")); w.buf[b] = w.keep[b]; }
        w.s[0].v = symD<T>(1, 2, "a");
        w.s[0].o = new M(fromD<M>(w.s[0].v));
        w.s[1].o = new M();
        int n = sx_param("steps", 3);
        for (int k = 0; k < n; k++) { step(w, k == 0); look(w); }
        for (auto &s : w.s) delete s.o;
        for (int b = 0; b < 2; b++) for (size_t k = 0; k < w.keep[b].size(); k++) SX<T>::eq(w.buf[b][k], w.keep[b][k], "data behind a view changed by the destructor");
    }
    sx_check(sx_live() == live, "memory leaked");
    sx_reach("end");
}
SX_ENTRY(lowrank) {
    int live;
    {
        live = sx_live();
        typedef LowRankMatrix<T> L;
        L *o[2];
        sxl::LR<T> v[2];
        double eps[2] = {0.25, 0.5};
        for (int k = 0; k < 2; k++) { v[k] = sxl::sym<T>(2, k ? 1 : 2, sx_choice("rank", 3), "f"); o[k] = new L(sxl::make<T>(v[k], eps[k])); }
        for (int n = 0; n < sx_param("steps", 3); n++) {
            int c = sx_choice("operation", 10), i = c & 1;
            if (c < 2) { L *t = new L(*o[1 - i]); delete o[i]; o[i] = t; v[i] = v[1 - i]; eps[i] = eps[1 - i]; }
            else if (c < 4) { *o[i] = *o[1 - i]; v[i] = v[1 - i]; eps[i] = eps[1 - i]; }
            else if (c < 6) *o[i] = *o[i];
            else if (c < 8) { L t(std::move(*o[1 - i])); *o[i] = std::move(t); v[i] = v[1 - i]; eps[i] = eps[1 - i]; delete o[1 - i]; v[1 - i] = sxl::sym<T>(1, 2, 1, "g"); o[1 - i] = new L(sxl::make<T>(v[1 - i], 0.125)); eps[1 - i] = 0.125; }
            else {
                if (v[i].U.n == 0) sx_prune();
                T x = SX<T>::real("w");
                o[i]->get_U()(0, 0) = x;
                v[i].U(0, 0) = x;
                x = SX<T>::real("w");
                o[i]->get_V()(0, 0) = x;
                v[i].V(0, 0) = x;
            }
            for (int k = 0; k < 2; k++) { eqM(o[k]->get_U(), v[k].U, "left factor of a low-rank matrix"); eqM(o[k]->get_V(), v[k].V, "right factor of a low-rank matrix"); sx_check(o[k]->get_epsilon() == eps[k] && o[k]->rank_of() == v[k].U.n, "attributes of a low-rank matrix"); }
        }
        delete o[0];
        delete o[1];
    }
    sx_check(sx_live() == live, "memory leaked");
    sx_reach("end");
}
typedef HMatrix<T> H;
struct Val { D<T> R; char sym, uplo, ls, lu; double eps, eta; std::vector<const H *> none; std::vector<int> shape; };
static void shape_of(const H &h, std::vector<int> &o) {
    o.push_back((int)h.get_storage_type());
    o.push_back(h.get_symmetry()); o.push_back(h.get_UPLO());
    o.push_back(h.get_symmetry_for_leaves()); o.push_back(h.get_UPLO_for_leaves());
    o.push_back(h.get_depth()); o.push_back(h.is_root()); o.push_back(h.is_block_tree_consistent());
    o.push_back(h.get_target_cluster().get_offset()); o.push_back(h.get_target_cluster().get_size());
    o.push_back(h.get_source_cluster().get_offset()); o.push_back(h.get_source_cluster().get_size());
    o.push_back(h.get_rank()); o.push_back(h.get_dense_data() != nullptr); o.push_back(h.get_low_rank_data() != nullptr);
    o.push_back((int)h.get_children().size());
    for (auto &c : h.get_children()) shape_of(*c, o);
}
static void every_epsilon(const H &h, double e, double eta) {
    sx_check(h.get_epsilon() == e && h.get_hmatrix_tree_data()->m_eta == eta, "a parameter of the tree as seen from one of its nodes");
    for (auto &c : h.get_children()) every_epsilon(*c, e, eta);
}
static Val value_of(const H &h, char sym, char uplo) {
    Val v;
    v.sym = sym; v.uplo = uplo;
    v.R = sxh::represented<T>(h, sym, uplo);
    v.eps = h.get_epsilon();
    v.eta = h.get_hmatrix_tree_data()->m_eta;
    shape_of(h, v.shape);
    return v;
}
static void is(const H &h, const Val &v, const D<T> &x, const char *msg) {
    std::vector<int> s;
    shape_of(h, s);
    sx_check(s == v.shape, msg);
    eqD(sxh::represented<T>(h, v.sym, v.uplo), v.R, msg);
    every_epsilon(h, v.eps, v.eta);
    // and it behaves like one
    D<T> y(v.R.m, 1), xx = sub(x, 0, 0, v.R.n, 1);
    internal_add_hmatrix_vector_product('N', T(1), h, xx.v.data(), T(0), y.v.data());
    eqD(y, mul(v.R, xx), "product with a copied, moved or assigned H-matrix");
}
static H *drop(std::unique_ptr<H> &p) { return p.release(); }
SX_ENTRY(hier) {
    auto log = sxc::quiet();
    int live;
    {
        // two matrices over the same or different clusters
        Cluster<double> t = sxh::make_cluster(4, 2, 0, 2, 1), s = sxh::make_cluster(3, 2, 0, 2, 2);
        D<T> x = symD<T>(4, 1, "x");
        D<T> A = sxh::coefficients<T>(4, 4, 'N'), B = sxh::coefficients<T>(4, 3, 'N');
        live = sx_live();
        {
            H *o[2];
            Val v[2];
            bool any[2] = {false, false};
            auto make = [&](int k, int kind) {
                // 0: symmetric hierarchy; 1: general with low-rank blocks; 2: one dense leaf; 3: one low-rank leaf; 4: rows of one partition; 5: leaf of a symmetric diagonal
                const Cluster<double> &p = *t.get_clusters_on_partition()[1];
                std::unique_ptr<H> h;
                char u = 'N', y = 'N';
                if (kind == 0) { u = k ? 'U' : 'L'; y = SX<T>::c && k ? 'H' : 'S'; D<T> S = mirror(A, u, y); h = sxh::hm_over<T>(t, t, 1, {1}, 0, 0.25, y, u, -1, -1, true, &S, true); }
                else if (kind == 1) h = sxh::hm_over<T>(t, s, 3, {1, 0, -1}, k, 0.5, 'N', 'N', -1, -1, true, &B, true);
                else if (kind == 2) h = sxh::hm_over<T>(*p.get_children()[0], *p.get_children()[1], 1, {1}, 0, 0.125, 'N', 'N', -1, -1, true, &A, true);
                else if (kind == 3) h = sxh::hm_over<T>(p, *t.get_clusters_on_partition()[0], 4, {1}, 0, 0.75, 'N', 'N', -1, -1, true, &A, true);
                else h = sxh::hm_over<T>(t, s, 2, {1, -1}, 0, 0.0625, 'N', 'N', k, -1, true, &B, true);
                o[k] = h.release();
                v[k] = value_of(*o[k], y, u);
            };
            make(0, sx_choice("first", 5));
            make(1, sx_choice("second", 5));
            for (int n = 0; n < sx_param("steps", 2); n++) {
                int c = sx_choice("operation", 12), i = c & 1, j = 1 - i;
                if (c < 8 && c != 6 && c != 7 && any[j]) sx_prune();
                if (c < 2) { H *q = new H(*o[j]); delete o[i]; o[i] = q; v[i] = v[j]; any[i] = false; }
                else if (c < 4) { *o[i] = *o[j]; v[i] = v[j]; any[i] = false; }
                else if (c < 6) { H *q = new H(std::move(*o[j])); delete o[i]; o[i] = q; v[i] = v[j]; any[i] = false; any[j] = true; }
                else if (c < 8) { if (any[j]) sx_prune(); *o[i] = std::move(*o[j]); v[i] = v[j]; any[i] = false; any[j] = true; }
                else if (c < 10) { // change the contents
                    if (any[i]) sx_prune();
                    scale(T(2), *o[i]);
                    for (auto &e : v[i].R.v) e *= T(2);
                } else { // change a parameter
                    if (any[i]) sx_prune();
                    o[i]->set_epsilon(0.375);
                    o[i]->set_eta(7);
                    v[i].eps = 0.375;
                    v[i].eta = 7;
                }
                for (int k = 0; k < 2; k++) if (!any[k]) is(*o[k], v[k], x, "an H-matrix after a history of copies, moves and assignments");
            }
            int f = sx_choice("destroyed first", 2);
            delete o[f];
            if (!any[1 - f]) is(*o[1 - f], v[1 - f], x, "an H-matrix after the other one is gone");
            delete o[1 - f];
        }
        sx_check(sx_live() == live, "memory leaked");
    }
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
