#include "cluster.hpp"
using namespace htool;
// records the direction used for every node
struct Recording final : VirtualDirectionComputationStrategy<double> {
    std::shared_ptr<VirtualDirectionComputationStrategy<double>> inner;
    std::vector<std::pair<std::pair<int, int>, std::vector<double>>> seen; // (depth, offset) -> direction
    std::vector<double> compute_direction(const Cluster<double> *c, const std::vector<int> &p, int d, const double *const x, const double *const r, const double *const w) override {
        auto v = inner->compute_direction(c, p, d, x, r, w);
        seen.push_back({{(int)c->get_depth(), c->get_offset()}, v});
        return v;
    }
};
struct Cat { int n, dim; std::vector<double> x; };
static std::vector<double> points(int n, int dim) { std::vector<double> x(n * dim); for (auto &v : x) v = sx_real_in("x", -1e6, 1e6); return x; }
// the axis of largest extent, anywhere in space
SX_ENTRY(bounding_box) {
    sxc::quiet();
    int dim = 1 + sx_choice("dim", 3), n = 1 + sx_choice("n", sx_param("n", 3)), off = sx_choice("offset", 2);
    auto x = points(n + off, dim);
    std::vector<int> perm(n + off);
    for (int i = 0; i < n + off; i++) perm[i] = n + off - 1 - i;
    std::vector<double> w(n + off, 1.), r(n + off, 0.), c(dim, 0.);
    Cluster<double> node(1., c, 0, off, n);
    ComputeBoundingBox<double> s;
    auto d = s.compute_direction(&node, perm, dim, x.data(), r.data(), w.data());
    sx_check((int)d.size() == dim, "dimension of the direction");
    int axis = -1;
    for (int p = 0; p < dim; p++) if (d[p] != 0) { sx_check(axis < 0, "direction along two axes"); axis = p; }
    sx_check(axis >= 0 && d[axis] * d[axis] == 1, "direction is not a coordinate axis");
    // the chosen axis has two points at least as far apart as any two points along any other axis
    std::vector<double> ext(dim);
    for (int p = 0; p < dim; p++) {
        double lo = x[dim * perm[off] + p], hi = lo;
        for (int i = 1; i < n; i++) { double v = x[dim * perm[off + i] + p]; lo = v < lo ? v : lo; hi = v > hi ? v : hi; }
        ext[p] = hi - lo;
    }
    double tiny = 2.3e-308; // extents below the smallest normal number count as zero
    for (int p = 0; p < dim; p++) sx_check(ext[p] <= ext[axis] || ext[p] <= tiny, "an axis of larger extent exists");
    sx_reach("end");
}
static void order(const Cluster<double> &t, const Recording &R, const std::vector<double> &x, int dim, bool regular) {
    const auto &ch = t.get_children();
    if (!ch.empty()) {
        const std::vector<double> *dir = nullptr;
        for (auto &s : R.seen) if (s.first.first == (int)t.get_depth() && s.first.second == t.get_offset()) dir = &s.second;
        sx_check(dir != nullptr, "node split without a direction");
        auto proj = [&](int i) { double s = 0; for (int d = 0; d < dim; d++) s += (*dir)[d] * x[dim * t.get_permutation()[i] + d]; return s; };
        int smin = 1 << 30, smax = 0;
        for (size_t k = 0; k < ch.size(); k++) {
            smin = std::min(smin, ch[k]->get_size());
            smax = std::max(smax, ch[k]->get_size());
            if (k + 1 < ch.size())
                for (int i = ch[k]->get_offset(); i < ch[k]->get_offset() + ch[k]->get_size(); i++)
                    for (int j = ch[k + 1]->get_offset(); j < ch[k + 1]->get_offset() + ch[k + 1]->get_size(); j++) sx_check_le(proj(i), proj(j), "children are not ordered along the direction");
        }
        if (regular) sx_check(smax - smin < (int)ch.size(), "regular splitting is unbalanced");
    }
    for (auto &c : ch) order(*c, R, x, dim, regular);
}
// whole trees on the strategy's own directions
SX_ENTRY(ordering) {
    auto log = sxc::quiet();
    sxc::Opt o;
    int dim = 1 + sx_choice("dim", 2);
    o.n = 2 + sx_choice("n", sx_param(dim == 1 ? "n1" : "n2", 2));
    o.c = 2 + sx_choice("children", 2);
    o.mcs = sx_choice("minclustersize", 2);
    o.geo = sx_choice("splitting", 2);
    auto x = points(o.n, dim);
    auto rec = std::make_shared<Recording>();
    if (sx_choice("strategy", 2)) rec->inner = std::make_shared<sxc::AxisDirection>(dim - 1, -1);
    else rec->inner = std::make_shared<ComputeBoundingBox<double>>();
    auto b = sxc::builder(o, -1, 1);
    b.set_direction_computation_strategy(rec);
    Cluster<double> root = b.create_cluster_tree(o.n, dim, x.data(), o.c, 1);
    order(root, *rec, x, dim, !o.geo);
    sx_reach("end");
}
// larger nodes (the introsort path) with a free coordinate
SX_ENTRY(ordering_large) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = sx_param("n", 20);
    o.c = 2 + sx_choice("children", 3);
    o.mcs = 1;
    o.geo = sx_choice("splitting", 2);
    std::vector<double> x(o.n);
    for (int i = 0; i < o.n; i++) x[i] = ((i * 7) % o.n) - o.n / 2;
    for (int k = 0; k < sx_param("free", 1); k++) x[(4 + 9 * k) % o.n] = sx_real("x");
    auto rec = std::make_shared<Recording>();
    rec->inner = std::make_shared<sxc::AxisDirection>(0, sx_choice("direction", 2) ? -1 : 1);
    auto b = sxc::builder(o, -1, 1);
    b.set_direction_computation_strategy(rec);
    Cluster<double> root = b.create_cluster_tree(o.n, 1, x.data(), o.c, 1);
    order(root, *rec, x, 1, !o.geo);
    sx_reach("end");
}
// principal axis in the plane: eigenvector of the largest eigenvalue of any covariance
SX_ENTRY(principal2) {
    double a = sx_real("a"), b = sx_real("b"), c = sx_real("c");
    sx_assume(a >= 0.01);
    sx_assume(c >= 0);
    sx_assume(a * c >= b * b);
    int k = sx_choice("case", 3);
    if (k == 0) sx_assume(b >= 0.001);
    else if (k == 1) sx_assume(b <= -0.001);
    else { b = 0; sx_assume(a - c >= 0.001 || c - a >= 0.001); }
    Matrix<double> cov(2, 2);
    cov(0, 0) = a; cov(1, 1) = c; cov(0, 1) = cov(1, 0) = b;
    auto d = solve_EVP_2(cov);
    sx_check_eq(d[0] * d[0] + d[1] * d[1], 1, "direction is not a unit vector");
    // eigenvector: cov d parallel to d
    double u = a * d[0] + b * d[1], v = b * d[0] + c * d[1];
    sx_check_eq(u * d[1], v * d[0], "direction is not an eigenvector");
    // and not the smallest one: the variance along it is at least half the trace
    sx_check_le((a + c) / 2, d[0] * u + d[1] * v, "direction is not the one of maximal variance");
    sx_reach("end");
}
// principal axis of two points of any weights is the line through them
SX_ENTRY(principal_pair) {
    sxc::quiet();
    double ax = sx_real("ax"), ay = sx_real("ay"), bx = sx_real("bx"), by = sx_real("by");
    std::vector<double> x{bx, by, ax, ay}, w{1, 1};
    int k = sx_choice("case", 4);
    if (k == 0) sx_assume(ax - bx >= 1);
    if (k == 1) sx_assume(bx - ax >= 1);
    if (k == 2) { sx_assume(ay - by >= 1); }
    if (k == 3) { sx_assume(by - ay >= 1); }
    std::vector<int> perm{1, 0};
    std::vector<double> c{(ax + bx) / 2, (ay + by) / 2};
    Cluster<double> node(1., c, 0, 0, 2);
    ComputeLargestExtent<double> s;
    auto d = s.compute_direction(&node, perm, 2, x.data(), nullptr, w.data());
    sx_check_eq(d[0] * (ay - by), d[1] * (ax - bx), "principal axis of two points");
    sx_check(d[0] != 0 || d[1] != 0, "no direction");
    sx_reach("end");
}
// principal axis in space for diagonal covariances
SX_ENTRY(principal3_diagonal) {
    double l[3];
    for (auto &v : l) { v = sx_real("l"); sx_assume(v >= 0.01); }
    Matrix<double> cov(3, 3);
    for (int i = 0; i < 3; i++) cov(i, i) = l[i];
    auto d = solve_EVP_3(cov);
    sx_check_eq(d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1, "direction is not a unit vector");
    double v = 0;
    for (int i = 0; i < 3; i++) v += d[i] * d[i] * l[i];
    for (int i = 0; i < 3; i++) sx_check_le(l[i], v, "direction is not the one of maximal variance");
    sx_reach("end");
}
// principal axis in space for a catalogue of point sets with simple leading eigenvalue: no direction e has more variance
SX_ENTRY(principal3_sets) {
    sxc::quiet();
    static const double S[][12] = {{1, 2, 3, -1, -2, -3.5, 0, 0.5, 0, 0.25, 0, -0.5}, {5, 0, 1, -5, 0, -1, 0, 2, 0, 0, -2, 0}, {1, 1, 0, -1, -1, 0, 0.5, -0.5, 2, -0.5, 0.5, -2},
                                   {-3, -4, -5, -6, -7, -8, -9, -11, -12, -20, -21, -25}, {0, 0, 1, 0, 1, 3, 1, 0, -4, 2, 2, 2}, {100, 1, 0.5, 101, -1, 0.25, 103, 3, 0, 98, 0, 1}};
    int k = sx_choice("set", 6), n = 4;
    std::vector<double> x(S[k], S[k] + 12), w(n, 1.), c(3, 0.);
    if (sx_choice("weights", 2)) { w[0] = 3; w[2] = 0.5; }
    double W = 0;
    for (int i = 0; i < n; i++) { W += w[i]; for (int d = 0; d < 3; d++) c[d] += w[i] * x[3 * i + d]; }
    for (auto &v : c) v /= W;
    std::vector<int> perm{2, 0, 3, 1};
    Cluster<double> node(1., c, 0, 0, n);
    ComputeLargestExtent<double> s;
    auto d = s.compute_direction(&node, perm, 3, x.data(), nullptr, w.data());
    double e[3], vd = 0, ve = 0;
    for (auto &v : e) v = sx_real("e");
    for (int i = 0; i < n; i++) {
        double pd = 0, pe = 0;
        for (int q = 0; q < 3; q++) { pd += d[q] * (x[3 * i + q] - c[q]); pe += e[q] * (x[3 * i + q] - c[q]); }
        vd += w[i] * pd * pd;
        ve += w[i] * pe * pe;
    }
    double nd = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
    sx_check(nd > 0.999999 && nd < 1.000001, "direction is not a unit vector");
    sx_check(ve <= 1.000001 * vd * (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]), "a direction of larger variance exists");
    sx_reach("end");
}
