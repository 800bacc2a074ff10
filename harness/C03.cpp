#include "cluster.hpp"
#include <htool/hmatrix/interfaces/virtual_admissibility_condition.hpp>
using namespace htool;
struct Geo { int n, dim; std::vector<double> x, w, r; bool dw, dr; };
static void check_node(const Cluster<double> &t, const Geo &g) {
    const auto &p = t.get_permutation();
    sx_check((int)t.get_center().size() == g.dim, "dimension of the centre");
    double W = 0;
    for (int i = 0; i < t.get_size(); i++) W += g.w[p[t.get_offset() + i]];
    for (int d = 0; d < g.dim; d++) {
        double s = 0;
        for (int i = 0; i < t.get_size(); i++) { int u = p[t.get_offset() + i]; s += g.w[u] * g.x[u * g.dim + d]; }
        sx_check_eq(t.get_center()[d] * W, s, "centre is the weighted mean of the points");
    }
    for (int i = 0; i < t.get_size(); i++) {
        int u = p[t.get_offset() + i];
        double q = 0;
        for (int d = 0; d < g.dim; d++) { double e = g.x[u * g.dim + d] - t.get_center()[d]; q += e * e; }
        sx_check_le(std::sqrt(q) + g.r[u], t.get_radius(), "ball does not contain a point with its radius");
    }
    for (auto &c : t.get_children()) check_node(*c, g);
}
SX_ENTRY(geometry) {
    auto log = sxc::quiet();
    sxc::Opt o;
    Geo g;
    g.dim = 1 + sx_choice("dim", sx_param("dim", 2));
    g.n = o.n = 1 + sx_choice("n", sx_param(g.dim == 1 ? "n1" : "n", 2));
    o.mcs = 0;
    o.geo = 0;
    int kind = sx_choice("partition kind", 2);
    o.P = 1 + sx_choice("partitions", std::min(o.n, 2));
    g.dw = sx_choice("weights given", 2);
    g.dr = sx_choice("radii given", 2);
    g.x.resize(g.n * g.dim);
    for (auto &v : g.x) v = sx_real("x");
    g.w.assign(g.n, 1.);
    g.r.assign(g.n, 0.);
    if (g.dw) for (auto &v : g.w) { v = sx_real("w"); sx_assume(v > 0); }
    if (g.dr) for (auto &v : g.r) { v = sx_real("r"); sx_assume(v >= 0); }
    auto b = sxc::builder(o, sx_choice("axis", g.dim), 1);
    if (kind) o.part = sxc::choose_partition(o.n, o.P);
    Cluster<double> root = b.create_cluster_tree(g.n, g.dim, g.x.data(), g.dr ? g.r.data() : nullptr, g.dw ? g.w.data() : nullptr, 2, o.P, kind ? o.part.data() : nullptr);
    check_node(root, g);
    sx_reach("end");
}
// admissibility on arbitrary balls
SX_ENTRY(admissibility) {
    sxc::quiet();
    int dim = 1 + sx_choice("dim", 3);
    std::vector<double> c1(dim), c2(dim);
    for (auto &v : c1) v = sx_real("c1");
    for (auto &v : c2) v = sx_real("c2");
    double r1 = sx_real("r1"), r2 = sx_real("r2"), eta = sx_real("eta");
    sx_assume(r1 >= 0);
    sx_assume(r2 >= 0);
    sx_assume(eta > 0);
    Cluster<double> a(r1, c1, 0, 0, 1), b(r2, c2, 0, 0, 1);
    RjasanowSteinbach<double> cond;
    bool adm = cond.ComputeAdmissibility(a, b, eta);
    double q = 0;
    for (int d = 0; d < dim; d++) q += (c1[d] - c2[d]) * (c1[d] - c2[d]);
    double gap = std::sqrt(q) - r1 - r2, m = r1 < r2 ? r1 : r2;
    if (adm) {
        sx_check(gap > 0, "admissible although the balls touch");
        sx_check(2 * m < eta * gap, "admissible although the diameter exceeds eta times the distance");
        sx_reach("admissible");
    } else sx_reach("not admissible");
    sx_check(adm == cond.ComputeAdmissibility(b, a, eta), "admissibility is not symmetric");
}
