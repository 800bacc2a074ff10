#include "cluster.hpp"
using namespace htool;
// Tree over symbolic one-dimensional points (any order, ties included), every option.
SX_ENTRY(tree) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = 1 + sx_choice("n", sx_param("n", 4));
    o.c = 2 + sx_choice("children", 2);
    o.mcs = sx_choice("minclustersize", 3);
    o.geo = sx_choice("splitting", 2);
    int kind = sx_choice("partition kind", 2);
    o.P = 1 + sx_choice("partitions", std::min(o.n, sx_param("p", 3)));
    if (kind) { o.given = true; o.part = sxc::choose_partition(o.n, o.P); }
    else if (o.n < (o.mcs + 1) * o.P) sx_prune(); // not enough points for the requested partition
    int sign = sx_choice("direction", 2) ? -1 : 1;
    std::vector<double> x(o.n), w(o.n, 1.), rad(o.n, 0.);
    for (auto &v : x) v = sx_real("x");
    auto b = sxc::builder(o, 0, sign);
    Cluster<double> root = kind ? b.create_cluster_tree(o.n, 1, x.data(), rad.data(), w.data(), o.c, o.P, o.part.data()) : b.create_cluster_tree(o.n, 1, x.data(), rad.data(), w.data(), o.c, o.P, nullptr);
    if (log->errors) { sx_reach("too few points for the partition"); return; }
    sxc::check_tree(root, o);
    sx_check(&root.get_root_cluster() == &root, "root link");
    sx_reach("end");
}
// No user weights and radii, several dimensions, default options; structure depends on the order only.
SX_ENTRY(bigger) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = sx_param("n", 18);
    o.c = 2 + sx_choice("children", 3);
    o.mcs = sx_choice("minclustersize", 4);
    o.geo = sx_choice("splitting", 2);
    o.P = 1 + sx_choice("partitions", 6);
    if (o.n / (o.mcs + 1) < o.P * 2) sx_prune();
    std::vector<double> x(o.n);
    for (int i = 0; i < o.n; i++) x[i] = (i * 7) % o.n;
    int k = sx_param("free", 1);
    for (int i = 0; i < k; i++) x[3 + 5 * i] = sx_real("x");
    auto b = sxc::builder(o, 0, 1);
    Cluster<double> root = b.create_cluster_tree(o.n, 1, x.data(), o.c, o.P);
    if (log->errors) { sx_reach("too few points for the partition"); return; }
    sxc::check_tree(root, o);
    // moving the root keeps everything
    Cluster<double> moved(std::move(root));
    sxc::check_tree(moved, o);
    sx_reach("end");
}
