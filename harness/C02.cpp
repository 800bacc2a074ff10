#include "cluster.hpp"
using namespace htool;
static void check_partition(const Cluster<double> &r, int n, int P) {
    const auto &onp = r.get_clusters_on_partition();
    sx_check((int)onp.size() == P, "number of partition nodes");
    int at = 0;
    std::vector<int> seen(n, 0);
    for (int p = 0; p < P; p++) {
        sx_check(onp[p] != nullptr, "missing partition node");
        sx_check(onp[p]->get_rank() == p, "partition node of the wrong rank");
        sx_check(&r.get_cluster_on_partition(p) == onp[p], "partition getter");
        sx_check(is_cluster_on_partition(*onp[p]), "partition node does not know it is one");
        sx_check(onp[p]->get_size() > 0, "empty partition node");
        sx_check(onp[p]->get_offset() == at, "partition nodes are consecutive in rank order");
        at += onp[p]->get_size();
        for (int i = onp[p]->get_offset(); i < at; i++) { sx_check(i < n, "partition node out of range"); int u = r.get_permutation()[i]; sx_check(!seen[u], "point owned twice"); seen[u] = 1; }
    }
    sx_check(at == n, "partition nodes cover all points");
}
static void points(std::vector<double> &x, int n, int k) {
    x.resize(n);
    for (int i = 0; i < n; i++) x[i] = (i * 7 + 3) % n;
    for (int i = 0; i < k; i++) x[(3 + 5 * i) % n] = sx_real("x");
}
// partition computed by the builder
SX_ENTRY(simple) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = sx_param("n", 16);
    if (sx_choice("few points", 2)) o.n = sx_param("small", 7);
    o.c = 2 + sx_choice("children", 4);
    o.mcs = sx_choice("minclustersize", 3);
    o.geo = sx_choice("splitting", 2);
    o.P = 1 + sx_choice("partitions", sx_param("p", 9));
    int sign = sx_choice("direction", 2) ? -1 : 1;
    std::vector<double> x;
    points(x, o.n, 1);
    auto b = sxc::builder(o, 0, sign);
    Cluster<double> root = b.create_cluster_tree(o.n, 1, x.data(), o.c, o.P);
    if (log->errors) {
        // only legitimate when a node at the partition level cannot be cut into that many parts
        int d = 0, q = 1;
        while (q * o.c <= o.P) { q *= o.c; d++; }
        int parts = o.P < o.c ? o.P : o.c + (o.P - q), above = o.P < o.c ? 1 : q / o.c;
        bool enough = true;
        int s = o.n;
        for (int k = 1; k < above; k *= o.c) { s /= o.c; if (s <= o.mcs) enough = false; }
        if (s / parts <= o.mcs) enough = false;
        if (o.geo && (above > 1 || s <= parts)) enough = false; // the geometric strategy only splits nodes with more points than children
        sx_check(!enough, "no partition although there are enough points");
        sx_reach("too few points for the partition");
        return;
    }
    check_partition(root, o.n, o.P);
    sx_check(!root.is_permutation_local(), "flag of a computed partition");
    sx_reach("end");
}
// partition given by the caller; the builder may have been used before
SX_ENTRY(given) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = 1 + sx_choice("n", sx_param("n", 5));
    o.c = 2 + sx_choice("children", 2);
    o.mcs = sx_choice("minclustersize", 2);
    o.geo = sx_choice("splitting", 2);
    o.P = 1 + sx_choice("partitions", std::min(o.n, sx_param("p", 3)));
    auto part = sxc::choose_partition(o.n, o.P);
    int reuse = sx_choice("builder reused", 3);
    std::vector<double> x(o.n);
    for (auto &v : x) v = sx_real("x");
    auto b = sxc::builder(o, 0, 1);
    double y[4] = {2, 0, 3, 1};
    int py[4] = {0, 3, 3, 1};
    if (reuse == 1) { Cluster<double> t = b.create_cluster_tree(4, 1, y, o.c, 2); }
    if (reuse == 2) { Cluster<double> t = b.create_cluster_tree(4, 1, y, o.c, 2, py); }
    int before = log->errors;
    Cluster<double> root = b.create_cluster_tree(o.n, 1, x.data(), o.c, o.P, part.data());
    sx_check(log->errors == before, "error for a valid partition");
    check_partition(root, o.n, o.P);
    sx_check(root.is_permutation_local(), "given partition is not flagged local");
    for (int p = 0; p < o.P; p++) {
        const auto &c = root.get_cluster_on_partition(p);
        sx_check(c.get_offset() == part[2 * p] && c.get_size() == part[2 * p + 1], "partition node differs from the given one");
        sx_check(c.is_permutation_local(), "flag seen from a node");
        for (int i = part[2 * p]; i < part[2 * p] + part[2 * p + 1]; i++) { int u = root.get_permutation()[i]; sx_check(u >= part[2 * p] && u < part[2 * p] + part[2 * p + 1], "permutation leaves the rank's range"); }
    }
    if (reuse == 0) { // then let the same builder compute a partition
        Cluster<double> t = b.create_cluster_tree(4, 1, y, 2, 2);
        if (o.mcs < 2) check_partition(t, 4, 2);
        sx_check(!t.is_permutation_local(), "flag of a computed partition after a given one");
    }
    sx_reach("end");
}
