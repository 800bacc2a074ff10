#include "cluster.hpp"
using namespace htool;
// equal up to the precision of the printed text
static void close(double a, double b, const char *m) { double t = 1e-5 * (a < 0 ? -a : a); sx_check_le(a - b, t, m); sx_check_le(b - a, t, m); }
static void same(const Cluster<double> &a, const Cluster<double> &b) {
    sx_check(a.get_offset() == b.get_offset() && a.get_size() == b.get_size(), "range of a node");
    sx_check(a.get_rank() == b.get_rank(), "rank of a node");
    sx_check(a.get_depth() == b.get_depth(), "depth of a node");
    sx_check(a.get_counter() == b.get_counter(), "counter of a node");
    sx_check(a.is_root() == b.is_root(), "root flag");
    sx_check(a.get_center().size() == b.get_center().size(), "dimension of the centre");
    for (size_t k = 0; k < a.get_center().size(); k++) close(a.get_center()[k], b.get_center()[k], "centre");
    close(a.get_radius(), b.get_radius(), "radius");
    sx_check(a.get_children().size() == b.get_children().size(), "number of children");
    for (size_t k = 0; k < a.get_children().size(); k++) same(*a.get_children()[k], *b.get_children()[k]);
}
SX_ENTRY(round_trip) {
    auto log = sxc::quiet();
    sxc::Opt o;
    int sz = sx_param("n", 6);
    o.n = sx_choice("many points", 2) ? sz + 9 : 1 + sx_choice("n", sz);
    o.c = 2 + sx_choice("children", 2);
    o.mcs = sx_choice("minclustersize", 3);
    o.geo = sx_choice("splitting", 2);
    int kind = sx_choice("partition kind", 2);
    o.P = 1 + sx_choice("partitions", std::min(o.n, 4));
    if (kind) { if (o.n > sz) { o.part.clear(); for (int p = 0; p < o.P; p++) { int at = p * (o.n / o.P); o.part.push_back(at); o.part.push_back(p == o.P - 1 ? o.n - at : o.n / o.P); } } else if (o.P > 2) sx_prune(); else o.part = sxc::choose_partition(o.n, o.P); }
    int dim = 1 + sx_choice("dim", 2);
    std::vector<double> x(o.n * dim);
    for (int i = 0; i < o.n * dim; i++) x[i] = ((i * 5) % 11) * 0.5 - 2;
    if (dim == 1 && o.n <= sz) x[0] = sx_real_in("x", -1000, 1000);
    auto b = sxc::builder(o, 0, 1);
    Cluster<double> root = b.create_cluster_tree(o.n, dim, x.data(), o.c, o.P, kind ? o.part.data() : nullptr);
    if (log->errors) sx_prune();
    root.set_minclustersize(5 + o.mcs);
    std::string base = sx_path("tree");
    save_cluster_tree(root, base);
    Cluster<double> r = read_cluster_tree<double>(base + "_cluster_tree_properties.csv", base + "_cluster_tree.csv");
    sx_check(log->errors == 0, "error while reading");
    sx_check(r.get_permutation() == root.get_permutation(), "permutation");
    sx_check(r.is_permutation_local() == root.is_permutation_local(), "local flag");
    sx_check(r.get_minimal_depth() == root.get_minimal_depth() && r.get_maximal_depth() == root.get_maximal_depth(), "depth bounds");
    sx_check(r.get_minclustersize() == root.get_minclustersize(), "minimal cluster size");
    same(root, r);
    const auto &p = root.get_clusters_on_partition(), &q = r.get_clusters_on_partition();
    sx_check(p.size() == q.size(), "number of partition nodes");
    for (size_t k = 0; k < p.size(); k++) sx_check(q[k] && q[k]->get_offset() == p[k]->get_offset() && q[k]->get_size() == p[k]->get_size() && q[k]->get_rank() == (int)k, "partition node");
    sx_reach("end");
}
// trees assembled by hand: any shape, any geometry
SX_ENTRY(manual) {
    auto log = sxc::quiet();
    int dim = 1 + sx_choice("dim", 3), nc = 1 + sx_choice("children", sx_param("children", 2)), deep = sx_choice("deeper child", nc + 1);
    int ctrn = 0;
    auto ctr = [&] { std::vector<double> c(dim); for (auto &v : c) v = 0.5 + 3 * ctrn++; return c; };
    auto c0 = ctr();
    c0[0] = sx_real_in("c0", -50, 50);
    int n = nc * 2;
    Cluster<double> root(sx_real_in("radius", 0, 100), c0, -1, 0, n);
    std::vector<int> &perm = root.get_permutation();
    for (int i = 0; i < n; i++) perm[i] = n - 1 - i;
    for (int k = 0; k < nc; k++) {
        auto c = ctr();
        auto *ch = root.add_child(k ? 2.25 * k : sx_real_in("radius", 0, 100), c, k, 2 * k, 2, k, true);
        if (k + 1 == deep) for (int l = 0; l < 2; l++) { auto c2 = ctr(); ch->add_child(0.75, c2, k, 2 * k + l, 1, 2 * k + l, false); }
    }
    root.set_minimal_depth(1);
    root.set_maximal_depth(deep ? 2 : 1);
    root.set_minclustersize(10 * sx_choice("minclustersize", 2));
    root.set_is_permutation_local(sx_choice("local", 2));
    std::string base = sx_path("tree");
    save_cluster_tree(root, base);
    Cluster<double> r = read_cluster_tree<double>(base + "_cluster_tree_properties.csv", base + "_cluster_tree.csv");
    sx_check(r.get_permutation() == root.get_permutation(), "permutation");
    sx_check(r.is_permutation_local() == root.is_permutation_local(), "local flag");
    sx_check(r.get_minimal_depth() == root.get_minimal_depth() && r.get_maximal_depth() == root.get_maximal_depth(), "depth bounds");
    sx_check(r.get_minclustersize() == root.get_minclustersize(), "minimal cluster size");
    same(root, r);
    sx_check((int)r.get_clusters_on_partition().size() == nc, "number of partition nodes");
    for (int k = 0; k < nc; k++) sx_check(r.get_clusters_on_partition()[k] == r.get_children()[k].get(), "partition node");
    sx_reach("end");
}
