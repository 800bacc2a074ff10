#include "cluster.hpp"
using namespace htool;
typedef SXT T;
SX_ENTRY(renumbering) {
    auto log = sxc::quiet();
    sxc::Opt o;
    o.n = 1 + sx_choice("n", sx_param("n", 4));
    o.mcs = sx_choice("minclustersize", 2);
    int kind = sx_choice("partition kind", 2);
    o.P = 1 + sx_choice("partitions", std::min(o.n, 3));
    if (kind) o.part = sxc::choose_partition(o.n, o.P);
    else if (o.n < (o.mcs + 1) * o.P) sx_prune();
    std::vector<double> x(o.n);
    for (auto &v : x) v = sx_real("x");
    auto b = sxc::builder(o, 0, 1);
    Cluster<double> root = b.create_cluster_tree(o.n, 1, x.data(), 2, o.P, kind ? o.part.data() : nullptr);
    if (log->errors) sx_prune();
    const auto &perm = root.get_permutation();
    D<T> in = symD<T>(o.n, 1, "v");
    std::vector<T> u = in.v, c(o.n, T(77)), back(o.n, T(55)), c2(o.n, T(33)), back2(o.n, T(44));
    global_to_root_cluster(root, u.data(), c.data());
    for (int i = 0; i < o.n; i++) SX<T>::eq(c[i], in.v[perm[i]], "position i holds the value of user point perm[i]");
    root_cluster_to_global(root, c.data(), back.data());
    for (int i = 0; i < o.n; i++) SX<T>::eq(back[i], in.v[i], "round trip through the cluster numbering");
    user_to_cluster(root, u.data(), c2.data());
    cluster_to_user(root, c2.data(), back2.data());
    for (int i = 0; i < o.n; i++) { SX<T>::eq(c2[i], c[i], "user_to_cluster at the root"); SX<T>::eq(back2[i], in.v[i], "round trip of cluster_to_user"); SX<T>::eq(u[i], in.v[i], "input modified"); }
    // the other way round
    std::vector<T> z(o.n), zz(o.n);
    root_cluster_to_global(root, u.data(), z.data());
    global_to_root_cluster(root, z.data(), zz.data());
    for (int i = 0; i < o.n; i++) { SX<T>::eq(z[perm[i]], in.v[i], "user point perm[i] receives position i"); SX<T>::eq(zz[i], in.v[i], "round trip through the user numbering"); }
    if (kind) for (int p = 0; p < o.P; p++) {
        const auto &t = root.get_cluster_on_partition(p);
        int off = t.get_offset(), s = t.get_size();
        std::vector<T> lin(in.v.begin() + off, in.v.begin() + off + s), lc(s, T(1)), lb(s, T(2)), lc2(s, T(3)), lb2(s, T(4));
        // the entry point may be the root, the partition node or any other node
        const Cluster<double> &entry = sx_choice("entry point", 2) ? t : root;
        local_to_local_cluster(entry, p, lin.data(), lc.data());
        local_cluster_to_local(entry, p, lc.data(), lb.data());
        user_to_cluster(t, lin.data(), lc2.data());
        cluster_to_user(t, lc2.data(), lb2.data());
        for (int i = 0; i < s; i++) {
            SX<T>::eq(lc[i], c[off + i], "local renumbering agrees with the global one");
            SX<T>::eq(lc2[i], c[off + i], "renumbering of a partition node");
            SX<T>::eq(lb[i], lin[i], "local round trip");
            SX<T>::eq(lb2[i], lin[i], "round trip of a partition node");
        }
    }
    sx_check(log->errors == 0, "error logged for a stable permutation");
    sx_reach("end");
}
