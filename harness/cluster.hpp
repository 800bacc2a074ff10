// Cluster trees for the harnesses: symbolic points, stand-in direction strategy, structure oracle.
#pragma once
#include "common.hpp"
#include <htool/clustering/cluster_node.hpp>
#include <htool/clustering/cluster_output.hpp>
#include <htool/clustering/tree_builder/recursive_build.hpp>
#include <htool/misc/logger.hpp>
namespace sxc {
using htool::Cluster;
// counts messages, keeps the output quiet
struct CountingWriter : htool::IObjectWriter {
    int errors = 0, warnings = 0;
    void write(htool::LogLevel l, const std::string &) override { if (l <= htool::LogLevel::ERROR) errors++; else if (l == htool::LogLevel::WARNING) warnings++; }
    void set_log_level(htool::LogLevel) override {}
};
inline std::shared_ptr<CountingWriter> quiet() { auto w = std::make_shared<CountingWriter>(); htool::Logger::get_instance().set_current_writer(w); return w; }
// direction along a fixed axis of the given sign
struct AxisDirection final : htool::VirtualDirectionComputationStrategy<double> {
    int axis, sign;
    AxisDirection(int a = 0, int s = 1) : axis(a), sign(s) {}
    std::vector<double> compute_direction(const Cluster<double> *, const std::vector<int> &, int d, const double *const, const double *const, const double *const) override { std::vector<double> v(d, 0); v[axis] = sign; return v; }
};
struct Opt { int n = 0, c = 2, mcs = 1, P = 1, geo = 0; bool given = false; std::vector<int> part; };
struct Walk {
    const Opt &o;
    const std::vector<const Cluster<double> *> &onp;
    int part_depth;
    unsigned mind = 1000, maxd = 0;
    int leaves = 0, nodes = 0;
    std::vector<int> last_counter;
    Walk(const Opt &o_, const Cluster<double> &r) : o(o_), onp(r.get_clusters_on_partition()), part_depth(onp.empty() ? 1000 : (int)onp[0]->get_depth()), last_counter(64, -1) {}
    void go(const Cluster<double> &t, unsigned depth, int rank) {
        nodes++;
        sx_check(t.get_depth() == depth, "depth of a node");
        sx_check(t.is_root() == (depth == 0), "root flag of a node");
        sx_check(t.get_counter() > last_counter[depth], "counters increase along a level");
        last_counter[depth] = t.get_counter();
        if ((int)depth >= part_depth) {
            if ((int)depth == part_depth) { rank++; sx_check(t.get_rank() >= 0 && t.get_rank() < (int)onp.size() && onp[t.get_rank()] == &t, "partition node is registered under its rank"); }
            sx_check((int)depth == part_depth || t.get_rank() == rank, "rank of a node below the partition level");
        } else sx_check(t.get_rank() == -1, "rank of a node above the partition level");
        const auto &ch = t.get_children();
        sx_check(t.is_leaf() == ch.empty(), "leaf flag");
        if (ch.empty()) {
            leaves++;
            sx_check(t.get_size() > 0, "leaf is empty");
            mind = std::min(mind, depth);
            maxd = std::max(maxd, depth);
            if ((int)depth >= part_depth && o.geo == 0) sx_check(t.get_size() / o.c <= o.mcs, "a node that can be split is a leaf");
            return;
        }
        int off = t.get_offset();
        for (auto &k : ch) {
            sx_check(k->get_offset() == off, "children are contiguous and in order");
            sx_check(k->get_size() > 0, "child is empty");
            if (!(o.given && depth == 0)) sx_check(k->get_size() > o.mcs, "node smaller than the minimal cluster size");
            off += k->get_size();
        }
        sx_check(off == t.get_offset() + t.get_size(), "children cover their parent");
        for (auto &k : ch) go(*k, depth + 1, (int)depth + 1 > part_depth ? t.get_rank() : rank);
    }
};
inline void check_permutation(const std::vector<int> &p, int n) {
    sx_check((int)p.size() == n, "permutation length");
    std::vector<int> seen(n, 0);
    for (int v : p) { sx_check(v >= 0 && v < n, "permutation entry out of range"); sx_check(!seen[v], "permutation repeats an index"); seen[v] = 1; }
}
inline void check_tree(const Cluster<double> &r, const Opt &o) {
    check_permutation(r.get_permutation(), o.n);
    sx_check(r.is_root() && r.get_offset() == 0 && r.get_size() == o.n && r.get_depth() == 0, "root node");
    Walk w(o, r);
    w.go(r, 0, -1);
    sx_check(r.get_minimal_depth() == w.mind, "recorded minimal depth");
    sx_check(r.get_maximal_depth() == w.maxd, "recorded maximal depth");
}
// partition into P non-empty consecutive ranges chosen by the solver
inline std::vector<int> choose_partition(int n, int P) {
    std::vector<int> r;
    int at = 0;
    for (int p = 0; p < P; p++) {
        int left = n - at, need = P - p - 1;
        int s = p == P - 1 ? left : 1 + sx_choice("part size", left - need);
        r.push_back(at);
        r.push_back(s);
        at += s;
    }
    return r;
}
inline htool::ClusterTreeBuilder<double> builder(const Opt &o, int axis, int sign) {
    htool::ClusterTreeBuilder<double> b;
    b.set_minclustersize(o.mcs);
    if (axis >= 0) b.set_direction_computation_strategy(std::make_shared<AxisDirection>(axis, sign));
    if (o.geo) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<double>>());
    return b;
}
}
