// Reported statistics and exported structure describe the actual structure.
#ifndef SXT
#define SXT double
#endif
#include "hmat.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <sstream>
#include <iomanip>
#include <fstream>
using namespace htool;
typedef SXT T;
typedef HMatrix<T> H;
typedef std::map<std::string, std::string> Info;
// decimal text as millionths
static bool millionths(const std::string &s, long &r) {
    size_t k = 0;
    bool neg = k < s.size() && s[k] == '-', dot = false;
    if (neg) k++;
    int dec = 0;
    r = 0;
    if (k == s.size()) return false;
    for (; k < s.size(); k++) {
        if (s[k] == '.') { if (dot) return false; dot = true; continue; }
        if (s[k] < '0' || s[k] > '9') return false;
        if (dec == 6) continue;
        r = r * 10 + (s[k] - '0');
        dec += dot;
    }
    while (dec++ < 6) r *= 10;
    if (neg) r = -r;
    return true;
}
static void number(const Info &i, const char *key, double v) {
    auto it = i.find(key);
    sx_check(it != i.end(), key);
    if (v > 1e12 || v < -1e12) return; // a ratio over nothing
    long got;
    sx_check(millionths(it->second, got), key);
    double d = (double)got - v * 1e6;
    sx_check(d < 2 && d > -2, key);
}
struct Stat {
    long dn = 0, ln = 0, dmax = 0, lmax = 0, rmax = 0, dmin = 0, lmin = 0, rmin = 0, dsum = 0, lsum = 0, rsum = 0, size = 0;
    double stored = 0;
    void add(long v, long &mx, long &mn, long &sum, long &n) { mn = n ? std::min(mn, v) : v; mx = std::max(mx, v); sum += v; n++; }
    void take(const H &h) {
        std::vector<const H *> L;
        sxh::leaves_of<T>(h, L);
        size += (long)h.get_target_cluster().get_size() * h.get_source_cluster().get_size();
        for (auto l : L) {
            long m = l->get_target_cluster().get_size(), n = l->get_source_cluster().get_size();
            if (l->is_low_rank()) {
                long r = l->get_low_rank_data()->get_U().nb_cols(), k = ln;
                add(r, rmax, rmin, rsum, k);
                add(m * n, lmax, lmin, lsum, ln);
                stored += (double)r * (m + n);
            } else {
                add(m * n, dmax, dmin, dsum, dn);
                stored += l->get_symmetry() != 'N' ? m * (n + 1) / 2. : (double)m * n;
            }
        }
    }
    void compare(const Info &i) {
        number(i, "Number_of_dense_blocks", dn);
        number(i, "Number_of_low_rank_blocks", ln);
        number(i, "Dense_block_size_max", dmax); number(i, "Dense_block_size_min", dmin); number(i, "Dense_block_size_mean", dn ? (double)dsum / dn : 0);
        number(i, "Low_rank_block_size_max", lmax); number(i, "Low_rank_block_size_min", lmin); number(i, "Low_rank_block_size_mean", ln ? (double)lsum / ln : 0);
        number(i, "Rank_max", rmax); number(i, "Rank_min", rmin); number(i, "Rank_mean", ln ? (double)rsum / ln : 0);
        if (stored > 0) number(i, "Compression_ratio", size / stored);
        number(i, "Space_saving", 1 - stored / size);
    }
};
static void printed(const std::string &text, const Info &i, const char *title) {
    // one line per entry: the key, filling, the value
    std::istringstream s(text);
    std::string line;
    sx_check((bool)std::getline(s, line) && line == title, "title of the printed information");
    size_t n = 0;
    for (auto &e : i) {
        sx_check((bool)std::getline(s, line), "every information is printed");
        sx_check(line.size() >= e.first.size() + e.second.size() && line.compare(0, e.first.size(), e.first) == 0 && line.compare(line.size() - e.second.size(), e.second.size(), e.second) == 0, "a printed information");
        for (size_t k = e.first.size(); k < line.size() - e.second.size(); k++) sx_check(line[k] == '_', "filling between key and value");
        n++;
    }
    while (std::getline(s, line)) sx_check(line.empty(), "something else is printed");
    (void)n;
}
static std::vector<std::string> lines(const std::string &f) {
    std::ifstream in(f);
    sx_check((bool)in, "the exported file exists");
    std::vector<std::string> r;
    std::string l;
    while (std::getline(in, l)) if (!l.empty()) r.push_back(l);
    return r;
}
static std::string line_of(const H &b, const H &root) {
    return std::to_string(b.get_target_cluster().get_offset() - root.get_target_cluster().get_offset()) + "," + std::to_string(b.get_target_cluster().get_size()) + "," + std::to_string(b.get_source_cluster().get_offset() - root.get_source_cluster().get_offset()) + "," + std::to_string(b.get_source_cluster().get_size()) + "," + std::to_string(b.is_low_rank() ? b.get_low_rank_data()->get_U().nb_cols() : -1);
}
static void exported(const std::vector<std::string> &got, std::vector<std::string> want, const H &h) {
    sx_check(!got.empty() && got[0] == std::to_string(h.nb_rows()) + "," + std::to_string(h.nb_cols()), "shape in the exported file");
    sx_check(got.size() == want.size() + 1, "number of exported blocks");
    for (size_t k = 1; k < got.size(); k++) {
        bool found = false;
        for (auto &w : want) if (w == got[k]) { w = "-"; found = true; break; }
        sx_check(found, "an exported block");
    }
}
static void by_depth(const H &h, const H &root, int d, std::vector<std::string> &o) {
    if ((int)h.get_depth() == d) o.push_back(line_of(h, root));
    for (auto &c : h.get_children()) by_depth(*c, root, d, o);
}
static int deepest(const H &h) { int d = (int)h.get_depth(); for (auto &c : h.get_children()) d = std::max(d, deepest(*c)); return d; }
static void look(const H &h) {
    Info i = get_hmatrix_information(h);
    Stat s;
    s.take(h);
    s.compare(i);
    number(i, "Target_size", h.get_target_cluster().get_size());
    number(i, "Source_size", h.get_source_cluster().get_size());
    for (auto &e : h.get_hmatrix_tree_data()->m_information) sx_check(i[e.first] == e.second, "recorded information is reported");
    for (auto &e : h.get_hmatrix_tree_data()->m_timings) sx_check(i.count(e.first) == 1, "recorded timings are reported");
    {
        std::ostringstream o;
        print_hmatrix_information(h, o);
        printed(o.str(), i, "Hmatrix information");
        o << std::setw(4) << 7;
        sx_check(o.str().substr(o.str().size() - 4) == "   7", "formatting of the stream is restored");
    }
    Info p = get_tree_parameters(h);
    number(p, "Eta", 3);
    number(p, "Epsilon", h.get_epsilon());
    number(p, "MinTargetDepth", h.get_hmatrix_tree_data()->m_minimal_target_depth);
    number(p, "MinSourceDepth", h.get_hmatrix_tree_data()->m_minimal_source_depth);
    number(p, "MinClusterSizeTarget", h.get_target_cluster().get_minclustersize());
    number(p, "MinClusterSizeSource", h.get_source_cluster().get_minclustersize());
    number(p, "MaxClusterDepthTarget", h.get_target_cluster().get_maximal_depth());
    number(p, "MinClusterDepthTarget", h.get_target_cluster().get_minimal_depth());
    number(p, "MaxClusterDepthSource", h.get_source_cluster().get_maximal_depth());
    number(p, "MinClusterDepthSource", h.get_source_cluster().get_minimal_depth());
    {
        std::ostringstream o;
        print_tree_parameters(h, o);
        printed(o.str(), p, "Block tree parameters");
    }
    // exported structure
    std::string f = sx_path("structure");
    std::vector<std::string> want;
    std::vector<const H *> L;
    sxh::leaves_of<T>(h, L);
    for (auto l : L) want.push_back(line_of(*l, h));
    save_leaves_with_rank(h, f);
    exported(lines(f + ".csv"), want, h);
    std::vector<int> depths;
    int D0 = deepest(h);
    for (int d = 0; d <= D0; d++) depths.push_back(sx_param("reversed", 0) ? D0 - d : d);
    if (depths.size() > 1 && h.nb_rows() % 2) std::swap(depths[0], depths[1]);
    depths.push_back(D0 + 3); // no such level
    save_levels(h, f, depths);
    for (size_t k = 0; k < depths.size(); k++) { want.clear(); by_depth(h, h, depths[k], want); exported(lines(f + std::to_string(k) + ".csv"), want, h); }
}
static std::vector<int> outcomes() { std::vector<int> r; for (int k = 0; k < 2; k++) r.push_back(sx_choice("rank", 4) - 1); return r; }
SX_ENTRY(square) {
    auto log = sxc::quiet();
    int n = sx_param("n", 5), P = 1 + sx_choice("partitions", 2);
    Cluster<double> t = sxh::make_cluster(n, 2 + sx_choice("children", 2), 0, P, 1);
    int st = 1 + sx_choice("structure", 4);
    char u = st < 3 ? pick("storage", "NLU") : 'N', y = u == 'N' ? 'N' : SX<T>::c && sx_choice("hermitian", 2) ? 'H' : 'S';
    int part = sx_choice("restriction", P + 1) - 1;
    const Cluster<double> &root = st == 4 && P == 1 ? *t.get_clusters_on_partition()[0] : t;
    auto h = sxh::hm_over<T>(root, root, st, st == 1 ? std::vector<int>{1} : outcomes(), 0, 0.25, y, u, part, part);
    look(*h);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
SX_ENTRY(rectangular) {
    auto log = sxc::quiet();
    Cluster<double> t = sxh::make_cluster(3 + sx_choice("rows", 3), 2, 0, 2, 1), s = sxh::make_cluster(4, 2 + sx_choice("children", 2), 0, 1, 2);
    int st = 1 + sx_choice("structure", 3), part = sx_choice("restriction", 3) - 1;
    auto h = sxh::hm_over<T>(t, s, st, st == 1 ? std::vector<int>{1} : outcomes(), 0, 0.5, 'N', 'N', part, -1);
    look(*h);
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
// a part of an H-matrix: statistics of a sub-block
SX_ENTRY(part) {
    auto log = sxc::quiet();
    Cluster<double> t = sxh::make_cluster(6, 2, 0, 2, 1);
    auto h = sxh::hm_over<T>(t, t, 1 + sx_choice("structure", 2), {1, 2, -1}, 0, 0.25, 'N', 'N');
    const auto &c = h->get_children();
    const H &b = *c[sx_choice("child", (int)c.size())];
    Info i = get_hmatrix_information(b);
    Stat s;
    s.take(b);
    s.compare(i);
    std::vector<std::string> want;
    std::vector<const H *> L;
    sxh::leaves_of<T>(b, L);
    for (auto l : L) want.push_back(line_of(*l, b));
    std::string f = sx_path("structure");
    save_leaves_with_rank(b, f);
    exported(lines(f + ".csv"), want, b);
    sx_reach("end");
}
// one huge low-rank block
struct Thin : VirtualLowRankGenerator<T> {
    void copy_low_rank_approximation(const VirtualInternalGenerator<T> &, const Cluster<double> &t, const Cluster<double> &s, double, int &rank, Matrix<T> &U, Matrix<T> &V) const override { rank = 1; U.resize(t.get_size(), 1); V.resize(1, s.get_size()); }
};
struct None : VirtualInternalGenerator<T> { void copy_submatrix(int, int, int, int, T *) const override {} };
struct Run { int P; const Cluster<double> *t, *s; std::unique_ptr<H> h[4]; Info info[4]; std::string text[4]; };
SX_ENTRY(huge) {
    int m = sx_choice("tall", 2) ? 70000 : 66000, n = 70000;
    std::vector<double> z(2, 0.);
    Cluster<double> t(1., z, -1, 0, m), s(1., z, -1, 0, n);
    H h(t, s);
    Thin g;
    h.compute_low_rank_data(None(), g, -1, 0.1);
    Stat st;
    st.take(h);
    st.compare(get_hmatrix_information(h));
    Run r{1, &t, &s};
    r.h[0].reset(new H(std::move(h)));
    sx_run_ranks(1, [](int, void *p) { Run &q = *(Run *)p; q.info[0] = get_distributed_hmatrix_information(*q.h[0], MPI_COMM_WORLD); }, &r);
    st.compare(r.info[0]);
    sx_reach("end");
}
SX_ENTRY(distributed) {
    auto log = sxc::quiet();
    int P = 1 + sx_choice("processes", sx_param("P", 3));
    Cluster<double> t = sxh::make_cluster(6, 2, 0, P, 1), s = sxh::make_cluster(4, 2, 0, 1, 2);
    Run r;
    r.P = P; r.t = &t; r.s = &s;
    bool square = sx_choice("square", 2);
    char u = square ? pick("storage", "NLU") : 'N';
    Stat all;
    double tmax = 0, tmin = 1e9;
    int fp = 0;
    for (int k = 0; k < P; k++) {
        int st = 1 + sx_choice("structure", 2);
        r.h[k] = square ? sxh::hm_over<T>(t, t, st, st == 1 ? std::vector<int>{1} : outcomes(), 0, 0.25, u == 'N' ? 'N' : 'S', u, k, k) : sxh::hm_over<T>(t, s, st, st == 1 ? std::vector<int>{1} : outcomes(), 0, 0.25, 'N', 'N', k, -1);
        all.take(*r.h[k]);
        double m = r.h[k]->get_target_cluster().get_size();
        tmax = std::max(tmax, m); tmin = std::min(tmin, m);
        auto &inf = r.h[k]->get_hmatrix_tree_data()->m_information;
        if (inf.count("Number_of_false_positive")) { long v; millionths(inf["Number_of_false_positive"], v); fp += (int)(v / 1000000); }
    }
    sx_run_ranks(P, [](int k, void *p) {
        Run &q = *(Run *)p;
        q.info[k] = get_distributed_hmatrix_information(*q.h[k], MPI_COMM_WORLD);
        std::ostringstream o;
        print_distributed_hmatrix_information(*q.h[k], o, MPI_COMM_WORLD);
        q.text[k] = o.str();
    }, &r);
    Info &i = r.info[0]; 
    all.compare(i);
    number(i, "Target_size_max", tmax); number(i, "Target_size_min", tmin); number(i, "Target_size_mean", 6. / P);
    number(i, "Source_size_max", r.h[0]->nb_cols()); number(i, "Source_size_min", r.h[0]->nb_cols()); number(i, "Source_size_mean", r.h[0]->nb_cols());
    number(i, "Number_of_MPI_tasks", P);
    number(i, "Number_of_false_positive", fp);
    printed(r.text[0], i, "Distributed Hmatrix information");
    for (int k = 1; k < P; k++) sx_check(r.info[k].empty() && r.text[k].empty(), "only the first process reports");
    sx_check(log->errors == 0, "error logged");
    sx_reach("end");
}
