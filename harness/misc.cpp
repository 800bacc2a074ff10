// Files, logging, strings, helpers and tree nodes.
#ifndef SXT
#define SXT double
#endif
#include "common.hpp"
#include <htool/basic_types/tree.hpp>
#include <htool/basic_types/vector.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/misc/logger.hpp>
#include <htool/misc/user.hpp>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <fstream>
using namespace htool;
typedef SXT T;
typedef Matrix<T> M;
// what a piece of code writes to the standard output
struct Stdout {
#ifdef SX_SYM
    unsigned long at;
    Stdout() : at(sxio::out().n) {}
    std::string text() { return std::string(sxio::out().p ? sxio::out().p + at : "", sxio::out().n - at); }
#else
    std::ostringstream s;
    std::streambuf *o;
    Stdout() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Stdout() { std::cout.rdbuf(o); }
    std::string text() { return s.str(); }
#endif
};
// ---------------------------------------------------------------- C24
static void destination(M &m, int kind, T *buf) {
    if (kind == 1) m = M(2, 1, T(7));
    else if (kind == 2) m.resize(3, 3);
    else if (kind == 3) m.assign(2, 2, buf, false);
    else if (kind == 4) m.resize(0, 2);
}
SX_ENTRY(matrix_file) {
    int live = sx_live();
    {
        int n = sx_param("n", 3), m = sx_choice("rows", n + 1), k = sx_choice("cols", n + 1);
        D<T> v = symD<T>(m, k, "a");
        std::string f = sx_path("matrix.bin");
        if (sx_choice("file exists", 2)) { std::ofstream o(f, std::ios::binary); o << "something that was there before and is longer than all the rest of it, however large the new contents may turn out to be"; }
        M a = fromD<M>(v);
        std::vector<T> mine;
        if (sx_choice("view", 2)) { mine = v.v; a.assign(m, k, mine.data(), false); }
        sx_check(a.matrix_to_bytes(f) == 0, "writing a matrix");
        eqM(a, v, "writing a matrix changed it");
        T buf[4] = {T(1), T(2), T(3), T(4)};
        M b;
        destination(b, sx_choice("destination", 5), buf);
        sx_check(b.bytes_to_matrix(f) == 0, "reading a matrix");
        sx_check(b.nb_rows() == m && b.nb_cols() == k, "shape of a matrix read back");
        eqM(b, v, "matrix read back");
        for (int i = 0; i < 4; i++) sx_check(buf[i] == T(i + 1), "reading a matrix into a view wrote to the viewed data");
        // the matrix read is independent of the file and its source
        if (m * k) { T x = SX<T>::real("x"); b(0, 0) = x; v(0, 0) = x; b.bytes_to_matrix(f); eqM(b, D<T>(toD<T>(a)), "matrix read a second time"); }
    }
#ifndef SX_SYM
    live = sx_live();
#endif
    sx_reach("end");
    (void)live;
}
SX_ENTRY(vector_file) {
    int n = 1 + sx_choice("size", sx_param("n", 4));
    D<T> v = symD<T>(n, 1, "a");
    std::string f = sx_path("vector.bin");
    if (sx_choice("file exists", 2)) { std::ofstream o(f, std::ios::binary); o << "something that was there before and is longer than all the rest of it, however large the new contents may turn out to be"; }
    sx_check(vector_to_bytes(v.v, f) == 0, "writing a vector");
    std::vector<T> w(sx_choice("destination", 2) ? 7 : 0, T(3));
    sx_check(bytes_to_vector(w, f) == 0, "reading a vector");
    sx_check((int)w.size() == n, "size of a vector read back");
    for (int k = 0; k < n; k++) SX<T>::eq(w[k], v.v[k], "vector read back");
    std::vector<T> e;
    Stdout quiet;
    sx_check(bytes_to_vector(e, sx_path("missing.bin")) != 0 && M().bytes_to_matrix(sx_path("missing.bin")) != 0, "reading a missing file");
    sx_check(vector_to_bytes(v.v, "/nowhere/v.bin") != 0, "writing where nothing can be created");
    sx_reach("end");
}
SX_ENTRY(integer_file) {
    int n = 1 + sx_choice("size", 3);
    std::vector<int> v(n), w(sx_choice("destination", 2) * 5);
    for (auto &x : v) x = sx_int("v", -2147483647 - 1, 2147483647);
    std::string f = sx_path("vector.bin");
    vector_to_bytes(v, f);
    bytes_to_vector(w, f);
    sx_check((int)w.size() == n, "size of a vector read back");
    for (int k = 0; k < n; k++) sx_check(v[k] == w[k], "vector read back");
    sx_reach("end");
}
// ---------------------------------------------------------------- C26
struct Writer : IObjectWriter {
    unsigned level = 10;
    int count = 0;
    unsigned last = 0;
    std::string text;
    void set_log_level(LogLevel l) override { level = (unsigned)l; }
    void write(LogLevel l, const std::string &m) override { if ((unsigned)l > level) return; count++; last = (unsigned)l; text = m; }
};
static const char *words[] = {"critical", "error", "warning", "debug", "info"};
SX_ENTRY(logging) {
    auto &lg = Logger::get_instance();
    std::shared_ptr<IObjectWriter> w[3] = {std::make_shared<StandartOutputWriter>(), std::make_shared<Writer>(), std::make_shared<StandartOutputWriter>()};
    unsigned lv[3] = {10, 10, 10};
    int cur = -1; // the writer the library starts with
    unsigned base = 10;
    int steps = sx_param("steps", 3);
    for (int s = 0; s <= steps; s++) {
        unsigned now = cur < 0 ? base : lv[cur];
        // a message of any severity
        int k = sx_int("severity", 0, 4);
        LogLevel l = (LogLevel)(k * 10);
        std::string msg = s == 1 ? "" : "some message";
        Writer *mine = cur == 1 ? (Writer *)w[1].get() : nullptr;
        int before = mine ? mine->count : 0;
        std::string out;
        { Stdout o; lg.log(l, msg); out = o.text(); }
        bool expected = (unsigned)(k * 10) <= now;
        if (mine) {
            sx_check(out.empty(), "a message for another writer went to the standard output");
            sx_check(mine->count == before + (expected ? 1 : 0), "delivery to the chosen writer");
            if (expected) sx_check(mine->last == (unsigned)(k * 10) && mine->text == msg, "severity and text of a delivered message");
        } else if (expected) {
            sx_check(!out.empty(), "a message at or above the chosen severity was not delivered");
            k = sx_conc(k);
            for (int q = 0; q < 5; q++) sx_check((out.find(words[q]) != std::string::npos) == (q == k), "tag of a message");
            sx_check(out.size() > msg.size() && out.compare(out.size() - msg.size() - 1, msg.size(), msg) == 0 && out.back() == '\n', "text of a delivered message");
            sx_check(out.find('\n') == out.size() - 1, "one line per message");
        } else sx_check(out.empty(), "a message below the chosen severity was delivered");
        if (s == steps) break;
        int c = sx_choice("change", 6);
        if (c < 3) { cur = c; lg.set_current_writer(w[c]); }
        else if (c == 3) { unsigned v = (unsigned)sx_int("verbosity", 0, 60); lg.set_current_log_level(v); (cur < 0 ? base : lv[cur]) = v; }
        else if (c == 4) { int v = sx_int("verbosity level", 0, 4); lg.set_current_log_level((LogLevel)(v * 10)); (cur < 0 ? base : lv[cur]) = v * 10; }
        else { if (cur < 0) sx_prune(); w[(cur + 1) % 3]->set_log_level(LogLevel::INFO); lv[(cur + 1) % 3] = 40; } // another writer's verbosity is its own business
    }
    sx_check(&lg == &Logger::get_instance(), "one logger");
    lg.set_current_writer(std::make_shared<StandartOutputWriter>());
    sx_reach("end");
}
// ---------------------------------------------------------------- C27
static std::string text(int n, const char *name) {
    std::string s(n, 'x');
    for (int k = 0; k < n; k++) s[k] = (char)sx_int(name, -128, 127);
    return s;
}
SX_ENTRY(strings) {
    std::string s = text(sx_choice("length", sx_param("n", 4) + 1), "s"), d = text(1 + sx_choice("separator length", 2), "d");
    std::string s0 = s, d0 = d;
    std::vector<std::string> v = split(s, d);
    sx_check(s == s0 && d == d0, "splitting changed its arguments");
    // the separators found from left to right
    size_t at = 0, n = 0;
    for (size_t k = 0; k + d.size() <= s.size();) {
        bool eq = true;
        for (size_t q = 0; q < d.size(); q++) eq = eq && s[k + q] == d[q];
        if (!eq) { k++; continue; }
        sx_check(n < v.size() && v[n] == s.substr(at, k - at), "a token");
        n++;
        k += d.size();
        at = k;
    }
    sx_check(v.size() == n + 1 && v[n] == s.substr(at), "the last token");
    sx_check(join(d, v) == s, "split then joined");
    std::vector<std::string> one(1, s);
    sx_check(join(d, one) == s && join(d, std::vector<std::string>()).empty(), "join of one or no string");
    sx_reach("end");
}
SX_ENTRY(joining) {
    int n = sx_choice("strings", 4);
    std::vector<std::string> v;
    std::string d = text(1 + sx_choice("separator length", 2), "d"), want;
    for (int k = 0; k < n; k++) { v.push_back(text(sx_choice("length", 3), "s")); if (k) want += d; want += v.back(); }
    sx_check(join(d, v) == want, "join");
    sx_reach("end");
}
SX_ENTRY(numbers) {
    int lim = sx_param("lim", 999), v = sx_choice("extreme", 2) ? (sx_choice("sign", 2) ? 2147483647 : -2147483647 - 1) : sx_int("v", -lim, lim);
    sx_check(StrToNbr<int>(NbrToStr<int>(v)) == v, "integer converted to text and back");
    unsigned u = (unsigned)v & 0xffff;
    sx_check(StrToNbr<unsigned>(NbrToStr<unsigned>(u)) == u, "unsigned integer converted to text and back");
    sx_check(StrToNbr<int>("no number") == 0 && StrToNbr<int>("") == 0, "text that is no number");
    sx_check(NbrToStr(std::string("x y")) == "x y", "text converted to text");
    sx_reach("end");
}
// ---------------------------------------------------------------- C29
struct Data { int id = 0; };
struct Node : TreeNode<Node, Data> {
    int id;
    Node(int i) : id(i) {}
    Node(const Node &parent, int i) : TreeNode<Node, Data>(parent), id(i) {}
    Data *data() { return m_tree_data.get(); }
};
struct Shadow { int id; std::vector<Shadow> c; };
static void pre(const Shadow &s, std::vector<int> &o) { o.push_back(s.id); for (auto &c : s.c) pre(c, o); }
static void post(const Shadow &s, std::vector<int> &o) { for (auto &c : s.c) post(c, o); o.push_back(s.id); }
static void relations(Node &n, const Shadow &s, unsigned depth, bool top, Data *d) {
    sx_check(n.id == s.id, "a node of the tree");
    sx_check(n.get_depth() == depth && n.is_root() == top, "depth of a node");
    sx_check(n.is_leaf() == s.c.empty() && n.get_children().size() == s.c.size() && &n.get_children() == &n.get_children_with_ownership(), "children of a node");
    sx_check(n.data() == d, "data shared by the tree");
    for (size_t k = 0; k < s.c.size(); k++) relations(*n.get_children()[k], s.c[k], depth + 1, false, d);
}
static void look(Node &r, const Shadow &s) {
    relations(r, s, 0, true, r.data());
    std::vector<int> a, b;
    pre(s, a);
    preorder_tree_traversal(r, [&](const Node &n) { b.push_back(n.id); });
    sx_check(a == b, "pre-order traversal");
    b.clear();
    const Node &cr = r;
    preorder_tree_traversal(cr, [&](const Node &n) { b.push_back(n.id); });
    sx_check(a == b, "pre-order traversal of a constant tree");
    a.clear(); b.clear();
    post(s, a);
    postorder_tree_traversal(r, [&](Node &n) { b.push_back(n.id); });
    sx_check(a == b, "post-order traversal");
    // and of every subtree
    for (auto &c : s.c) {
        Node *k = nullptr;
        for (auto &q : r.get_children()) if (q->id == c.id) k = q.get();
        a.clear(); b.clear();
        post(c, a);
        postorder_tree_traversal(*k, [&](Node &n) { b.push_back(n.id); });
        sx_check(a == b, "post-order traversal of a subtree");
    }
}
static Node *find(Node &n, Shadow &s, int k, Shadow **q) { // k-th in pre-order
    std::vector<std::pair<Node *, Shadow *>> st{{&n, &s}};
    while (!st.empty()) {
        auto t = st.back();
        st.pop_back();
        if (k-- == 0) { *q = t.second; return t.first; }
        for (size_t i = t.second->c.size(); i-- > 0;) st.push_back({t.first->get_children()[i].get(), &t.second->c[i]});
    }
    return nullptr;
}
static int count(const Shadow &s) { int n = 1; for (auto &c : s.c) n += count(c); return n; }
SX_ENTRY(tree) {
    int live = sx_live();
    {
        std::unique_ptr<Node> r(new Node(0));
        Shadow s{0, {}};
        int next = 1;
        for (int n = 0; n < sx_param("steps", 4); n++) {
            int k = sx_choice("node", count(s));
            Shadow *q;
            Node *p = find(*r, s, k, &q);
            switch (sx_choice("operation", 6)) {
            case 0: { // one or two children
                int m = 1 + sx_choice("children", 2);
                for (int i = 0; i < m; i++) { Node *c = p->add_child(next); sx_check(c == p->get_children().back().get() && c->id == next, "the added child"); q->c.push_back({next, {}}); next++; }
                break;
            }
            case 1: p->delete_children(); q->c.clear(); break;
            case 2: { // replace the children by some of them, in another order
                if (q->c.empty()) sx_prune();
                std::vector<std::unique_ptr<Node>> keep;
                std::vector<Shadow> ks;
                int drop = sx_choice("dropped", (int)q->c.size() + 1);
                auto &own = p->get_children_with_ownership();
                for (int i = (int)own.size() - 1; i >= 0; i--) if (i != drop) { keep.push_back(std::move(own[i])); ks.push_back(q->c[i]); }
                p->delete_children();
                p->assign_children(keep);
                q->c = ks;
                break;
            }
            case 3: if (k) sx_prune(); r.reset(new Node(std::move(*r))); break;
            case 4: { if (k) sx_prune(); Node t(99); t.add_child(98); t = std::move(*r); r.reset(new Node(std::move(t))); break; }
            case 5: { // a grandchild added through its parent
                if (q->c.empty()) sx_prune();
                p->get_children().back()->add_child(next); q->c.back().c.push_back({next, {}}); next++;
                break;
            }
            }
            look(*r, s);
        }
    }
    sx_check(sx_live() == live, "a node leaked or was freed twice");
    sx_reach("end");
}
// ---------------------------------------------------------------- C31: helpers on vectors and matrices
typedef underlying_type<T> R;
static R abs2(T x) { return std::real(x * conj_if_complex(x)); }
SX_ENTRY(vectors) {
    int n = 1 + sx_choice("size", sx_param("n", 3));
    std::vector<T> a, b;
    for (int k = 0; k < n; k++) { a.push_back(SX<T>::real("a")); b.push_back(SX<T>::real("b")); }
    std::vector<T> a0 = a, b0 = b;
    T s = SX<T>::real("s");
    auto sum = a + b, sum2 = plus(a, b), dif = a - b, dif2 = minus(a, b), sc = mult(s, a), q = a / T(4), sc2 = a, q2 = a;
    sc2 *= s;
    q2 /= T(4);
    T d = T(0), m = T(0);
    for (int k = 0; k < n; k++) { d += a[k] * conj_if_complex(b[k]); m += a[k]; }
    sx_check((int)sum.size() == n && (int)dif.size() == n && (int)sc.size() == n && (int)q.size() == n, "size of a result");
    for (int k = 0; k < n; k++) {
        SX<T>::eq(sum[k], a0[k] + b0[k], "sum of vectors"); SX<T>::eq(sum2[k], sum[k], "plus");
        SX<T>::eq(dif[k], a0[k] - b0[k], "difference of vectors"); SX<T>::eq(dif2[k], dif[k], "minus");
        SX<T>::eq(sc[k], s * a0[k], "multiple of a vector"); SX<T>::eq(sc2[k], sc[k], "vector multiplied in place");
        SX<T>::eq(q[k] * T(4), a0[k], "quotient of a vector"); SX<T>::eq(q2[k], q[k], "vector divided in place");
        SX<T>::eq(a[k], a0[k], "operand changed"); SX<T>::eq(b[k], b0[k], "operand changed");
    }
    SX<T>::eq(dprod(a, b), d, "dot product");
    SX<T>::eq(mean(a) * T(n), m, "mean");
    sx_reach("end");
}
SX_ENTRY(extremes) {
    int n = 1 + sx_choice("size", sx_param("n", 3));
    std::vector<T> a;
    for (int k = 0; k < n; k++) a.push_back(SX<T>::real("a"));
    int at = argmax(a);
    sx_check(at >= 0 && at < n, "position of the largest entry");
    T mx = htool::max(a), mn = htool::min(a);
    SX<T>::eq(mx, a[at], "largest entry and its position");
    bool found = false;
    for (int k = 0; k < n; k++) { sx_check_le(abs2(a[k]), abs2(mx), "largest entry"); sx_check_le(abs2(mn), abs2(a[k]), "smallest entry"); found = found || sx_same(std::real(mn), std::real(a[k])); }
    sx_check(found, "the smallest entry is an entry");
    // norms
    R nv = norm2(a), e = 0;
    for (int k = 0; k < n; k++) e += abs2(a[k]);
    sx_check(nv >= 0, "norm of a vector");
    sx_check_eq(nv * nv, e, "norm of a vector");
    sx_reach("end");
}
SX_ENTRY(matrices) {
    int m = 1 + sx_choice("rows", sx_param("n", 3)), n = 1 + sx_choice("cols", sx_param("n", 3));
    D<T> v = symD<T>(m, n, "a");
    M a = fromD<M>(v);
    switch (sx_choice("operation", 6)) {
    case 0: { // rows and columns
        for (int i = 0; i < m; i++) { auto r = a.get_row(i); sx_check((int)r.size() == n, "a row"); for (int j = 0; j < n; j++) SX<T>::eq(r[j], v(i, j), "a row"); }
        for (int j = 0; j < n; j++) { auto c = a.get_col(j); sx_check((int)c.size() == m, "a column"); for (int i = 0; i < m; i++) SX<T>::eq(c[i], v(i, j), "a column"); }
        break;
    }
    case 1: { // replaced row, column, entries
        int i = sx_choice("row", m), j = sx_choice("col", n);
        std::vector<T> r, c;
        for (int k = 0; k < n; k++) { r.push_back(SX<T>::real("r")); v(i, k) = r[k]; }
        a.set_row(i, r);
        eqM(a, v, "a replaced row");
        for (int k = 0; k < m; k++) { c.push_back(SX<T>::real("c")); v(k, j) = c[k]; }
        a.set_col(j, c);
        eqM(a, v, "a replaced column");
        break;
    }
    case 2: { // slices
        int st = 1 + sx_choice("stride", 3), s0 = sx_choice("start", m * n), len = 1 + sx_choice("length", 3);
        if (s0 + (len - 1) * st >= m * n) sx_prune();
        auto s = a.get_stridedslice(s0, len, st);
        sx_check((int)s.size() == len, "a slice");
        for (int k = 0; k < len; k++) SX<T>::eq(s[k], v.v[s0 + k * st], "a slice");
        std::vector<T> w;
        for (int k = 0; k < len; k++) { w.push_back(SX<T>::real("w")); v.v[s0 + k * st] = w[k]; }
        a.set_stridedslice(s0, len, st, w);
        eqM(a, v, "a replaced slice");
        break;
    }
    case 3: { // algebra
        D<T> w = symD<T>(m, n, "b"), u = symD<T>(n, 2, "c");
        M b = fromD<M>(w), c = fromD<M>(u);
        T s = SX<T>::real("s");
        D<T> sum(m, n), dif(m, n), sc(m, n);
        for (size_t k = 0; k < v.v.size(); k++) { sum.v[k] = v.v[k] + w.v[k]; dif.v[k] = v.v[k] - w.v[k]; sc.v[k] = s * v.v[k]; }
        eqM(a + b, sum, "sum of matrices");
        eqM(a - b, dif, "difference of matrices");
        eqM(a * s, sc, "multiple of a matrix");
        eqM(s * a, sc, "multiple of a matrix");
        eqM(a * c, mul(v, u), "product of matrices");
        D<T> x = symD<T>(n, 1, "x"), y(m, 1);
        auto z = a * x.v;
        y = mul(v, x);
        sx_check((int)z.size() == m, "matrix times vector");
        for (int k = 0; k < m; k++) SX<T>::eq(z[k], y.v[k], "matrix times vector");
        eqM(a, v, "operand changed");
        eqM(b, w, "operand changed");
        break;
    }
    case 4: { // norm
        R f = normFrob(a), e = 0;
        for (auto &x : v.v) e += abs2(x);
        sx_check(f >= 0, "Frobenius norm");
        sx_check_eq(f * f, e, "Frobenius norm");
        break;
    }
    case 5: { // largest entry
        if (m * n > 4) sx_prune();
        auto p = argmax(a);
        sx_check(p.first >= 0 && p.first < m && p.second >= 0 && p.second < n, "position of the largest entry");
        for (auto &x : v.v) sx_check_le(abs2(x), abs2(a(p.first, p.second)), "position of the largest entry");
        break;
    }
    }
    sx_reach("end");
}
SX_ENTRY(printing) {
    // integers print exactly, so that the text tells where every entry went
    int m = sx_choice("rows", 4), n = sx_choice("cols", 4);
    Matrix<double> a(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = sx_choice("negative", 2) ? -(10 * i + j) : 100 + 10 * i + j;
    std::string d = sx_choice("delimiter", 2) ? "," : " ; ", want;
    for (int i = 0; i < m && n; i++) for (int j = 0; j < n; j++) { int v = (int)a(i, j); want += std::to_string(v) + (j + 1 < n ? d : std::string("\n")); }
    Stdout o;
    std::ostringstream s;
    a.print(s, d);
    sx_check(s.str() == want, "printed matrix");
    std::string f = sx_path("m.csv");
    sx_check(a.csv_save(f, d) == 0, "saving a matrix");
    std::ifstream in(f);
    std::string got, line;
    while (std::getline(in, line)) got += line + "\n";
    sx_check(got == want, "saved matrix");
    std::vector<int> v;
    for (int k = 0; k < n; k++) v.push_back(k * 7 - 5);
    std::ostringstream t;
    t << v;
    std::string wv;
    for (int k = 0; k < n; k++) wv += std::to_string(v[k]) + ",";
    if (n) wv = "[" + wv + "\b]";
    sx_check(t.str() == wv, "printed vector");
    sx_check(o.text().empty(), "something else was printed");
    sx_reach("end");
}
