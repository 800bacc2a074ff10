// Exact real arithmetic for the symbolic executor: multivariate polynomials over Q with
// defined variables (quotients, square roots, absolute values).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using Mono = std::vector<std::pair<uint32_t, uint32_t>>; // (var, exponent), sorted
struct MonoHash {
    size_t operator()(const Mono &m) const {
        size_t h = 1469598103934665603ull;
        for (auto &p : m) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; }
        return h;
    }
};
struct Poly;
using PolyP = std::shared_ptr<const Poly>;
struct Poly {
    mutable bool nn = false; // known to be >= 0 (a square, or a sum of such)

    std::vector<std::pair<uint32_t, mpq_class>> t; // (mono id, coef) sorted by mono id, no zero coefs
    bool is_const() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    bool is_zero() const { return t.empty(); }
    mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
};

enum class VK { Base, Quot, Sqrt, Abs, Nd };
struct RVar {
    VK kind;
    std::string name;
    PolyP a, b;  // Quot: a/b ; Sqrt: sqrt(a) ; Abs: |a|
    std::optional<mpq_class> val; // value in the current path model
};

struct Alg {
    std::vector<Mono> monos;
    std::unordered_map<Mono, uint32_t, MonoHash> mono_ids;
    std::unordered_map<uint64_t, uint32_t> mulcache;
    std::vector<RVar> vars;
    PolyP zero, one;
    size_t max_terms = 200000;
    struct TooBig {};

    Alg() {
        monos.push_back({});
        mono_ids[{}] = 0;
        zero         = std::make_shared<Poly>();
        auto o       = std::make_shared<Poly>();
        o->t.push_back({0, mpq_class(1)});
        one = o;
    }
    uint32_t mono(const Mono &m) {
        auto it = mono_ids.find(m);
        if (it != mono_ids.end()) return it->second;
        uint32_t id = monos.size();
        monos.push_back(m);
        mono_ids[m] = id;
        return id;
    }
    static Mono mono_mul_raw(const Mono &x, const Mono &y) {
        Mono r;
        size_t i = 0, j = 0;
        while (i < x.size() || j < y.size()) {
            if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
            else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
            else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
        }
        return r;
    }
    uint32_t mono_mul(uint32_t a, uint32_t b) {
        if (a == 0) return b;
        if (b == 0) return a;
        if (a > b) std::swap(a, b);
        uint64_t k = ((uint64_t)a << 32) | b;
        auto it    = mulcache.find(k);
        if (it != mulcache.end()) return it->second;
        uint32_t r = mono(mono_mul_raw(monos[a], monos[b]));
        mulcache[k] = r;
        return r;
    }
    PolyP constant(const mpq_class &c) {
        if (c == 0) return zero;
        auto p = std::make_shared<Poly>();
        p->t.push_back({0, c});
        return p;
    }
    PolyP var(uint32_t v) {
        auto p = std::make_shared<Poly>();
        p->t.push_back({mono({{v, 1}}), mpq_class(1)});
        return p;
    }
    PolyP add(const PolyP &x, const PolyP &y, int sgn = 1) {
        if (y->is_zero()) return x;
        if (x->is_zero() && sgn == 1) return y;
        auto p = std::make_shared<Poly>();
        size_t i = 0, j = 0;
        p->t.reserve(x->t.size() + y->t.size());
        while (i < x->t.size() || j < y->t.size()) {
            if (j >= y->t.size() || (i < x->t.size() && x->t[i].first < y->t[j].first)) p->t.push_back(x->t[i++]);
            else if (i >= x->t.size() || y->t[j].first < x->t[i].first) {
                p->t.push_back(y->t[j++]);
                if (sgn < 0) p->t.back().second = -p->t.back().second;
            } else {
                mpq_class c = sgn > 0 ? mpq_class(x->t[i].second + y->t[j].second) : mpq_class(x->t[i].second - y->t[j].second);
                if (c != 0) p->t.push_back({x->t[i].first, c});
                i++; j++;
            }
        }
        return p;
    }
    PolyP sub(const PolyP &x, const PolyP &y) { return add(x, y, -1); }
    PolyP scale(const PolyP &x, const mpq_class &c) {
        if (c == 0) return zero;
        if (c == 1) return x;
        auto p = std::make_shared<Poly>(*x);
        for (auto &e : p->t) e.second *= c;
        return p;
    }
    PolyP neg(const PolyP &x) { return scale(x, mpq_class(-1)); }
    PolyP from_map(std::map<uint32_t, mpq_class> &m) {
        auto p = std::make_shared<Poly>();
        p->t.reserve(m.size());
        for (auto &e : m) if (e.second != 0) p->t.push_back(e);
        return p;
    }
    // raw product, no rewriting
    PolyP mul_raw(const PolyP &x, const PolyP &y) {
        if (x->is_zero() || y->is_zero()) return zero;
        if (x->is_const()) return scale(y, x->cst());
        if (y->is_const()) return scale(x, y->cst());
        if (x->t.size() * y->t.size() > 4 * max_terms) throw TooBig();
        std::map<uint32_t, mpq_class> m;
        for (auto &a : x->t)
            for (auto &b : y->t) m[mono_mul(a.first, b.first)] += a.second * b.second;
        return from_map(m);
    }
    // does monomial need rewriting (sqrt^2, abs^2, quot with single-variable denominator)?
    bool mono_reducible(const Mono &m) {
        for (auto &ve : m) {
            const RVar &v = vars[ve.first];
            if ((v.kind == VK::Sqrt || v.kind == VK::Abs) && ve.second >= 2) return true;
            if (v.kind == VK::Quot && v.b->t.size() == 1) {
                // denominator is c * monomial d : t*d -> a/c
                const Mono &d = monos[v.b->t[0].first];
                if (divides(d, m)) return true;
            }
        }
        return false;
    }
    static bool divides(const Mono &d, const Mono &m) {
        size_t j = 0;
        for (auto &p : d) {
            while (j < m.size() && m[j].first < p.first) j++;
            if (j >= m.size() || m[j].first != p.first || m[j].second < p.second) return false;
        }
        return true;
    }
    static Mono mdiv(const Mono &m, const Mono &d) {
        Mono r;
        size_t j = 0;
        for (auto &p : m) {
            uint32_t e = p.second;
            if (j < d.size() && d[j].first == p.first) { e -= d[j].second; j++; }
            if (e) r.push_back({p.first, e});
        }
        return r;
    }
    std::unordered_map<uint32_t, bool> redcache;
    bool mono_red(uint32_t id) {
        if (id == 0) return false;
        auto it = redcache.find(id);
        if (it != redcache.end()) return it->second;
        bool r = mono_reducible(monos[id]);
        redcache[id] = r;
        return r;
    }
    PolyP reduce(PolyP p) {
        for (int iter = 0; iter < 200; iter++) {
            bool any = false;
            for (auto &e : p->t) if (mono_red(e.first)) { any = true; break; }
            if (!any) return p;
            std::map<uint32_t, mpq_class> keep;
            PolyP extra = zero;
            for (auto &e : p->t) {
                if (!mono_red(e.first)) { keep[e.first] += e.second; continue; }
                Mono m = monos[e.first];
                PolyP f;
                for (auto &ve : m) {
                    const RVar &v = vars[ve.first];
                    if ((v.kind == VK::Sqrt || v.kind == VK::Abs) && ve.second >= 2) {
                        PolyP sq = v.kind == VK::Sqrt ? v.a : mul_raw(v.a, v.a);
                        Mono rest = mdiv(m, Mono{{ve.first, 2}});
                        auto q = std::make_shared<Poly>();
                        q->t.push_back({mono(rest), e.second});
                        f = mul_raw(q, sq);
                        break;
                    }
                    if (v.kind == VK::Quot && v.b->t.size() == 1) {
                        Mono d = monos[v.b->t[0].first];
                        if (divides(d, m)) {
                            Mono rest = mdiv(mdiv(m, d), Mono{{ve.first, 1}});
                            auto q = std::make_shared<Poly>();
                            q->t.push_back({mono(rest), mpq_class(e.second / v.b->t[0].second)});
                            f = mul_raw(q, v.a);
                            break;
                        }
                    }
                }
                extra = add(extra, f);
            }
            p = add(from_map(keep), extra);
        }
        return p;
    }
    PolyP mul(const PolyP &x, const PolyP &y) { return reduce(mul_raw(x, y)); }

    uint32_t new_var(VK k, const std::string &name, PolyP a = nullptr, PolyP b = nullptr) {
        RVar v;
        v.kind = k; v.name = name; v.a = a; v.b = b;
        vars.push_back(v);
        return vars.size() - 1;
    }
    std::string key(const PolyP &p) {
        std::string s;
        for (auto &e : p->t) { s += std::to_string(e.first); s += ':'; s += e.second.get_str(62); s += ' '; }
        return s;
    }
    std::map<std::string, uint32_t> defs;
    // exact polynomial division by trial (multivariate, lex by var order) - returns nullptr if not exact
    static int mono_cmp(const Mono &x, const Mono &y) { // lex order with higher variable ids dominant
        size_t i = x.size(), j = y.size();
        while (i > 0 && j > 0) {
            if (x[i - 1].first != y[j - 1].first) return x[i - 1].first > y[j - 1].first ? 1 : -1;
            if (x[i - 1].second != y[j - 1].second) return x[i - 1].second > y[j - 1].second ? 1 : -1;
            i--; j--;
        }
        if (i > 0) return 1;
        if (j > 0) return -1;
        return 0;
    }
    size_t lead(const PolyP &p) {
        size_t b = 0;
        for (size_t i = 1; i < p->t.size(); i++) if (mono_cmp(monos[p->t[i].first], monos[p->t[b].first]) > 0) b = i;
        return b;
    }
    PolyP exact_div(PolyP n, const PolyP &d) {
        if (n->is_zero()) return zero;
        if (d->t.size() > n->t.size() * 8 + 8) return nullptr;
        size_t ld = lead(d);
        PolyP q   = zero;
        for (int it = 0; it < 400; it++) {
            if (n->is_zero()) return q;
            size_t ln = lead(n);
            Mono mn = monos[n->t[ln].first], md = monos[d->t[ld].first];
            if (!divides(md, mn)) return nullptr;
            auto f = std::make_shared<Poly>();
            f->t.push_back({mono(mdiv(mn, md)), mpq_class(n->t[ln].second / d->t[ld].second)});
            q = add(q, f);
            n = sub(n, mul_raw(f, d));
            if (n->t.size() > 4000) return nullptr;
        }
        return nullptr;
    }
    bool has_defined(const PolyP &p) {
        for (auto &e : p->t) for (auto &ve : monos[e.first]) if (vars[ve.first].kind != VK::Base && vars[ve.first].kind != VK::Nd) return true;
        return false;
    }
    // p/q, q known non-zero
    PolyP div(const PolyP &p, const PolyP &q) {
        if (q->is_const()) return scale(p, mpq_class(1 / q->cst()));
        if (p->is_zero()) return zero;
        if (PolyP e = exact_div(p, q)) return reduce(e);
        // normalise sign/scale of the denominator
        mpq_class lc = q->t[0].second;
        PolyP qn     = scale(q, mpq_class(1 / lc));
        // t = 1/qn, result p*t/lc
        std::string k = "Q" + key(qn);
        auto it       = defs.find(k);
        uint32_t v;
        if (it != defs.end()) v = it->second;
        else {
            v = new_var(VK::Quot, "q" + std::to_string(vars.size()), one, qn);
            defs[k] = v;
            auto val = eval(qn);
            if (val && *val != 0) vars[v].val = 1 / *val;
        }
        return mul(scale(p, mpq_class(1 / lc)), var(v));
    }
    static bool perfect_square(const mpq_class &c, mpq_class &r) {
        if (c < 0) return false;
        if (mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) {
            mpz_class n, d;
            mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t());
            mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
            r = mpq_class(n, d);
            r.canonicalize();
            return true;
        }
        return false;
    }
    PolyP abs_(const PolyP &p) { // symbolic |p|
        if (p->is_const()) return constant(::abs(p->cst()));
        mpq_class lc = p->t[0].second;
        PolyP n      = scale(p, mpq_class(1 / lc));
        // |abs var|, |sqrt var| , even monomials
        if (n->t.size() == 1) {
            bool nonneg = true;
            for (auto &ve : monos[n->t[0].first]) {
                auto &v = vars[ve.first];
                if (v.kind == VK::Abs || v.kind == VK::Sqrt || ve.second % 2 == 0) continue;
                nonneg = false;
            }
            if (nonneg) return scale(n, ::abs(lc));
        }
        std::string k = "A" + key(n);
        auto it       = defs.find(k);
        uint32_t v;
        if (it != defs.end()) v = it->second;
        else {
            v = new_var(VK::Abs, "abs" + std::to_string(vars.size()), n);
            defs[k] = v;
            auto val = eval(n);
            if (val) vars[v].val = ::abs(*val);
        }
        return scale(var(v), ::abs(lc));
    }
    PolyP sqrt_(const PolyP &p) { // p known >= 0
        mpq_class r;
        if (p->is_zero()) return zero;
        if (p->is_const() && perfect_square(p->cst(), r)) return constant(r);
        if (p->t.size() == 1 && perfect_square(p->t[0].second, r)) {
            bool even = true;
            Mono h;
            for (auto &ve : monos[p->t[0].first]) { if (ve.second % 2) even = false; else h.push_back({ve.first, ve.second / 2}); }
            if (even) {
                auto q = std::make_shared<Poly>();
                q->t.push_back({mono(h), r});
                return abs_(q);
            }
        }
        // content: pull out a square rational factor
        mpq_class lc = ::abs(p->t[0].second), rr(1);
        PolyP n = p;
        if (perfect_square(lc, rr)) n = scale(p, mpq_class(1 / lc)); else rr = 1;
        std::string k = "S" + key(n);
        auto it       = defs.find(k);
        uint32_t v;
        if (it != defs.end()) v = it->second;
        else {
            v = new_var(VK::Sqrt, "sqrt" + std::to_string(vars.size()), n);
            defs[k] = v;
            auto val = eval(n);
            mpq_class s;
            if (val && perfect_square(*val, s)) vars[v].val = s;
        }
        return scale(var(v), rr);
    }
    std::optional<mpq_class> eval(const PolyP &p) {
        mpq_class s = 0;
        for (auto &e : p->t) {
            mpq_class m = e.second;
            for (auto &ve : monos[e.first]) {
                auto &v = vars[ve.first];
                if (!v.val) return std::nullopt;
                for (uint32_t k = 0; k < ve.second; k++) m *= *v.val;
            }
            s += m;
        }
        return s;
    }
    double evald_mag(const PolyP &p, double &mag) {
        double s = 0;
        for (auto &e : p->t) {
            double m = e.second.get_d();
            for (auto &ve : monos[e.first]) m *= std::pow(evald_var(ve.first), (int)ve.second);
            s += m;
            mag += std::fabs(m);
        }
        return s;
    }
    double evald(const PolyP &p) {
        double s = 0;
        for (auto &e : p->t) {
            double m = e.second.get_d();
            for (auto &ve : monos[e.first]) m *= std::pow(evald_var(ve.first), (int)ve.second);
            s += m;
        }
        return s;
    }
    double evald_var(uint32_t i) {
        auto &v = vars[i];
        switch (v.kind) {
        case VK::Quot: return evald(v.a) / evald(v.b);
        case VK::Sqrt: return std::sqrt(std::max(0., evald(v.a)));
        case VK::Abs: return std::fabs(evald(v.a));
        default: return v.val ? v.val->get_d() : 0.;
        }
    }
    // recompute values of defined variables from base ones (vars are created in dependency order)
    void refresh_defined() { for (uint32_t i = 0; i < vars.size(); i++) refresh_var(i); }
    void refresh_var(uint32_t i) {
        auto &v = vars[i];
        {
            if (v.kind == VK::Quot) {
                auto a = eval(v.a), b = eval(v.b);
                if (a && b && *b != 0) v.val = mpq_class(*a / *b); else v.val.reset();
            } else if (v.kind == VK::Abs) {
                auto a = eval(v.a);
                if (a) v.val = ::abs(*a); else v.val.reset();
            } else if (v.kind == VK::Sqrt) {
                auto a = eval(v.a);
                mpq_class s;
                if (a && perfect_square(*a, s)) v.val = s; else v.val.reset();
            }
        }
    }
    // numerator of p after eliminating all quotient variables (all denominators non-zero)
    PolyP clear_quot(PolyP p) {
        for (;;) {
            int best = -1;
            uint32_t deg = 0;
            for (auto &e : p->t)
                for (auto &ve : monos[e.first])
                    if (vars[ve.first].kind == VK::Quot) {
                        if ((int)ve.first > best) { best = ve.first; deg = ve.second; }
                        else if ((int)ve.first == best) deg = std::max(deg, ve.second);
                    }
            if (best < 0) return p;
            const PolyP d = vars[best].b, n = vars[best].a;
            std::vector<PolyP> coef(deg + 1, zero);
            {
                std::vector<std::map<uint32_t, mpq_class>> cm(deg + 1);
                for (auto &e : p->t) {
                    Mono r;
                    uint32_t k = 0;
                    for (auto &ve : monos[e.first]) if ((int)ve.first == best) k = ve.second; else r.push_back(ve);
                    cm[k][mono(r)] += e.second;
                }
                for (uint32_t k = 0; k <= deg; k++) coef[k] = from_map(cm[k]);
            }
            // sum coef_k n^k d^(deg-k)
            PolyP acc = zero, dn = one;
            std::vector<PolyP> dp(deg + 1, one), np(deg + 1, one);
            for (uint32_t k = 1; k <= deg; k++) { dp[k] = mul_nq(dp[k - 1], d, best); np[k] = mul_nq(np[k - 1], n, best); }
            for (uint32_t k = 0; k <= deg; k++) acc = add(acc, mul_nq(mul_nq(coef[k], np[k], best), dp[deg - k], best));
            p = acc;
        }
    }
    // product with sqrt/abs reduction, quotient rewriting allowed as well (sound, all identities)
    PolyP mul_nq(const PolyP &x, const PolyP &y, int) { return reduce(mul_raw(x, y)); }
    void vars_of(const PolyP &p, std::set<uint32_t> &out) {
        for (auto &e : p->t) for (auto &ve : monos[e.first]) add_var(ve.first, out);
    }
    void add_var(uint32_t v, std::set<uint32_t> &out) {
        if (!out.insert(v).second) return;
        if (vars[v].a) vars_of(vars[v].a, out);
        if (vars[v].b) vars_of(vars[v].b, out);
    }
    int degree(const PolyP &p) {
        int d = 0;
        for (auto &e : p->t) { int k = 0; for (auto &ve : monos[e.first]) k += ve.second; d = std::max(d, k); }
        return d;
    }
};

inline mpq_class mpq_of(double d) { return mpq_class(d); }
inline bool mpq_fits(const mpq_class &q, double &d) {
    d = q.get_d();
    if (!std::isfinite(d)) return false;
    return mpq_class(d) == q;
}
