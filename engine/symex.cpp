// symex: a symbolic executor for LLVM IR (C++ harness + htool headers + runtime models).
//   integers: 64-bit concrete or Z3 bit-vectors; doubles: concrete or exact symbolic reals.
//   path exploration: fork(2) at feasible symbolic branches; shared-memory counters.
#include "alg.hpp"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;
typedef unsigned long long ull;

// ------------------------------------------------------------------ shared statistics
struct Shared {
    std::atomic<long> active, tokens;
    std::atomic<ull> paths, pruned, queries, query_ns, sat, unsat, unknown, forks, instrs, checks_nf, checks_z3, checks_conc,
        violations, errors, inconclusive, branches_sym, maxdepth, samples, stop, races_checked, rejected, witness_unsat, checks_split, nf_smt;
    std::atomic<ull> deadline_hit;
    std::atomic<ull> reach[64];
    char reachname[64][96];
    std::atomic<int> nreach;
    std::atomic<int> lock;
    volatile uint8_t funcs[65536]; // executed-function bitmap by module index
};
static Shared *SH;
static void shlock() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } }
static void shunlock() { SH->lock = 0; }

// ------------------------------------------------------------------ options
struct Opt {
    std::string bc, entry, outdir;
    int workers = 8;
    double timeout = 300;
    int max_viol = 3, max_samples = 8;
    unsigned rlimit = 30000000;
    bool verbose = false;
    ull max_instr = 400000000ull;
    std::map<std::string, int> params;
    int seed = 1;
} OPT;
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;

// ------------------------------------------------------------------ values
struct SExpr { z3::expr e; SExpr(const z3::expr &x) : e(x) {} };
enum class K : uint8_t { Undef, Int, SInt, Dbl, Real, RBits, Agg, Wide };
struct Val;
struct AggV;
struct Val {
    K k = K::Undef;
    uint8_t um = 0; // Undef only: bytes of i that are initialised all the same (copies of structures with padding)
    union { uint64_t i; double d; };
    std::shared_ptr<const void> p;
    Val() : i(0) {}
    static Val I(uint64_t x) { Val v; v.k = K::Int; v.i = x; return v; }
    static Val D(double x) { Val v; v.k = K::Dbl; v.d = x; return v; }
    static Val S(const z3::expr &e);
    static Val R(const PolyP &q) {
        if (q->is_const()) {
            double d;
            if (mpq_fits(q->cst(), d)) return D(d);
        }
        Val v; v.k = K::Real; v.p = q; return v;
    }
    const z3::expr &e() const { return static_cast<const SExpr *>(p.get())->e; }
    PolyP r() const { return std::static_pointer_cast<const Poly>(p); }
    const std::vector<Val> &agg() const;
    static Val A(std::vector<Val> v);
};
struct AggV { std::vector<Val> v; };
const std::vector<Val> &Val::agg() const { return static_cast<const AggV *>(p.get())->v; }
Val Val::A(std::vector<Val> x) { Val v; v.k = K::Agg; auto a = std::make_shared<AggV>(); a->v = std::move(x); v.p = a; return v; }

static z3::context *ZC;
static Alg *ALG;
Val Val::S(const z3::expr &e0) {
    z3::expr e = e0.simplify();
    if (e.is_bool()) {
        if (e.is_true()) return I(1);
        if (e.is_false()) return I(0);
    } else {
        uint64_t u;
        if (e.is_numeral_u64(u)) return I(u);
    }
    Val v; v.k = K::SInt; v.p = std::make_shared<SExpr>(e); return v;
}

// ------------------------------------------------------------------ memory
struct SymCell { uint8_t size; Val v; };
struct Obj {
    uint64_t base, size;
    uint8_t kind; // 0 global 1 heap 2 stack 3 heap[] 
    bool freed = false, ro = false;
    std::vector<uint8_t> data, st; // st: 0 undef, 1 concrete, 2 symbolic
    std::map<uint32_t, SymCell> cells;
    std::string what;
};
static std::map<uint64_t, std::unique_ptr<Obj>> OBJ;
static uint64_t NEXT = 0x100000;
static Obj *lastObj = nullptr;
static std::set<uint64_t> LIVE_HEAP;

// ------------------------------------------------------------------ decoded functions
struct Ref { int32_t x; }; // >=0 register, <0 const pool -(x+1)
struct GepStep { int32_t ref; int64_t scale; };
struct Ins {
    const Instruction *I;
    unsigned op;
    int32_t dst = -1;
    std::vector<int32_t> a;
    int64_t off = 0;
    std::vector<GepStep> steps;
    unsigned width = 0, width2 = 0;
    Type *ty = nullptr;
    int succ0 = -1, succ1 = -1;
    const Function *callee = nullptr;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
    int builtin = -1;
    bool isfloat = false;
};
struct Edge { std::vector<std::pair<int32_t, int32_t>> moves; };
struct Blk { std::vector<Ins> ins; std::map<int, Edge> in; };
struct Fn {
    const Function *F;
    std::vector<Blk> blks;
    int nregs = 0, idx = 0;
};
static std::map<const Function *, std::unique_ptr<Fn>> FNS;
static std::vector<Val> POOL;
static std::map<const Constant *, int> POOLIDX;
static std::map<const GlobalVariable *, uint64_t> GADDR;
static std::map<const Function *, uint64_t> FADDR;
static std::map<uint64_t, const Function *> AFN;
static Module *MOD;
static const DataLayout *DL;

struct Frame {
    Fn *fn;
    int blk = 0, pc = 0;
    std::vector<Val> regs, va;
    std::vector<uint64_t> allocas;
    int32_t retdst = -1;
    int normal = -1, unwind = -1; // invoke
    const Ins *callIns = nullptr;
    std::function<void()> onret;
};
struct Thread {
    std::vector<Frame> st;
    int state = 0; // 0 runnable 1 at barrier 2 done 3 waiting for team
    int tid = 0, team = -1;
    int rid = 0;                // who it counts as for races (a nested team of one is its parent)
    std::vector<uint64_t> held; // critical sections entered
};
struct Team { std::vector<int> members; int parent; bool omp; bool nested = false; };
static std::vector<std::unique_ptr<Thread>> THR;
static std::vector<Team> TEAMS;
static int CUR = 0;

// races
struct Acc { int who; bool write; std::vector<uint64_t> held; };
static std::unordered_map<uint64_t, std::vector<Acc>> RACE;
static bool RACE_ON = false;

// ------------------------------------------------------------------ path state
struct IVar { std::string name; z3::expr e; unsigned width; uint64_t val; };
static std::vector<IVar> *IVARS;
struct PC1 { z3::expr e; std::set<uint32_t> rv; std::set<uint32_t> iv; };
static std::vector<PC1> *PCS;
struct Input { int kind; std::string name; uint32_t var; int64_t cv; }; // 0 int var,1 real var,2 concrete choice
static std::vector<Input> INPUTS;
static int SIGNATOM_NEG = 1, SIGNATOM_ZERO = 2, SIGNATOM_POS = 4;
static std::map<std::string, int> SIGNS;                              // canonical poly -> allowed sign mask
struct AtomInfo { std::string key; PolyP poly; int mask; };
static std::unordered_map<unsigned, std::pair<z3::expr, AtomInfo>> *ATOMS; // z3 ast id -> atom
static std::unordered_map<const Poly *, std::pair<PolyP, z3::expr>> *P2Z;
static std::vector<z3::expr> *RZ; // z3 expr of real vars
static int DEPTH = 0;
static ull INSTRS = 0, INSTR_FLUSH = 0;
static bool ISROOT = true;
static bool MODEL_OK = true; // does the current assignment satisfy PC?
static ull CHECKS_PATH = 0;
static std::vector<std::string> TRACE;
static std::string g_where();

struct PathEnd { int why; }; // 0 normal 1 pruned 2 violation 3 error
[[noreturn]] static void endpath(int why) { throw PathEnd{why}; }
static void finish_process();

[[noreturn]] static void engine_error(const std::string &m) {
    SH->errors++;
    shlock();
    FILE *f = fopen((OPT.outdir + "/errors.txt").c_str(), "a");
    if (f) { fprintf(f, "%s  [%s]\n", m.c_str(), g_where().c_str()); fclose(f); }
    shunlock();
    endpath(3);
}

// ------------------------------------------------------------------ z3 translation
static z3::expr q2z(const mpq_class &q) { return ZC->real_val(q.get_str().c_str()); }
static z3::expr poly2z(const PolyP &p);
static std::unordered_map<unsigned, uint32_t> RCID; // ast id of a real constant -> variable
static z3::expr rvar2z(uint32_t v) {
    while (RZ->size() <= v) {
        uint32_t i = RZ->size();
        auto &V    = ALG->vars[i];
        if (V.kind == VK::Abs) {
            z3::expr a = poly2z(V.a);
            RZ->push_back(z3::ite(a >= 0, a, -a));
        } else { RZ->push_back(ZC->real_const((V.name + "!" + std::to_string(i)).c_str())); RCID[RZ->back().id()] = i; }
    }
    return (*RZ)[v];
}
static z3::expr poly2z(const PolyP &p) {
    auto it = P2Z->find(p.get());
    if (it != P2Z->end()) return it->second.second;
    z3::expr_vector sum(*ZC);
    for (auto &e : p->t) {
        z3::expr_vector pr(*ZC);
        if (e.second != 1 || e.first == 0) pr.push_back(q2z(e.second));
        for (auto &ve : ALG->monos[e.first]) for (uint32_t k = 0; k < ve.second; k++) pr.push_back(rvar2z(ve.first));
        if (pr.size() == 1) sum.push_back(pr[0]);
        else {
            std::vector<Z3_ast> as; for (unsigned i = 0; i < pr.size(); i++) as.push_back(pr[i]);
            sum.push_back(z3::expr(*ZC, Z3_mk_mul(*ZC, as.size(), as.data())));
        }
    }
    z3::expr r = ZC->real_val(0);
    if (sum.size() == 1) r = sum[0];
    else if (sum.size() > 1) {
        std::vector<Z3_ast> as; for (unsigned i = 0; i < sum.size(); i++) as.push_back(sum[i]);
        r = z3::expr(*ZC, Z3_mk_add(*ZC, as.size(), as.data()));
    }
    P2Z->emplace(p.get(), std::make_pair(p, r));
    return r;
}
// side condition defining variable v (Quot, Sqrt)
static void axioms(uint32_t v, z3::expr_vector &out) {
    auto &V = ALG->vars[v];
    if (V.kind == VK::Quot) { out.push_back(rvar2z(v) * poly2z(V.b) == poly2z(V.a)); }
    if (V.kind == VK::Sqrt) { out.push_back(rvar2z(v) >= 0); out.push_back(rvar2z(v) * rvar2z(v) == poly2z(V.a)); }
}
// variables of an arbitrary expression (ints + reals)
static std::unordered_map<unsigned, uint32_t> *INTID; // ast id of int const -> index
static void expr_vars(const z3::expr &e, std::set<uint32_t> &iv, std::set<uint32_t> &rv) {
    std::unordered_set<unsigned> seen;
    std::vector<z3::expr> st{e};
    while (!st.empty()) {
        z3::expr x = st.back(); st.pop_back();
        if (!x.is_app() || !seen.insert(x.id()).second) continue;
        auto at = ATOMS->find(x.id());
        if (at != ATOMS->end()) ALG->vars_of(at->second.second.poly, rv);
        if (x.num_args() == 0) {
            auto it = INTID->find(x.id());
            if (it != INTID->end()) iv.insert(it->second);
            auto r = RCID.find(x.id());
            if (r != RCID.end()) rv.insert(r->second);
        }
        for (unsigned i = 0; i < x.num_args(); i++) st.push_back(x.arg(i));
    }
}
enum Sat { SAT, UNSAT, UNK };
// truth of a symbolic integer, keeping registered atoms intact
static z3::expr nonzero(const z3::expr &e0) {
    z3::expr e = e0;
    if (e.is_bool()) return e;
    uint64_t a, b;
    if (e.is_ite() && e.arg(1).is_numeral_u64(a) && e.arg(2).is_numeral_u64(b)) {
        if (a && !b) return e.arg(0);
        if (!a && b) return !e.arg(0);
    }
    return (e != ZC->bv_val(0, e.get_sort().bv_size())).simplify();
}
static z3::expr bv_of(const Val &v, unsigned w) {
    if (v.k == K::Int) return w == 1 ? ZC->bool_val(v.i & 1) : ZC->bv_val((uint64_t)(w < 64 ? v.i & ((1ull << w) - 1) : v.i), w);
    if (v.k == K::SInt) return v.e();
    engine_error("bv_of: value kind " + std::to_string((int)v.k));
}
// current-model evaluation of a boolean expression
static std::optional<bool> eval_model(const z3::expr &c) {
    if (!MODEL_OK) return std::nullopt;
    auto ev_atom = [&](const AtomInfo &a) -> std::optional<bool> {
        auto v = ALG->eval(a.poly);
        int s;
        if (!v) {
            double mag = 0, x = ALG->evald_mag(a.poly, mag);
            if (!(std::fabs(x) > 1e-7 * mag) || !std::isfinite(x)) return std::nullopt;
            s = x < 0 ? -1 : 1;
        } else s = sgn(*v);
        int m = s < 0 ? SIGNATOM_NEG : s == 0 ? SIGNATOM_ZERO : SIGNATOM_POS;
        return (m & a.mask) != 0;
    };
    auto at = ATOMS->find(c.id());
    if (at != ATOMS->end()) return ev_atom(at->second.second);
    z3::expr_vector from(*ZC), to(*ZC);
    // atoms occurring inside
    std::unordered_set<unsigned> seen;
    std::vector<z3::expr> st{c};
    while (!st.empty()) {
        z3::expr x = st.back(); st.pop_back();
        if (!x.is_app() || !seen.insert(x.id()).second) continue;
        auto a2 = ATOMS->find(x.id());
        if (a2 != ATOMS->end()) {
            auto r = ev_atom(a2->second.second);
            if (!r) return std::nullopt;
            from.push_back(x); to.push_back(ZC->bool_val(*r));
            continue;
        }
        if (x.num_args() == 0) {
            auto it = INTID->find(x.id());
            if (it != INTID->end()) {
                auto &iv = (*IVARS)[it->second];
                from.push_back(x);
                to.push_back(iv.width == 1 ? ZC->bool_val(iv.val & 1) : ZC->bv_val((uint64_t)iv.val, iv.width));
            } else if (x.is_real() && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) return std::nullopt;
        }
        for (unsigned i = 0; i < x.num_args(); i++) st.push_back(x.arg(i));
    }
    z3::expr r = const_cast<z3::expr &>(c).substitute(from, to).simplify();
    if (r.is_true()) return true;
    if (r.is_false()) return false;
    return std::nullopt;
}
struct ModelUpd { std::vector<std::pair<uint32_t, std::optional<mpq_class>>> r; std::vector<std::pair<uint32_t, uint64_t>> i; bool exact = true; };
static void apply_model(const ModelUpd &m) {
    for (auto &x : m.r) ALG->vars[x.first].val = x.second;
    for (auto &x : m.i) (*IVARS)[x.first].val = x.second;
    ALG->refresh_defined();
    if (!m.exact) MODEL_OK = false;
}
static int atom_value(const AtomInfo &a) { // 1 true 0 false -1 unclear, under the current assignment
    auto v = ALG->eval(a.poly);
    int s;
    if (!v) {
        double mag = 0, x = ALG->evald_mag(a.poly, mag);
        if (!(std::fabs(x) > 1e-7 * mag) || !std::isfinite(x)) return -1;
        s = x < 0 ? -1 : 1;
    } else s = sgn(*v);
    return ((s < 0 ? SIGNATOM_NEG : s == 0 ? SIGNATOM_ZERO : SIGNATOM_POS) & a.mask) != 0;
}
// random search around the current assignment for one satisfying all atoms
static bool search_model(const std::vector<AtomInfo> &ai, const std::set<uint32_t> &rv, ModelUpd &mu) {
    std::vector<uint32_t> base, def;
    // closure over the definitions
    std::set<uint32_t> all(rv);
    for (auto &a : ai) ALG->vars_of(a.poly, all);
    bool grow = true;
    while (grow) {
        grow = false;
        for (auto v : std::set<uint32_t>(all)) {
            auto &V = ALG->vars[v];
            size_t n = all.size();
            if (V.a) ALG->vars_of(V.a, all);
            if (V.b) ALG->vars_of(V.b, all);
            if (all.size() != n) grow = true;
        }
    }
    for (auto v : all) { auto k = ALG->vars[v].kind; if (k == VK::Base || k == VK::Nd) base.push_back(v); else def.push_back(v); }
    if (base.empty() || base.size() > 60 || def.size() > 200) return false;
    static uint64_t seed = 88172645463325252ull;
    auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
    std::vector<std::optional<mpq_class>> old;
    for (auto v : all) old.push_back(ALG->vars[v].val);
    auto redef = [&] { for (auto v : def) ALG->refresh_var(v); };
    auto restore = [&] { size_t k = 0; for (auto v : all) ALG->vars[v].val = old[k++]; };
    int tries = 80;
    bool found = false;
    auto score = [&] { int n = 0; for (auto &a : ai) if (atom_value(a) == 1) n++; return n; };
    int best = score();
    std::vector<std::optional<mpq_class>> cur = old;
    for (int t = 0; t < tries && !found; t++) {
        int nm = t < 20 ? 1 : 1 + rnd() % std::min<size_t>(4, base.size());
        for (int k = 0; k < nm; k++) {
            auto v = base[rnd() % base.size()];
            long num = (long)(rnd() % 41) - 20;
            long den = (rnd() & 3) ? 1 : 4;
            if ((rnd() & 15) == 0) num *= 50;
            mpq_class q(num, den);
            q.canonicalize();
            if ((rnd() & 7) == 0 && ALG->vars[v].val) { q = -*ALG->vars[v].val; }
            if ((rnd() & 7) == 0) { auto w = base[rnd() % base.size()]; if (ALG->vars[w].val) q = *ALG->vars[w].val; }
            ALG->vars[v].val = q;
        }
        redef();
        int sc = score();
        if (sc == (int)ai.size()) found = true;
        else if (sc >= best) { best = sc; size_t k = 0; for (auto v : all) cur[k++] = ALG->vars[v].val; }
        else { size_t k = 0; for (auto v : all) ALG->vars[v].val = cur[k++]; }
    }
    if (found) for (auto v : base) mu.r.push_back({v, ALG->vars[v].val});
    restore();
    return found;
}
// products as opaque variables: unsat is conclusive
static bool lin_unsat(const std::vector<AtomInfo> &ai) {
    z3::solver s(*ZC, "QF_LRA");
    std::set<uint32_t> done, abses;
    std::function<z3::expr(const PolyP &)> L;
    auto M = [&](uint32_t m) -> z3::expr {
        z3::expr x = ZC->real_const(("mono!" + std::to_string(m)).c_str());
        if (done.insert(m).second) {
            bool nn = true;
            for (auto &ve : ALG->monos[m]) { auto k = ALG->vars[ve.first].kind; if (!(ve.second % 2 == 0 || k == VK::Abs || k == VK::Sqrt)) nn = false; }
            if (nn) s.add(x >= 0);
            for (auto &ve : ALG->monos[m]) {
                auto k = ALG->vars[ve.first].kind;
                if (k == VK::Abs) abses.insert(ve.first);
            }
        }
        return x;
    };
    L = [&](const PolyP &p) -> z3::expr {
        z3::expr_vector sum(*ZC);
        for (auto &e : p->t) sum.push_back(e.first == 0 ? q2z(e.second) : q2z(e.second) * M(e.first));
        if (sum.empty()) return ZC->real_val(0);
        return z3::sum(sum);
    };
    for (auto &a : ai) {
        z3::expr x = L(a.poly), z = ZC->real_val(0);
        switch (a.mask) {
        case 1: s.add(x < z); break;
        case 2: s.add(x == z); break;
        case 3: s.add(x <= z); break;
        case 4: s.add(x > z); break;
        case 5: s.add(x != z); break;
        case 6: s.add(x >= z); break;
        case 0: return true;
        default: break;
        }
    }
    std::set<uint32_t> seen;
    while (true) {
        uint32_t v = 0; bool f = false;
        for (auto a : abses) if (seen.insert(a).second) { v = a; f = true; break; }
        if (!f) break;
        z3::expr x = M(ALG->var(v)->t[0].first), y = L(ALG->vars[v].a);
        s.add(x >= y);
        s.add(x >= -y);
        s.add(x == y || x == -y);
    }
    z3::params pr(*ZC);
    pr.set("rlimit", 2000000u);
    s.set(pr);
    return s.check() == z3::unsat;
}
static Sat solve(const std::vector<z3::expr> &extra, ModelUpd *mu, bool fullpc = false, const std::set<uint32_t> *xrv = nullptr) {
    std::set<uint32_t> iv, rv;
    if (xrv) rv = *xrv;
    for (auto &e : extra) expr_vars(e, iv, rv);
    std::vector<char> used(PCS->size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t k = 0; k < PCS->size(); k++) if (!used[k]) {
            auto &p = (*PCS)[k];
            bool hit = fullpc;
            for (auto x : p.iv) if (iv.count(x)) hit = true;
            if (!hit) for (auto x : p.rv) if (rv.count(x)) { hit = true; break; }
            if (hit) { used[k] = 1; iv.insert(p.iv.begin(), p.iv.end()); rv.insert(p.rv.begin(), p.rv.end()); ch = true; }
        }
    }
    // nonlinear real problems: look for a model near the current one, then try a linear abstraction
    if (iv.empty() && !rv.empty()) {
        bool nl = false, atoms = true;
        std::vector<const z3::expr *> all;
        for (size_t k = 0; k < PCS->size(); k++) if (used[k]) all.push_back(&(*PCS)[k].e);
        for (auto &e : extra) all.push_back(&e);
        for (auto v : rv) { auto kd = ALG->vars[v].kind; if (kd == VK::Quot || kd == VK::Sqrt) nl = true; }
        std::vector<AtomInfo> ai;
        for (auto *e : all) {
            auto a = ATOMS->find(e->id());
            if (a == ATOMS->end() && e->is_not()) { auto b = ATOMS->find(e->arg(0).id()); if (b != ATOMS->end()) { AtomInfo c = b->second.second; c.mask = 7 & ~c.mask; ai.push_back(c); continue; } }
            if (a == ATOMS->end()) { atoms = false; continue; }
            ai.push_back(a->second.second);
            if (ALG->degree(a->second.second.poly) > 1) nl = true;
        }
        if (nl) {
            if (atoms && lin_unsat(ai)) { SH->queries++; SH->unsat++; return UNSAT; }
            if (mu && MODEL_OK && atoms && search_model(ai, rv, *mu)) { SH->queries++; SH->sat++; return SAT; }
        }
    }
    z3::expr_vector as(*ZC);
    for (size_t k = 0; k < PCS->size(); k++) if (used[k]) as.push_back((*PCS)[k].e);
    for (auto &e : extra) as.push_back(e);
    bool nonlin = false;
    for (auto v : rv) { auto kd = ALG->vars[v].kind; if (kd == VK::Quot || kd == VK::Sqrt) { nonlin = true; axioms(v, as); } }
    auto t1 = std::chrono::steady_clock::now();
    SH->queries++;
    Sat res = UNK;
    auto attempt = [&](z3::solver s, unsigned rl) {
        z3::params pr(*ZC);
        pr.set("rlimit", rl);
        s.set(pr);
        for (unsigned k = 0; k < as.size(); k++) s.add(as[k]);
        z3::check_result r = s.check();
        if (r == z3::unsat) { res = UNSAT; return; }
        if (r == z3::unknown) { res = UNK; return; }
        res = SAT;
        if (mu) {
            z3::model m = s.get_model();
            for (auto v : rv) {
                auto kd = ALG->vars[v].kind;
                if (kd != VK::Base && kd != VK::Nd) continue;
                z3::expr x = m.eval(rvar2z(v), true);
                if (x.is_numeral() && !x.is_algebraic()) {
                    mpq_class q(x.get_decimal_string(0).empty() ? std::string("0") : Z3_get_numeral_string(*ZC, x));
                    q.canonicalize();
                    mu->r.push_back({v, q});
                } else if (x.is_algebraic()) {
                    mu->exact = false;
                    std::string ds = x.get_decimal_string(30);
                    if (!ds.empty() && ds.back() == '?') ds.pop_back();
                    // decimal to rational
                    bool ng = !ds.empty() && ds[0] == '-';
                    if (ng) ds = ds.substr(1);
                    auto pt = ds.find('.');
                    std::string ip = ds.substr(0, pt), fp = pt == std::string::npos ? "" : ds.substr(pt + 1);
                    mpz_class num, den;
                    if (num.set_str(ip + fp, 10)) num = 0;
                    mpz_ui_pow_ui(den.get_mpz_t(), 10, fp.size());
                    mpq_class q(num, den);
                    q.canonicalize();
                    mu->r.push_back({v, ng ? mpq_class(-q) : q});
                } else mu->r.push_back({v, mpq_class(0)});
            }
            for (auto v : iv) {
                z3::expr x = m.eval((*IVARS)[v].e, true);
                uint64_t u = 0;
                if (x.is_bool()) u = x.is_true(); else x.is_numeral_u64(u);
                mu->i.push_back({v, u});
            }
        }
    };
    if (static const char *qd = getenv("SX_QDUMP"); qd) { // the query about to be asked, one file per process
        if (FILE *f = fopen((std::string(qd) + "/q." + std::to_string(getpid())).c_str(), "w")) { fprintf(f, "%s\n", g_where().c_str()); for (unsigned k = 0; k < as.size(); k++) fprintf(f, "%s\n", as[k].to_string().c_str()); fclose(f); }
    }
    try {
        bool pure_real = iv.empty();
        for (auto &e : extra) (void)e;
        if (pure_real && !rv.empty()) {
            int deg = nonlin ? 2 : 1;
            if (deg == 1) for (size_t k = 0; k < PCS->size(); k++) if (used[k]) { auto a = ATOMS->find((*PCS)[k].e.id()); if (a == ATOMS->end() || ALG->degree(a->second.second.poly) > 1) deg = 2; }
            if (deg == 1) for (auto &e : extra) { auto a = ATOMS->find(e.id()); if (a == ATOMS->end() || ALG->degree(a->second.second.poly) > 1) deg = 2; }
            if (deg == 1) attempt(z3::solver(*ZC, "QF_LRA"), OPT.rlimit);
            else {
                attempt(z3::solver(*ZC, "QF_NRA"), OPT.rlimit);
                if (res == UNK) attempt(z3::solver(*ZC), OPT.rlimit);
            }
        } else if (rv.empty()) attempt(z3::solver(*ZC, "QF_BV"), OPT.rlimit);
        else attempt(z3::solver(*ZC), OPT.rlimit);
    } catch (z3::exception &ex) { res = UNK; }
    SH->query_ns += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t1).count();
    static const char *slow = getenv("SX_SLOW");
    if (slow) {
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
        if (dt > atof(slow)) { fprintf(stderr, "[slow %.2fs res %d] %s\n", dt, (int)res, g_where().c_str()); for (unsigned k = 0; k < as.size(); k++) { std::string q = as[k].to_string(); for (auto &c : q) if (c == '\n') c = ' '; fprintf(stderr, "   %s\n", q.substr(0, 400).c_str()); } }
    }
    if (res == SAT) SH->sat++; else if (res == UNSAT) SH->unsat++; else SH->unknown++;
    return res;
}
static void register_atom(const z3::expr &e, const AtomInfo &a) { ATOMS->emplace(e.id(), std::make_pair(e, a)); }
// assume c on this path (already known feasible or to be checked by caller)
static void add_pc(const z3::expr &c) {
    if (c.is_true()) return;
    // conjunctions are split so that atoms are recorded
    if (c.is_and()) { for (unsigned i = 0; i < c.num_args(); i++) add_pc(c.arg(i)); return; }
    auto at = ATOMS->find(c.id());
    if (at != ATOMS->end()) {
        auto &A = at->second.second;
        auto it = SIGNS.find(A.key);
        int cur = it == SIGNS.end() ? 7 : it->second;
        SIGNS[A.key] = cur & A.mask;
    } else if (c.is_not()) {
        auto a2 = ATOMS->find(c.arg(0).id());
        if (a2 != ATOMS->end()) {
            auto &A = a2->second.second;
            auto it = SIGNS.find(A.key);
            int cur = it == SIGNS.end() ? 7 : it->second;
            SIGNS[A.key] = cur & ~A.mask;
        } else if (c.arg(0).is_or()) { for (unsigned i = 0; i < c.arg(0).num_args(); i++) add_pc((!c.arg(0).arg(i)).simplify()); return; }
    }
    PC1 p{c, {}, {}};
    expr_vars(c, p.iv, p.rv);
    PCS->push_back(p);
}

// ------------------------------------------------------------------ witnesses
static void dump_inputs(FILE *f) {
    for (auto &in : INPUTS) {
        if (in.kind == 0) {
            auto &iv = (*IVARS)[in.var];
            int64_t x = iv.width < 64 ? (int64_t)(iv.val << (64 - iv.width)) >> (64 - iv.width) : (int64_t)iv.val;
            fprintf(f, "i %s %lld\n", in.name.c_str(), (long long)x);
        } else if (in.kind == 1) {
            auto &v = ALG->vars[in.var];
            fprintf(f, "r %s %.17g\n", in.name.c_str(), v.val ? v.val->get_d() : 0.);
        } else fprintf(f, "i %s %lld\n", in.name.c_str(), (long long)in.cv);
    }
}
static void report_violation(const std::string &msg, const std::string &kind) {
    ull n = SH->violations++;
    if ((int)n >= OPT.max_viol) { SH->stop = 1; return; }
    std::string fn = OPT.outdir + "/viol." + std::to_string(n) + ".txt";
    FILE *f = fopen(fn.c_str(), "w");
    fprintf(f, "# entry %s\n# kind %s\n# msg %s\n# where %s\n# exact %d\n", OPT.entry.c_str(), kind.c_str(), msg.c_str(), g_where().c_str(), (int)MODEL_OK);
    for (auto &t : TRACE) fprintf(f, "# trace %s\n", t.c_str());
    dump_inputs(f);
    fclose(f);
    if ((int)n + 1 >= OPT.max_viol) SH->stop = 1;
}
// make sure the current assignment is a model of the whole path condition
static bool ensure_model() {
    if (MODEL_OK) return true;
    ModelUpd mu;
    Sat s = solve({}, &mu, true);
    if (s == SAT) { apply_model(mu); MODEL_OK = mu.exact; return true; }
    return false;
}
[[noreturn]] static void violation(const std::string &msg, const std::string &kind) {
    bool inexact = false;
    if (!MODEL_OK) {
        ModelUpd mu;
        Sat s = solve({}, &mu, true);
        if (s == UNSAT) endpath(1); // path was infeasible after all
        if (s == UNK) { SH->inconclusive++; shlock(); FILE *f = fopen((OPT.outdir + "/inconclusive.txt").c_str(), "a"); if (f) { fprintf(f, "%s [%s]\n", msg.c_str(), g_where().c_str()); fclose(f); } shunlock(); endpath(1); }
        apply_model(mu);
        MODEL_OK = mu.exact;
        inexact  = !mu.exact;
    }
    (void)inexact;
    report_violation(msg, kind);
    endpath(2);
}
static void inconclusive(const std::string &msg) {
    SH->inconclusive++;
    shlock();
    FILE *f = fopen((OPT.outdir + "/inconclusive.txt").c_str(), "a");
    if (f) { fprintf(f, "%s [%s]\n", msg.c_str(), g_where().c_str()); fclose(f); }
    shunlock();
}

// ------------------------------------------------------------------ forking
// equalities discharged by equal normal forms; handed to the solver once per path
static std::vector<std::pair<PolyP, PolyP>> NFEQ;
static size_t NFEQ_TERMS = 0;
static void flush_instr() { SH->instrs += INSTRS - INSTR_FLUSH; INSTR_FLUSH = INSTRS; }
// returns true in the child
static bool do_fork() {
    SH->forks++;
    DEPTH++;
    flush_instr();
    if (SH->stop || now_s() - T0 > OPT.timeout) {
        if (!SH->stop) SH->deadline_hit = 1;
        endpath(1);
    }
    long t = SH->tokens.load();
    bool par = false;
    while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
    SH->active++;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { SH->active--; if (par) SH->tokens++; engine_error("fork failed"); }
    if (pid == 0) {
        ISROOT = false;
        NFEQ.clear(); // the parent discharges these
        NFEQ_TERMS = 0;
        INSTR_FLUSH = INSTRS;
        // remember whether we hold our own token
        extern bool OWN_TOKEN;
        OWN_TOKEN = par;
        return true;
    }
    if (!par) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} }
    return false;
}
bool OWN_TOKEN = false;

// decide a symbolic boolean on this path: forks when both are feasible
static bool decide(const z3::expr &c0) {
    z3::expr c = c0;
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    SH->branches_sym++;
    // quick: known sign masks
    {
        const z3::expr *base = &c;
        z3::expr inner = c;
        bool neg = false;
        if (c.is_not()) { inner = c.arg(0); base = &inner; neg = true; }
        auto at = ATOMS->find(base->id());
        if (at != ATOMS->end()) {
            auto it = SIGNS.find(at->second.second.key);
            int cur = it == SIGNS.end() ? 7 : it->second;
            int m = neg ? (7 & ~at->second.second.mask) : at->second.second.mask;
            if ((cur & ~m) == 0) return true;
            if ((cur & m) == 0) return false;
        }
    }
    z3::expr nc = (!c).simplify();
    if (nc.is_not() && nc.arg(0).id() == c.id()) {}
    // atoms: keep complementary atom registered
    auto at = ATOMS->find(c.id());
    if (at != ATOMS->end() && ATOMS->find(nc.id()) == ATOMS->end()) { AtomInfo a = at->second.second; a.mask = 7 & ~a.mask; register_atom(nc, a); }
    std::optional<bool> cur = eval_model(c);
    ModelUpd mt, mf;
    Sat st, sf;
    bool cur_t = cur && *cur, cur_f = cur && !*cur;
    st = cur_t ? SAT : solve({c}, &mt);
    if (st == UNSAT) { add_pc(nc); if (!cur_f) { /* model kept as is */ } return false; }
    sf = cur_f ? SAT : solve({nc}, &mf);
    if (sf == UNSAT) {
        add_pc(c);
        return true;
    }
    bool child = do_fork();
    // child takes the branch that is not the current model's, parent stays
    bool take = child ? !(cur_t || !cur) : (cur_t || !cur);
    if (take) {
        add_pc(c);
        if (!cur_t) { if (st == SAT) apply_model(mt); else MODEL_OK = false; }
    } else {
        add_pc(nc);
        if (!cur_f) { if (sf == SAT) apply_model(mf); else MODEL_OK = false; }
    }
    return take;
}
static void assume(const z3::expr &c) {
    if (c.is_true()) return;
    if (c.is_false()) endpath(1);
    std::optional<bool> cur = eval_model(c);
    if (cur && *cur) { add_pc(c); return; }
    ModelUpd mu;
    Sat s = solve({c}, &mu);
    if (s == UNSAT) endpath(1);
    add_pc(c);
    if (s == SAT) apply_model(mu); else MODEL_OK = false;
}

// ------------------------------------------------------------------ real comparisons
static PolyP polyof(const Val &v) {
    if (v.k == K::Real) return v.r();
    if (v.k == K::Dbl) {
        if (!std::isfinite(v.d)) engine_error("polyof non-finite");
        return ALG->constant(mpq_of(v.d));
    }
    engine_error("polyof kind " + std::to_string((int)v.k));
}
// truth value of (p in sign mask) as a Val (i1)
// c*M + k with M a product of square roots and absolute values over such products: compare squares instead
static PolyP square_compare(const PolyP &p) {
    if (p->t.size() != 2) return nullptr;
    int k = p->t[0].first == 0 ? 0 : p->t[1].first == 0 ? 1 : -1;
    if (k < 0) return nullptr;
    mpq_class c = p->t[1 - k].second, q = p->t[k].second;
    if (sgn(c) == sgn(q)) return nullptr;
    auto nnmono = [&](const Mono &m) { for (auto &ve : m) { auto vk = ALG->vars[ve.first].kind; if (vk != VK::Sqrt && vk != VK::Abs) return false; } return true; };
    PolyP num = ALG->one, den = ALG->one;
    bool any = false;
    for (auto &ve : ALG->monos[p->t[1 - k].first]) {
        auto &v = ALG->vars[ve.first];
        if (v.kind == VK::Sqrt) any = true;
        if (v.kind == VK::Quot) {
            if (!(v.a->is_const() && sgn(v.a->cst()) > 0 && v.b->t.size() == 1 && sgn(v.b->t[0].second) > 0 && nnmono(ALG->monos[v.b->t[0].first]))) return nullptr;
            for (uint32_t e = 0; e < ve.second; e++) { num = ALG->mul(num, ALG->mul(v.a, v.a)); den = ALG->mul(den, ALG->mul(v.b, v.b)); }
        } else if (v.kind == VK::Sqrt || v.kind == VK::Abs) {
            PolyP x = ALG->var(ve.first);
            for (uint32_t e = 0; e < ve.second; e++) num = ALG->mul(num, ALG->mul(x, x));
        } else return nullptr;
    }
    if (!any) return nullptr;
    mpq_class K = q / c; // negative
    PolyP r = ALG->sub(num, ALG->scale(den, mpq_class(K * K)));
    return sgn(c) > 0 ? r : ALG->neg(r);
}
static Val sign_atom(PolyP p, int mask) {
    if (PolyP r = square_compare(p)) p = r;
    if (p->is_const()) {
        int s = sgn(p->cst());
        int m = s < 0 ? 1 : s == 0 ? 2 : 4;
        return Val::I((m & mask) != 0);
    }
    // canonical
    mpq_class lc = p->t[0].second;
    PolyP n = ALG->scale(p, mpq_class(1 / lc));
    if (lc < 0) mask = ((mask & 1) ? 4 : 0) | (mask & 2) | ((mask & 4) ? 1 : 0);
    // cheap sign knowledge: all monomials non-negative
    bool allnn = true;
    bool pos   = false;
    for (auto &e : n->t) {
        bool nn = true;
        for (auto &ve : ALG->monos[e.first]) {
            auto k = ALG->vars[ve.first].kind;
            if (!(ve.second % 2 == 0 || k == VK::Abs || k == VK::Sqrt)) nn = false;
        }
        if (!nn || e.second < 0) { allnn = false; break; }
        if (e.first == 0) pos = true;
    }
    std::string key = ALG->key(n);
    if (p->nn) { auto it = SIGNS.emplace(key, 7).first; it->second &= lc > 0 ? 6 : 3; }
    int cur = 7;
    auto it = SIGNS.find(key);
    if (it != SIGNS.end()) cur = it->second;
    if (allnn) cur &= pos ? 4 : 6;
    if ((cur & ~mask) == 0) return Val::I(1);
    if ((cur & mask) == 0) return Val::I(0);
    z3::expr z = poly2z(n);
    z3::expr zero = ZC->real_val(0);
    z3::expr e = ZC->bool_val(true);
    switch (mask) {
    case 1: e = z < zero; break;
    case 2: e = z == zero; break;
    case 3: e = z <= zero; break;
    case 4: e = z > zero; break;
    case 5: e = z != zero; break;
    case 6: e = z >= zero; break;
    case 0: return Val::I(0);
    default: return Val::I(1);
    }
    if (mask == 5) { z3::expr q = (z == zero); AtomInfo b{key, n, 2}; register_atom(q, b); }
    AtomInfo a{key, n, mask}, na{key, n, 7 & ~mask};
    register_atom(e, a);
    // the shapes the simplifier may turn it into
    z3::expr sp = e.simplify(), sn = (!e).simplify();
    if (!sp.is_true() && !sp.is_false()) { register_atom(sp, a); if (sp.is_not()) register_atom(sp.arg(0), na); }
    if (!sn.is_true() && !sn.is_false()) { register_atom(sn, na); if (sn.is_not()) register_atom(sn.arg(0), a); }
    Val v; v.k = K::SInt; v.p = std::make_shared<SExpr>(e);
    return v;
}
static bool truth(const Val &v) {
    if (v.k == K::Int) return v.i & 1;
    if (v.k == K::SInt) return decide(v.e());
    if (v.k == K::Undef) violation("branch or decision on an uninitialised value", "uninit");
    engine_error("truth kind");
}
static int real_sign(const PolyP &p) { // forks
    if (p->is_const()) return sgn(p->cst());
    if (truth(sign_atom(p, 2))) return 0;
    return truth(sign_atom(p, 4)) ? 1 : -1;
}
static uint64_t concretize(const Val &v, unsigned w) {
    if (v.k == K::Int) return v.i;
    if (v.k == K::Undef) violation("use of an uninitialised value (address, size or index)", "uninit");
    if (v.k != K::SInt) engine_error("concretize kind " + std::to_string((int)v.k));
    z3::expr e = v.e();
    if (e.is_bool()) return decide(e);
    for (;;) {
        // take the value in the current model when available
        std::optional<uint64_t> val;
        if (MODEL_OK) {
            z3::expr_vector from(*ZC), to(*ZC);
            std::set<uint32_t> iv, rv;
            expr_vars(e, iv, rv);
            if (rv.empty()) {
                for (auto x : iv) { from.push_back((*IVARS)[x].e); to.push_back((*IVARS)[x].width == 1 ? ZC->bool_val((*IVARS)[x].val & 1) : ZC->bv_val((uint64_t)(*IVARS)[x].val, (*IVARS)[x].width)); }
                z3::expr r = e.substitute(from, to).simplify();
                uint64_t u;
                if (r.is_numeral_u64(u)) val = u;
            }
        }
        if (!val) {
            ModelUpd mu;
            z3::expr k = ZC->bv_const("cz!", w);
            // need a model value: query e == fresh constant
            std::set<uint32_t> iv, rv;
            expr_vars(e, iv, rv);
            Sat s = solve({e == e.ctx().bv_const("cz!", w)}, &mu);
            if (s != SAT) { if (s == UNSAT) endpath(1); engine_error("concretize unknown"); }
            apply_model(mu);
            z3::expr_vector from(*ZC), to(*ZC);
            for (auto x : iv) { from.push_back((*IVARS)[x].e); to.push_back((*IVARS)[x].width == 1 ? ZC->bool_val((*IVARS)[x].val & 1) : ZC->bv_val((uint64_t)(*IVARS)[x].val, (*IVARS)[x].width)); }
            z3::expr r = e.substitute(from, to).simplify();
            uint64_t u;
            if (r.is_numeral_u64(u)) val = u;
            else {
                // depends on real atoms (ite): decide them
                std::vector<z3::expr> st{e};
                bool dec = false;
                while (!st.empty() && !dec) {
                    z3::expr x = st.back(); st.pop_back();
                    if (x.is_bool() && ATOMS->count(x.id())) { bool b = decide(x); e = e.substitute(*[&] { auto *f = new z3::expr_vector(*ZC); f->push_back(x); return f; }(), *[&] { auto *f = new z3::expr_vector(*ZC); f->push_back(ZC->bool_val(b)); return f; }()).simplify(); dec = true; break; }
                    for (unsigned i = 0; i < x.num_args(); i++) st.push_back(x.arg(i));
                }
                if (!dec) engine_error("concretize failed");
                uint64_t u2;
                if (e.is_numeral_u64(u2)) return u2;
                continue;
            }
        }
        z3::expr c = (e == ZC->bv_val((uint64_t)*val, w)).simplify();
        if (decide(c)) return *val;
    }
}

// ------------------------------------------------------------------ checks
static void check_bool(const Val &c, const std::string &msg) {
    CHECKS_PATH++;
    if (c.k == K::Int) {
        SH->checks_conc++;
        if (c.i & 1) return;
        violation(msg, "check");
    }
    if (c.k == K::Undef) violation(msg + " (uninitialised)", "uninit");
    z3::expr e = c.e();
    z3::expr ne = (!e).simplify();
    auto at = ATOMS->find(e.id());
    if (at != ATOMS->end() && !ATOMS->count(ne.id())) { AtomInfo a = at->second.second; a.mask = 7 & ~a.mask; register_atom(ne, a); }
    SH->checks_z3++;
    ModelUpd mu;
    auto cur = eval_model(ne);
    Sat s = (cur && *cur) ? SAT : solve({ne}, &mu);
    if (s == UNSAT) return;
    if (s == UNK) { inconclusive(msg); return; }
    if (!(cur && *cur)) apply_model(mu);
    add_pc(ne);
    violation(msg, "check");
}
static std::string show(const PolyP &p) {
    std::string s;
    int n = 0;
    for (auto &e : p->t) {
        if (n++) s += " + ";
        if (n > 8) { s += "..."; break; }
        s += e.second.get_str();
        for (auto &ve : ALG->monos[e.first]) { s += "*" + ALG->vars[ve.first].name; if (ve.second > 1) s += "^" + std::to_string(ve.second); }
    }
    return s.empty() ? "0" : s;
}
static void nf_note(const Val &a, const Val &b) {
    if (NFEQ_TERMS > 4000) return;
    PolyP x = polyof(a), y = polyof(b);
    std::set<uint32_t> rv;
    ALG->vars_of(x, rv); ALG->vars_of(y, rv);
    for (auto v : rv) { auto k = ALG->vars[v].kind; if (k != VK::Base && k != VK::Nd) return; }
    NFEQ_TERMS += x->t.size() + y->t.size();
    NFEQ.push_back({x, y});
}
static void nf_confirm() {
    if (NFEQ.empty()) return;
    z3::expr_vector ne(*ZC);
    for (auto &p : NFEQ) ne.push_back(poly2z(p.first) != poly2z(p.second));
    auto t1 = std::chrono::steady_clock::now();
    z3::expr goal = z3::mk_or(ne).simplify();
    z3::check_result r = z3::unsat;
    if (!goal.is_false()) {
        z3::solver s(*ZC, "QF_NRA");
        z3::params pr(*ZC);
        pr.set("rlimit", OPT.rlimit);
        s.set(pr);
        s.add(goal);
        r = s.check();
    }
    SH->queries++;
    SH->query_ns += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t1).count();
    if (r == z3::unsat) { SH->unsat++; SH->nf_smt += NFEQ.size(); }
    else if (r == z3::unknown) SH->unknown++;
    else { SH->sat++; engine_error("normal form and solver disagree"); }
}
// a-b without the monomials whose coefficients differ by rounding noise only (constants such as 1./3 are doubles)
static PolyP denoised(const Val &a, const Val &b) {
    PolyP x = polyof(a), y = polyof(b), d = ALG->sub(x, y);
    if (d->t.empty()) return d;
    std::unordered_map<uint32_t, double> mag;
    for (auto &e : x->t) mag[e.first] = std::fabs(e.second.get_d());
    for (auto &e : y->t) { double v = std::fabs(e.second.get_d()); auto &m = mag[e.first]; if (v > m) m = v; }
    bool any = false;
    for (auto &e : d->t) if (std::fabs(e.second.get_d()) <= 1e-12 * mag[e.first]) any = true;
    if (!any) return d;
    auto r = std::make_shared<Poly>();
    for (auto &e : d->t) if (std::fabs(e.second.get_d()) > 1e-12 * mag[e.first]) r->t.push_back(e);
    return r;
}
static void check_eq(const Val &a, const Val &b, const std::string &msg) {
    CHECKS_PATH++;
    if (a.k == K::Undef || b.k == K::Undef) violation(msg + " (uninitialised value)", "uninit");
    if (a.k == K::Dbl && b.k == K::Dbl) {
        SH->checks_conc++;
        double t = 1e-9 * std::max(1., std::max(std::fabs(a.d), std::fabs(b.d)));
        if ((std::isnan(a.d) && std::isnan(b.d)) || a.d == b.d || std::fabs(a.d - b.d) <= t) return;
        violation(msg, "check");
    }
    if ((a.k == K::Dbl && !std::isfinite(a.d)) || (b.k == K::Dbl && !std::isfinite(b.d))) violation(msg + " (non-finite)", "check");
    PolyP d = ALG->sub(polyof(a), polyof(b));
    if (d->is_zero()) { SH->checks_nf++; nf_note(a, b); return; }
    PolyP d0 = d;
    d = denoised(a, b);
    if (d->is_zero()) { SH->checks_nf++; return; }
    PolyP n;
    try { n = ALG->reduce(ALG->clear_quot(d)); } catch (Alg::TooBig &) { n = d; }
    if (n->is_zero()) { SH->checks_nf++; if (d == d0) nf_note(a, b); return; }
    if (n->is_const()) { // constant rounding noise from concrete double arithmetic
        if (std::fabs(n->cst().get_d()) < 1e-9) { SH->checks_nf++; return; }
    }
    SH->checks_z3++;
    // nice witness first: |difference| large under moderately sized inputs
    Val at = sign_atom(n, 5);
    if (at.k == K::Int) { if (at.i) { violation(msg + " diff=" + show(n), "check"); } return; }
    auto v = ALG->eval(d);
    if (MODEL_OK && v && ::abs(*v) > mpq_class(1, 100)) {
        SH->witness_unsat += 0;
        violation(msg + " diff=" + show(d), "check");
    }
    ModelUpd mu;
    Sat s = solve({at.e()}, &mu);
    if (s == UNSAT) return;
    if (s == UNK) { inconclusive(msg + " diff=" + show(n)); return; }
    // try to enlarge
    {
        z3::expr z = poly2z(d);
        std::set<uint32_t> rv;
        ALG->vars_of(d, rv);
        for (int lim : {8, 64}) {
            ModelUpd m2;
            std::vector<z3::expr> ex{at.e(), (z > ZC->real_val(1) || z < ZC->real_val(-1))};
            for (auto x : rv) { auto kd = ALG->vars[x].kind; if (kd == VK::Base || kd == VK::Nd) { ex.push_back(rvar2z(x) <= lim); ex.push_back(rvar2z(x) >= -lim); } }
            if (solve(ex, &m2, false, &rv) == SAT) { mu = m2; break; }
        }
    }
    apply_model(mu);
    add_pc(at.e());
    if (!mu.exact) { report_violation(msg + " diff=" + show(d), "check"); endpath(2); }
    violation(msg + " diff=" + show(d), "check");
}

#include "interp.inc"
