// Stand-in for HPDDM (not installed here): the types and calls htool names. Semantics from HPDDM's documentation; the iterative method is the
// harness (sx_hpddm_solve). Exchange: u <- sum over the subdomains of R_i R_j^T (D_j) u_j.
#pragma once
#include <map>
#include <memory>
#include <mpi.h>
#include <string>
#include <utility>
#include <vector>
#include "sx.h"
#define HPDDM_SCHWARZ_METHOD_RAS 0
#define HPDDM_SCHWARZ_METHOD_ORAS 1
#define HPDDM_SCHWARZ_METHOD_SORAS 2
#define HPDDM_SCHWARZ_METHOD_ASM 3
#define HPDDM_SCHWARZ_METHOD_OSM 4
#define HPDDM_SCHWARZ_METHOD_NONE 5
#define HPDDM_KRYLOV_METHOD_GMRES 0
#define HPDDM_KRYLOV_METHOD_BGMRES 1
#define HPDDM_KRYLOV_METHOD_CG 2
#define HPDDM_KRYLOV_METHOD_BCG 3
#define HPDDM_KRYLOV_METHOD_GCRODR 4
#define HPDDM_KRYLOV_METHOD_BGCRODR 5
#define HPDDM_KRYLOV_METHOD_BFBCG 6
#define HPDDM_KRYLOV_METHOD_RICHARDSON 7
#define HPDDM_KRYLOV_METHOD_NONE 8
#define HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED 0
#define HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE 1
#define HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED 2
template <class Op, class K> int sx_hpddm_solve(const Op &A, const K *b, K *x, int mu);
namespace HPDDM {
template <class K> struct MatrixCSR;
struct Option {
    std::map<std::string, double> v;
    static Option *get() { static Option o; return &o; }
    double &operator[](const std::string &k) { return v[k]; }
    int val(const std::string &k, int d) const { auto i = v.find(k); return i == v.end() ? d : (int)i->second; }
};
template <class K> class LapackTR {};
// keeps the local matrix it is given
template <class K> class LapackTRSub {
  public:
    const K *a = nullptr;
    int n = 0, factored = 0;
    bool sym = false;
};
template <class K> void sx_numfact(LapackTRSub<K> &s, const K *a, int n, bool sym) { s.a = a; s.n = n; s.sym = sym; s.factored++; }
template <class S, class K> void sx_numfact(S &s, const K *, int, bool) { MatrixCSR<K> *none = nullptr; s.numfact(none); }
template <class K> struct sx_slots { static std::vector<std::vector<K>> &get() { static std::vector<std::vector<K>> v; return v; } };
template <template <class> class S, template <class> class CS, class K> class Schwarz {
  public:
    enum class Prcndtnr : char { NO, SY, GE, OS, OG };
    Prcndtnr type_ = Prcndtnr::NO;
    S<K> s_;
    int dof_ = 0, rank_ = 0, two_ = 0;
    bool sym_ = false;
    const K *mat_ = nullptr;
    K E0_ = K(0);
    K **ev_ = nullptr;
    const double *d_ = nullptr;
    std::vector<std::pair<unsigned short, std::vector<int>>> map_;
    K *none_[1] = {nullptr};
    void initialize(double *d) { d_ = d; }
    int getDof() const { return dof_; }
    S<K> &getSolver() { return s_; }
    const S<K> &getSolver() const { return s_; }
    const std::vector<std::pair<unsigned short, std::vector<int>>> &getMap() const { return map_; }
    K *const *getBuffer() const { return none_; }
    bool setBuffer() const { return true; }
    void clearBuffer(bool) const {}
    void callNumfact() { sx_numfact(s_, mat_, dof_, sym_); }
    void setVectors(K **ev) { ev_ = ev; }
    void buildTwo(MPI_Comm, const K *E) { E0_ = *E; two_++; } // (first entry of the coarse operator)
    template <bool scaled = false> void exchange(K *u, const int &mu = 1) const {
        auto &all = sx_slots<K>::get();
        if (scaled) for (int c = 0; c < mu; c++) for (int i = 0; i < dof_; i++) u[c * dof_ + i] *= d_[i];
        // what every neighbour receives from this rank: slot (from, to)
        int P;
        MPI_Comm_size(MPI_COMM_WORLD, &P);
        for (auto &m : map_) {
            auto &s = all[rank_ * P + m.first];
            s.clear();
            for (int c = 0; c < mu; c++) for (int l : m.second) s.push_back(u[c * dof_ + l]);
        }
        sx_barrier();
        for (auto &m : map_) {
            auto &s = all[m.first * P + rank_];
            size_t k = 0;
            sx_check(s.size() == mu * m.second.size(), "neighbours disagree on the unknowns they share");
            for (int c = 0; c < mu; c++) for (int l : m.second) u[c * dof_ + l] += s[k++];
        }
        sx_barrier();
    }
};
template <template <class> class S, template <class> class CS, char, class K> class Dense : public Schwarz<S, CS, K> {
  public:
    typedef Schwarz<S, CS, K> super;
    virtual ~Dense() {}
    void initialize(int n, bool sym, K *a, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &shared) {
        this->dof_ = n;
        this->sym_ = sym;
        this->mat_ = a;
        MPI_Comm_rank(MPI_COMM_WORLD, &this->rank_);
        for (size_t i = 0; i < neighbors.size(); i++) this->map_.push_back({(unsigned short)neighbors[i], shared[i]});
    }
    virtual int GMV(const K *, K *, const int &mu = 1) const = 0;
};
template <class> struct hpddm_method_id;
template <template <class> class S, template <class> class CS, char C, class K> struct hpddm_method_id<Dense<S, CS, C, K>> { static constexpr char value = 1; };
struct IterativeMethod {
    template <class Op, class K> static int solve(const Op &A, const K *b, K *x, int mu, MPI_Comm) { return sx_hpddm_solve(A, b, x, mu); }
};
}
