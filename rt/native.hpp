// Native counterpart of the harness API: replays one witness file against the compiled library.
//   prog <entry> <witness> [k=v ...]     exit 0 held, 1 failed (SX-FAIL line), 77 witness not followed
#pragma once
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <cstdlib>
namespace sxn {
inline std::map<std::string, void (*)()> &reg() { static std::map<std::string, void (*)()> r; return r; }
struct Reg { Reg(const char *n, void (*f)()) { reg()[n] = f; } };
inline std::map<std::string, std::deque<double>> &inputs() { static std::map<std::string, std::deque<double>> r; return r; }
inline std::map<std::string, int> &params() { static std::map<std::string, int> r; return r; }
inline long &live() { static long n = 0; return n; }
inline std::string &scratch() { static std::string s; return s; }
inline void leave(int rc) {
    fflush(stdout);
    fflush(stderr);
    if (!scratch().empty()) { std::string c = "rm -rf '" + scratch() + "'"; if (system(c.c_str())) {} }
    _exit(rc);
}
inline bool take(const char *n, double &v) {
    auto &q = inputs()[n];
    if (q.empty()) return false;
    v = q.front();
    q.pop_front();
    return true;
}
struct Ranks {
    std::mutex m;
    std::condition_variable cv;
    int n = 0, turn = 0;
    std::vector<int> state; // 0 runnable 1 at barrier 2 done
    int next(int from) {
        for (int pass = 0; pass < 2; pass++) {
            for (int k = 1; k <= n; k++) { int c = (from + k) % n; if (state[c] == 0) return c; }
            bool any = false, done = false;
            for (int k = 0; k < n; k++) { if (state[k] == 1) any = true; if (state[k] == 2) done = true; }
            if (!any) return -1;
            if (done) { printf("SX-FAIL deadlock: a rank finished while another waits in a collective\n"); leave(1); }
            for (int k = 0; k < n; k++) state[k] = 0;
            from = n - 1;
        }
        return -1;
    }
};
inline Ranks *&ranks() { static Ranks *r = nullptr; return r; }
inline int &mytid() { static thread_local int t = 0; return t; }
inline void fail(const char *msg) { printf("SX-FAIL %s\n", msg); leave(1); }
}
extern "C" {
inline int sx_int(const char *name, int lo, int hi) { double v; if (!sxn::take(name, v)) { printf("SX-NOINPUT %s\n", name); sxn::leave(77); } int k = (int)v; if (k < lo || k > hi) sxn::leave(77); return k; }
inline int sx_choice(const char *name, int n) { return sx_int(name, 0, n - 1); }
inline double sx_real(const char *name) { double v; if (!sxn::take(name, v)) { printf("SX-NOINPUT %s\n", name); sxn::leave(77); } return v; }
inline double sx_real_in(const char *name, double lo, double hi) { double v = sx_real(name); return v < lo ? lo : v > hi ? hi : v; }
inline int sx_nd_choice(int n) { double v; if (n <= 1) return 0; if (!sxn::take("ndc", v)) return 0; int k = (int)v; return k < 0 || k >= n ? 0 : k; }
inline double sx_nd_real(void) { double v; if (!sxn::take("ndr", v)) return 1.25; return v; }
inline void sx_assume(int c) { if (!c) { printf("SX-ASSUME false\n"); sxn::leave(77); } }
inline void sx_check(int c, const char *msg) { if (!c) sxn::fail(msg); }
inline void sx_check_eq(double a, double b, const char *msg) {
    double t = 1e-7 * std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    if (std::isnan(a) || std::isnan(b) || !(std::fabs(a - b) <= t)) { if (a == b) return; printf("got %.17g expected %.17g\n", a, b); sxn::fail(msg); }
}
inline void sx_check_le(double a, double b, const char *msg) {
    double t = 1e-9 * std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    if (!(a <= b + t)) { printf("%.17g <= %.17g fails\n", a, b); sxn::fail(msg); }
}
inline int sx_conc(int v) { return v; }
inline void sx_reach(const char *) {}
inline void sx_fail(const char *msg) { sxn::fail(msg); abort(); }
inline void sx_prune(void) { printf("SX-PRUNE\n"); sxn::leave(77); abort(); }
inline int sx_param(const char *name, int d) { auto it = sxn::params().find(name); return it == sxn::params().end() ? d : it->second; }
inline int sx_live(void) { return (int)sxn::live(); }
inline void sx_trace(const char *name, int v) { printf("trace %s %d\n", name, v); }
inline int sx_tid(void) { return sxn::ranks() ? sxn::mytid() : 0; }
inline int sx_nthreads(void) { return sxn::ranks() ? sxn::ranks()->n : 1; }
inline void sx_barrier(void) {
    auto *R = sxn::ranks();
    if (!R) return;
    int me = sxn::mytid();
    std::unique_lock<std::mutex> l(R->m);
    R->state[me] = 1;
    R->turn = R->next(me);
    R->cv.notify_all();
    R->cv.wait(l, [&] { return R->turn == me; });
}
inline void sx_run_ranks(int n, void (*fn)(int, void *), void *arg) {
    sxn::Ranks R;
    R.n = n;
    R.state.assign(n, 0);
    sxn::ranks() = &R;
    std::vector<std::thread> ts;
    for (int k = 0; k < n; k++) ts.emplace_back([&, k] {
        sxn::mytid() = k;
        { std::unique_lock<std::mutex> l(R.m); R.cv.wait(l, [&] { return R.turn == k; }); }
        fn(k, arg);
        std::unique_lock<std::mutex> l(R.m);
        R.state[k] = 2;
        R.turn = R.next(k);
        R.cv.notify_all();
    });
    for (auto &t : ts) t.join();
    sxn::ranks() = nullptr;
}
inline int sx_is_sym(double) { return 0; }
inline void sx_exact_arithmetic(int) {}
inline int sx_is_undef(double) { return 0; }
inline int sx_same(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
inline int sx_readable(const void *p, unsigned long n) { volatile char c; for (unsigned long k = 0; k < n; k++) c = ((const char *)p)[k]; (void)c; return 1; }
inline unsigned long sx_block_size(const void *) { return 0; }
inline int sx_race(int) { return 0; }
inline int &sxn_threads() { static int n = 0; return n; }
inline void sx_threads(int n) { sxn_threads() = n; }
inline void sx_dbg(const char *n, double v) { printf("dbg %s %.17g\n", n, v); }
}
#ifdef SXN_TSAN
extern "C" int sxk_take(double *to, int max) { int n = 0; while (n < max && sxn::take("ndp", to[n])) n++; return n; }
extern "C" void sxk_give(const double *from, int n) { for (int k = 0; k < n; k++) sxn::inputs()["ndp"].push_back(from[k]); }
extern "C" int sxk_threads(void) { if (sxn_threads()) return sxn_threads(); auto it = sxn::params().find("omp_threads"); return it == sxn::params().end() ? 1 : it->second; }
#endif
#ifdef SXN_COUNT_NEW
// allocation counting for leak checks
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++sxn::live(); return p; }
void *operator new[](std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++sxn::live(); return p; }
void operator delete(void *p) noexcept { if (p) { --sxn::live(); free(p); } }
void operator delete[](void *p) noexcept { if (p) { --sxn::live(); free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { --sxn::live(); free(p); } }
void operator delete[](void *p, std::size_t) noexcept { if (p) { --sxn::live(); free(p); } }
#endif
inline std::string sx_path(const char *name) {
    if (sxn::scratch().empty()) { char t[] = "/tmp/sxnXXXXXX"; if (!mkdtemp(t)) abort(); sxn::scratch() = t; }
    return sxn::scratch() + "/" + name;
}
#ifndef SXN_NO_MAIN
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        std::string l = line;
        while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        auto p = l.rfind(' ');
        if (l.size() < 4 || p == std::string::npos || p < 2 || l[1] != ' ' || (l[0] != 'i' && l[0] != 'r')) continue;
        sxn::inputs()[l.substr(2, p - 2)].push_back(atof(l.c_str() + p));
    }
    fclose(f);
    for (int k = 3; k < argc; k++) { std::string s = argv[k]; auto p = s.find('='); sxn::params()[s.substr(0, p)] = atoi(s.c_str() + p + 1); }
    auto it = sxn::reg().find(argv[1]);
    if (it == sxn::reg().end()) { printf("no entry %s\n", argv[1]); return 2; }
    try { it->second(); } catch (std::exception &e) { printf("SX-FAIL uncaught exception %s\n", e.what()); sxn::leave(1); }
    printf("SX-OK\n");
    sxn::leave(0);
}
#endif
