// A small OpenMP runtime for native replays: two (or omp_threads) real threads, run one after the other in the order the
// engine used, with loop iterations dealt as the witness says. Compiled without ThreadSanitizer instrumentation, so that
// the turn taking is invisible to it and accesses of different threads count as ordered only through the program's own synchronisation.
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <map>
#include <mutex>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <vector>
extern "C" int sxk_take(double *to, int max);
extern "C" void sxk_give(const double *from, int n);
extern "C" int sxk_threads(void);
struct Team { int n; volatile int turn; volatile int at[8]; volatile int done[8]; std::map<int, int> pattern; };
struct Loop { int64_t lb, ub, st, n, next; int pattern; };
static std::vector<double> choices; // the witness's remaining free choices, taken over while threads run
static size_t choices_at = 0;
static thread_local Team *team = nullptr;
static thread_local int tid = 0, loops = 0;
static thread_local Loop cur;
static void wait_turn(Team *t, int k) { while (t->turn != k) usleep(50); }
static void begin(Team *t) { t->turn = 0; for (int k = 0; k < 8; k++) t->at[k] = t->done[k] = 0; }
static void pass(Team *t, int k, bool done) {
    if (done) t->done[k] = 1; else t->at[k]++;
    // the next one that is neither done nor ahead
    int low = 1 << 30, who = -1;
    for (int j = 0; j < t->n; j++) if (!t->done[j] && t->at[j] < low) { low = t->at[j]; who = j; }
    if (who >= 0) t->turn = who;
}
static int pattern_of(Team *t, int loop, int np) {
    auto it = t->pattern.find(loop);
    if (it != t->pattern.end()) return it->second;
    int p = choices_at < choices.size() ? (int)choices[choices_at++] : 0;
    return t->pattern[loop] = p < 0 || p >= np ? 0 : p;
}
static int ilog2(int64_t n) { int r = 0; while ((1ll << r) < n) r++; return r; }
static int owner(int p, int64_t i) { if (p < 2) return p; int64_t o = (i >> ((p - 2) / 2)) & 1; return p & 1 ? 1 - o : o; }
typedef void (*F0)(int *, int *, ...);
static void call(F0 f, int *g, int *b, int n, void **a) {
    switch (n) {
#define P(k) a[k]
    case 0: f(g, b); break;
    case 1: f(g, b, P(0)); break;
    case 2: f(g, b, P(0), P(1)); break;
    case 3: f(g, b, P(0), P(1), P(2)); break;
    case 4: f(g, b, P(0), P(1), P(2), P(3)); break;
    case 5: f(g, b, P(0), P(1), P(2), P(3), P(4)); break;
    case 6: f(g, b, P(0), P(1), P(2), P(3), P(4), P(5)); break;
    case 7: f(g, b, P(0), P(1), P(2), P(3), P(4), P(5), P(6)); break;
    case 8: f(g, b, P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7)); break;
    default: f(g, b, P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), P(12), P(13), P(14), P(15), P(16), P(17), P(18), P(19)); // unused ones are never read
    }
}
extern "C" {
void __kmpc_fork_call(void *, int argc, void *fn, ...) {
    void *a[20] = {};
    va_list va;
    va_start(va, fn);
    for (int k = 0; k < argc && k < 20; k++) a[k] = va_arg(va, void *);
    va_end(va);
    F0 f = (F0)fn;
    int n = team ? 1 : sxk_threads();
    if (n == 1) {
        Team T; T.n = 1; begin(&T);
        Team *old = team; int ot = tid, ol = loops; Loop oc = cur;
        team = &T; tid = 0; loops = 0;
        int g = 0, b = 0;
        call(f, &g, &b, argc, a);
        team = old; tid = ot; loops = ol; cur = oc;
        return;
    }
    Team T;
    T.n = n;
    begin(&T);
    choices.resize(4096);
    choices.resize(sxk_take(choices.data(), 4096));
    choices_at = 0;
    std::vector<std::thread> ts;
    for (int k = 0; k < n; k++) ts.emplace_back([&, k] {
        team = &T; tid = k; loops = 0;
        wait_turn(&T, k);
        int g = k, b = 0;
        call(f, &g, &b, argc, a);
        pass(&T, k, true);
    });
    for (auto &t : ts) t.join();
    sxk_give(choices.data() + choices_at, (int)(choices.size() - choices_at));
}
int __kmpc_global_thread_num(void *) { return tid; }
void __kmpc_push_num_threads(void *, int, int) {}
static std::mutex locks[64]; // one per critical section, statically allocated (so that its own memory is no matter of concern)
static std::mutex &lock_of(void *crit) { static std::map<void *, int> all; auto it = all.find(crit); if (it == all.end()) it = all.insert({crit, (int)(all.size() % 64)}).first; return locks[it->second]; }
void __kmpc_critical(void *, int, void *crit) { lock_of(crit).lock(); }
void __kmpc_critical_with_hint(void *, int, void *crit, unsigned) { lock_of(crit).lock(); }
void __kmpc_end_critical(void *, int, void *crit) { lock_of(crit).unlock(); }
static std::mutex barrier_mutex;
static void barrier() {
    if (!team || team->n == 1) return;
    { std::lock_guard<std::mutex> l(barrier_mutex); }
    pass(team, tid, false);
    wait_turn(team, tid);
    { std::lock_guard<std::mutex> l(barrier_mutex); }
}
void __kmpc_barrier(void *, int) { barrier(); }
static void init(int64_t lb, int64_t ub, int64_t st) {
    Loop &c = cur;
    c.lb = lb; c.ub = ub; c.st = st; c.next = lb;
    c.n = ub < lb ? 0 : (ub - lb) / st + 1;
    int ln = loops++;
    c.pattern = !team || team->n == 1 || c.n <= 0 ? 0 : pattern_of(team, ln, 2 + 2 * ilog2(c.n));
}
static bool next(int64_t &k, bool &last) {
    Loop &c = cur;
    int n = team ? team->n : 1;
    while (c.n > 0 && c.next <= c.ub && n > 1 && owner(c.pattern, (c.next - c.lb) / c.st) != tid) c.next += c.st;
    if (c.n <= 0 || c.next > c.ub) return false;
    k = c.next;
    last = c.next + c.st > c.ub;
    c.next += c.st;
    return true;
}
#define DISPATCH(S, T)                                                                                             \
    void __kmpc_dispatch_init_##S(void *, int, int, T lb, T ub, std::make_signed<T>::type st, std::make_signed<T>::type) { init((int64_t)lb, (int64_t)ub, st); } \
    int __kmpc_dispatch_next_##S(void *, int, int *pl, T *lo, T *up, std::make_signed<T>::type *st) {                \
        int64_t k;                                                                                                  \
        bool last;                                                                                                  \
        if (!next(k, last)) return 0;                                                                               \
        if (pl) *pl = last;                                                                                         \
        *lo = *up = (T)k;                                                                                           \
        *st       = cur.st;                                                                                         \
        return 1;                                                                                                   \
    }                                                                                                               \
    void __kmpc_dispatch_fini_##S(void *, int) {}                                                                   \
    void __kmpc_for_static_init_##S(void *, int, int sched, int *pl, T *lo, T *up, std::make_signed<T>::type *ps, std::make_signed<T>::type inc, std::make_signed<T>::type chunk) { \
        int n = team ? team->n : 1;                                                                                 \
        int64_t cnt = *up >= *lo ? ((int64_t)*up - (int64_t)*lo) / inc + 1 : 0, l = *lo;                            \
        if (sched == 33 && chunk > 0) { *lo = l + tid * chunk * inc; *up = l + (tid * chunk + chunk - 1) * inc; *ps = chunk * n * inc; } \
        else { int64_t per = (cnt + n - 1) / n; *lo = l + tid * per * inc; *up = l + std::min<int64_t>(cnt, (tid + 1) * per) * inc - inc; *ps = cnt * inc; } \
        if (pl) *pl = tid == n - 1;                                                                                 \
    }
DISPATCH(4, int32_t)
DISPATCH(4u, uint32_t)
DISPATCH(8, int64_t)
DISPATCH(8u, uint64_t)
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_dispatch_deinit(void *, int) {}
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return 1; }
int omp_in_parallel(void) { return team && team->n > 1; }
void omp_set_num_threads(int) {}
}
