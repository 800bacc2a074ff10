// Model of the MPI subset htool uses. Ranks are the threads of sx_run_ranks; collectives are barriers plus copies,
// with the argument contracts of the standard checked.
#ifndef SX_MPI_H
#define SX_MPI_H
#include "../sx.h"
#include <cstddef>
#include <cstring>
#include <complex>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Status;
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_INT 1
#define MPI_FLOAT 2
#define MPI_DOUBLE 3
#define MPI_C_COMPLEX 4
#define MPI_C_FLOAT_COMPLEX 4
#define MPI_C_DOUBLE_COMPLEX 5
#define MPI_DOUBLE_COMPLEX 5
#define MPI_UNSIGNED_LONG 6
#define MPI_UNSIGNED_CHAR 7
#define MPI_UNSIGNED_SHORT 8
#define MPI_UNSIGNED 9
#define MPI_UNSIGNED_LONG_LONG 10
#define MPI_CHAR 7
#define MPI_BYTE 7
#define MPI_LONG 6
#define MPI_BOOL 11
#define MPI_CXX_BOOL 11
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_SUCCESS 0
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)(-1L))
#define MPI_THREAD_MULTIPLE 3
namespace sxmpi {
enum { MAXR = 8 };
struct Slot { const void *s; void *r; const int *sc, *sd, *rc, *rd; int scount, rcount, stype, rtype, kind, root; };
inline Slot *slots() { static Slot s[MAXR]; return s; }
inline size_t tsize(int t) {
    switch (t) {
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_C_COMPLEX: return 8;
    case MPI_C_DOUBLE_COMPLEX: return 16;
    case MPI_UNSIGNED_SHORT: return 2;
    case MPI_UNSIGNED_CHAR: case MPI_BOOL: return 1;
    }
    sx_check(0, "MPI contract: unknown datatype");
    return 1;
}
inline int size(MPI_Comm c) { sx_check(c == MPI_COMM_WORLD || c == MPI_COMM_SELF, "MPI contract: invalid communicator"); return c == MPI_COMM_SELF ? 1 : sx_nthreads(); }
inline int rank(MPI_Comm c) { return c == MPI_COMM_SELF ? 0 : sx_tid(); }
inline void publish(MPI_Comm c, const Slot &s) {
    slots()[sx_tid()] = s;
    if (c == MPI_COMM_SELF) return;
    sx_barrier();
    for (int k = 0; k < size(c); k++) sx_check(slots()[k].kind == s.kind && slots()[k].root == s.root, "MPI contract: ranks enter different collectives");
}
inline void done(MPI_Comm c) { if (c != MPI_COMM_SELF) sx_barrier(); }
inline void rd(const void *p, size_t n, const char *m) { sx_check(n == 0 || sx_readable(p, n), m); }
template <class T> void red1(T *acc, const T *x, int n, int op) {
    for (int k = 0; k < n; k++) acc[k] = op == MPI_SUM ? acc[k] + x[k] : op == MPI_MAX ? (acc[k] < x[k] ? x[k] : acc[k]) : (x[k] < acc[k] ? x[k] : acc[k]);
}
template <class T> void redc(T *acc, const T *x, int n, int) { for (int k = 0; k < n; k++) acc[k] += x[k]; }
inline void reduce_into(void *acc, const void *x, int n, int t, int op) {
    switch (t) {
    case MPI_INT: red1((int *)acc, (const int *)x, n, op); return;
    case MPI_DOUBLE: red1((double *)acc, (const double *)x, n, op); return;
    case MPI_FLOAT: red1((float *)acc, (const float *)x, n, op); return;
    case MPI_UNSIGNED_LONG: red1((unsigned long *)acc, (const unsigned long *)x, n, op); return;
    case MPI_C_DOUBLE_COMPLEX: sx_check(op == MPI_SUM, "MPI contract: ordering of complex values"); redc((std::complex<double> *)acc, (const std::complex<double> *)x, n, op); return;
    case MPI_C_COMPLEX: sx_check(op == MPI_SUM, "MPI contract: ordering of complex values"); redc((std::complex<float> *)acc, (const std::complex<float> *)x, n, op); return;
    }
    sx_check(0, "MPI contract: reduction on an unsupported datatype");
}
} // namespace sxmpi
inline int MPI_Comm_rank(MPI_Comm c, int *r) { *r = sxmpi::rank(c); return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *s) { *s = sxmpi::size(c); return 0; }
inline int MPI_Barrier(MPI_Comm c) { sxmpi::publish(c, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0}); sxmpi::done(c); return 0; }
inline double &sx_clock() { static double t = 0; return t; }
inline double MPI_Wtime() {
#ifdef SX_SYM
    double d = sx_param("clock", 0) ? sx_nd_real() : 1.;
    if (sx_param("clock", 0)) sx_assume(d >= 0);
    sx_clock() += d;
    return sx_clock();
#else
    return 0.;
#endif
}
inline int MPI_Allgatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    using namespace sxmpi;
    int n = size(c), me = rank(c);
    size_t es = tsize(rt);
    if (s == MPI_IN_PLACE) { sc = rc[me]; st = rt; }
    publish(c, {s, r, 0, 0, rc, rd, sc, 0, st, rt, 2, 0});
    sx_check(rc[me] == sc && st == rt, "MPI contract: Allgatherv receive count differs from the count sent");
    for (int k = 0; k < n; k++) {
        const Slot &o = c == MPI_COMM_SELF ? slots()[sx_tid()] : slots()[k];
        sx_check(rc[k] >= 0, "MPI contract: negative receive count");
        sx_check(rc[k] == o.scount && rt == o.stype, "MPI contract: Allgatherv receive count differs from the count sent");
        char *dst = (char *)r + es * rd[k];
        sxmpi::rd(dst, es * rc[k], "MPI contract: Allgatherv receives outside the buffer");
        const char *src = o.s == MPI_IN_PLACE ? (const char *)o.r + es * o.rd[k] : (const char *)o.s;
        if (dst != src && rc[k] > 0) {
            sxmpi::rd(src, es * rc[k], "MPI contract: Allgatherv sends from outside the buffer");
            memcpy(dst, src, es * rc[k]);
        }
        // send and receive buffers of one process may not alias (unless MPI_IN_PLACE)
        if (s != MPI_IN_PLACE && sc > 0 && rc[k] > 0) sx_check((const char *)s + es * sc <= dst || dst + es * rc[k] <= (const char *)s, "MPI contract: Allgatherv buffers alias");
    }
    done(c);
    return 0;
}
inline int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) {
    int n = sxmpi::size(c), cnt[sxmpi::MAXR], dis[sxmpi::MAXR];
    for (int k = 0; k < n; k++) { cnt[k] = rc; dis[k] = k * rc; }
    return MPI_Allgatherv(s, sc, st, r, cnt, dis, rt, c);
}
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    using namespace sxmpi;
    size_t es = tsize(t);
    const void *mine = s == MPI_IN_PLACE ? (const void *)r : s;
    rd(mine, es * n, "MPI contract: Allreduce reads outside the buffer");
    rd(r, es * n, "MPI contract: Allreduce writes outside the buffer");
    char *tmp = new char[es * (n > 0 ? n : 1)], *acc = new char[es * (n > 0 ? n : 1)];
    if (n > 0) memcpy(tmp, mine, es * n);
    publish(c, {tmp, r, 0, 0, 0, 0, n, 0, t, op, 3, 0});
    int np = size(c);
    for (int k = 0; k < np; k++) {
        const Slot &o = c == MPI_COMM_SELF ? slots()[sx_tid()] : slots()[k];
        sx_check(o.scount == n && o.stype == t && o.rtype == op, "MPI contract: Allreduce arguments differ between ranks");
        if (k == 0) { if (n > 0) memcpy(acc, o.s, es * n); }
        else reduce_into(acc, o.s, n, t, op);
    }
    done(c);
    if (n > 0) memcpy(r, acc, es * n);
    delete[] tmp;
    delete[] acc;
    return 0;
}
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    using namespace sxmpi;
    size_t es = tsize(t);
    const void *mine = s == MPI_IN_PLACE ? (const void *)r : s;
    if (s == MPI_IN_PLACE) sx_check(rank(c) == root, "MPI contract: MPI_IN_PLACE on a non-root rank of Reduce");
    rd(mine, es * n, "MPI contract: Reduce reads outside the buffer");
    char *tmp = new char[es * (n > 0 ? n : 1)], *acc = new char[es * (n > 0 ? n : 1)];
    if (n > 0) memcpy(tmp, mine, es * n);
    publish(c, {tmp, r, 0, 0, 0, 0, n, 0, t, op, 4, root});
    int np = size(c);
    for (int k = 0; k < np; k++) {
        const Slot &o = c == MPI_COMM_SELF ? slots()[sx_tid()] : slots()[k];
        sx_check(o.scount == n && o.stype == t && o.rtype == op, "MPI contract: Reduce arguments differ between ranks");
        if (k == 0) { if (n > 0) memcpy(acc, o.s, es * n); }
        else reduce_into(acc, o.s, n, t, op);
    }
    done(c);
    if (rank(c) == root && n > 0) { rd(r, es * n, "MPI contract: Reduce writes outside the buffer"); memcpy(r, acc, es * n); }
    delete[] tmp;
    delete[] acc;
    return 0;
}
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    using namespace sxmpi;
    size_t es = tsize(t);
    rd(b, es * n, "MPI contract: Bcast outside the buffer");
    publish(c, {b, b, 0, 0, 0, 0, n, n, t, t, 5, root});
    if (rank(c) != root && n > 0) { sx_check(slots()[root].scount == n && slots()[root].stype == t, "MPI contract: Bcast arguments differ between ranks"); memcpy(b, slots()[root].s, es * n); }
    done(c);
    return 0;
}
inline int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rdi, MPI_Datatype rt, MPI_Comm c) {
    using namespace sxmpi;
    int n = size(c), me = rank(c);
    size_t es = tsize(rt);
    sx_check(s != MPI_IN_PLACE, "MPI model: MPI_IN_PLACE not modelled in Alltoallv");
    publish(c, {s, r, sc, sd, rc, rdi, 0, 0, st, rt, 6, 0});
    for (int k = 0; k < n; k++) {
        const Slot &o = c == MPI_COMM_SELF ? slots()[sx_tid()] : slots()[k];
        sx_check(rc[k] == o.sc[me] && rt == o.stype, "MPI contract: Alltoallv receive count differs from the count sent");
        sx_check(rc[k] >= 0, "MPI contract: negative receive count");
        char *dst = (char *)r + es * rdi[k];
        const char *src = (const char *)o.s + es * o.sd[me];
        if (rc[k] > 0) {
            rd(dst, es * rc[k], "MPI contract: Alltoallv receives outside the buffer");
            rd(src, es * rc[k], "MPI contract: Alltoallv sends from outside the buffer");
            memcpy(dst, src, es * rc[k]);
        }
    }
    done(c);
    return 0;
}
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
#endif
