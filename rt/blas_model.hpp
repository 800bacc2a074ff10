// Contract models of the BLAS/LAPACK routines htool calls. They compute the documented result exactly over the reals,
// touch exactly the memory the reference implementation may touch, and check the documented argument contracts.
#pragma once
#include "sx.h"
#include <complex>
#include <cmath>
namespace sxb {
template <class T> struct tr { typedef T real; enum { cplx = 0 }; static T conj(T x) { return x; } static T re(T x) { return x; } static T from(real r) { return r; } static real abs2(T x) { return x * x; } };
template <class U> struct tr<std::complex<U>> {
    typedef U real; typedef std::complex<U> T; enum { cplx = 1 };
    static T conj(T x) { return T(x.real(), -x.imag()); }
    static U re(T x) { return x.real(); }
    static T from(real r) { return T(r, U(0)); }
    static U abs2(T x) { return x.real() * x.real() + x.imag() * x.imag(); }
};
#define BCHK(c, m) sx_check((c) ? 1 : 0, "BLAS/LAPACK contract: " m)
inline int mx(int a, int b) { return a > b ? a : b; }
inline int mn(int a, int b) { return a < b ? a : b; }
inline bool okt(char c) { return c == 'N' || c == 'T' || c == 'C' || c == 'n' || c == 't' || c == 'c'; }
inline char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
template <class T> bool isz(const T &x) { return x == T(0); }
// reals in the symbolic executor: is the value literally zero / one (no case split for coefficients that are symbolic)
inline bool lit0(double x) { return !sx_is_sym(x) && x == 0; }
inline bool lit0(float x) { return lit0((double)x); }
template <class U> bool lit0(const std::complex<U> &x) { return lit0(x.real()) && lit0(x.imag()); }
template <class T> T opel(char t, const T *a, int lda, int i, int j) { return t == 'N' ? a[i + (long)j * lda] : t == 'T' ? a[j + (long)i * lda] : tr<T>::conj(a[j + (long)i * lda]); }
template <class T> void axpy(int n, T a, const T *x, int ix, T *y, int iy) {
    if (n <= 0) return;
    long px = ix < 0 ? (long)(1 - n) * ix : 0, py = iy < 0 ? (long)(1 - n) * iy : 0;
    for (int k = 0; k < n; k++) y[py + (long)k * iy] += a * x[px + (long)k * ix];
}
template <class T> void scal(int n, T a, T *x, int ix) { if (n <= 0 || ix <= 0) return; for (int k = 0; k < n; k++) x[(long)k * ix] *= a; }
template <class T> void sc_c(T beta, T &c) { if (lit0(beta)) c = T(0); else c = beta * c; }
template <class T> void gemv(char t, int m, int n, T al, const T *a, int lda, const T *x, int ix, T be, T *y, int iy) {
    t = up(t);
    BCHK(okt(t), "gemv trans"); BCHK(m >= 0 && n >= 0, "gemv sizes"); BCHK(lda >= mx(1, m), "gemv lda"); BCHK(ix != 0 && iy != 0, "gemv increments");
    if (m == 0 || n == 0) return; // as the reference implementation: y is left as it is
    int ly = t == 'N' ? m : n, lx = t == 'N' ? n : m;
    long px = ix < 0 ? (long)(1 - lx) * ix : 0, py = iy < 0 ? (long)(1 - ly) * iy : 0;
    bool az = lit0(al);
    T *tmp = new T[ly];
    for (int i = 0; i < ly; i++) { tmp[i] = T(0); if (!az) for (int k = 0; k < lx; k++) tmp[i] += opel(t, a, lda, i, k) * x[px + (long)k * ix]; }
    for (int i = 0; i < ly; i++) { T &c = y[py + (long)i * iy]; sc_c(be, c); if (!az) c += al * tmp[i]; }
    delete[] tmp;
}
template <class T> T symel(char uplo, bool herm, const T *a, int lda, int i, int j) {
    if (i == j) return herm ? tr<T>::from(tr<T>::re(a[i + (long)j * lda])) : a[i + (long)j * lda];
    bool st = up(uplo) == 'U' ? i < j : i > j;
    T v = st ? a[i + (long)j * lda] : a[j + (long)i * lda];
    return (!st && herm) ? tr<T>::conj(v) : v;
}
template <class T> void symv(bool herm, char u, int n, T al, const T *a, int lda, const T *x, int ix, T be, T *y, int iy) {
    u = up(u);
    BCHK(u == 'U' || u == 'L', "symv uplo"); BCHK(n >= 0 && lda >= mx(1, n), "symv lda"); BCHK(ix > 0 && iy > 0, "symv increments");
    if (n == 0) return;
    T *tmp = new T[n];
    bool az = lit0(al);
    for (int i = 0; i < n; i++) { tmp[i] = T(0); if (!az) for (int k = 0; k < n; k++) tmp[i] += symel(u, herm, a, lda, i, k) * x[(long)k * ix]; }
    for (int i = 0; i < n; i++) { T &c = y[(long)i * iy]; sc_c(be, c); if (!az) c += al * tmp[i]; }
    delete[] tmp;
}
template <class T> void gemm(char ta, char tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) {
    ta = up(ta); tb = up(tb);
    BCHK(okt(ta) && okt(tb), "gemm trans"); BCHK(m >= 0 && n >= 0 && k >= 0, "gemm sizes");
    BCHK(lda >= mx(1, ta == 'N' ? m : k), "gemm lda"); BCHK(ldb >= mx(1, tb == 'N' ? k : n), "gemm ldb"); BCHK(ldc >= mx(1, m), "gemm ldc");
    if (m == 0 || n == 0) return;
    bool az = lit0(al);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        T s = T(0);
        if (!az) for (int l = 0; l < k; l++) s += opel(ta, a, lda, i, l) * opel(tb, b, ldb, l, j);
        T &e = c[i + (long)j * ldc];
        sc_c(be, e);
        if (!az) e += al * s;
    }
}
template <class T> void symm(bool herm, char side, char u, int m, int n, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) {
    side = up(side); u = up(u);
    BCHK(side == 'L' || side == 'R', "symm side"); BCHK(u == 'U' || u == 'L', "symm uplo"); BCHK(m >= 0 && n >= 0, "symm sizes");
    BCHK(lda >= mx(1, side == 'L' ? m : n), "symm lda"); BCHK(ldb >= mx(1, m) && ldc >= mx(1, m), "symm ldb/ldc");
    if (m == 0 || n == 0) return;
    bool az = lit0(al);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        T s = T(0);
        if (!az) { if (side == 'L') for (int l = 0; l < m; l++) s += symel(u, herm, a, lda, i, l) * b[l + (long)j * ldb]; else for (int l = 0; l < n; l++) s += b[i + (long)l * ldb] * symel(u, herm, a, lda, l, j); }
        T &e = c[i + (long)j * ldc];
        sc_c(be, e);
        if (!az) e += al * s;
    }
}
template <class T, class S> void syrk(bool herm, char u, char t, int n, int k, S al, const T *a, int lda, S be, T *c, int ldc) {
    u = up(u); t = up(t);
    BCHK(u == 'U' || u == 'L', "syrk uplo"); BCHK(t == 'N' || (herm ? t == 'C' : (t == 'T' || (t == 'C' && !tr<T>::cplx))), "syrk trans");
    BCHK(n >= 0 && k >= 0 && lda >= mx(1, t == 'N' ? n : k) && ldc >= mx(1, n), "syrk sizes");
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        if (u == 'U' ? i > j : i < j) continue;
        T s = T(0);
        for (int l = 0; l < k; l++) {
            T x = t == 'N' ? a[i + (long)l * lda] : a[l + (long)i * lda], y = t == 'N' ? a[j + (long)l * lda] : a[l + (long)j * lda];
            if (herm) { if (t == 'N') y = tr<T>::conj(y); else x = tr<T>::conj(x); }
            s += x * y;
        }
        T &e = c[i + (long)j * ldc];
        if (lit0(be)) e = T(0); else e = T(be) * e;
        e += T(al) * s;
    }
}
template <class T> T triel(char u, char t, char d, const T *a, int lda, int i, int j) { // op(tri(A))(i,j)
    int r = t == 'N' ? i : j, c = t == 'N' ? j : i;
    if (r == c) { if (d == 'U') return T(1); }
    else if (u == 'U' ? r > c : r < c) return T(0);
    T v = a[r + (long)c * lda];
    return t == 'C' ? tr<T>::conj(v) : v;
}
template <class T> void trsm(char side, char u, char t, char d, int m, int n, T al, const T *a, int lda, T *b, int ldb) {
    side = up(side); u = up(u); t = up(t); d = up(d);
    BCHK(side == 'L' || side == 'R', "trsm side"); BCHK(u == 'U' || u == 'L', "trsm uplo"); BCHK(okt(t), "trsm trans"); BCHK(d == 'U' || d == 'N', "trsm diag");
    BCHK(m >= 0 && n >= 0, "trsm sizes"); BCHK(lda >= mx(1, side == 'L' ? m : n), "trsm lda"); BCHK(ldb >= mx(1, m), "trsm ldb");
    if (m == 0 || n == 0) return;
    int k = side == 'L' ? m : n, nr = side == 'L' ? n : m;
    bool lower = (u == 'L') == (t == 'N'); // op(A) lower triangular?
    bool fwd = side == 'L' ? lower : !lower;
    for (int j = 0; j < nr; j++) for (int s = 0; s < k; s++) {
        int i = fwd ? s : k - 1 - s;
        T &x = side == 'L' ? b[i + (long)j * ldb] : b[j + (long)i * ldb];
        T v = al * x;
        for (int q = 0; q < s; q++) {
            int p = fwd ? q : k - 1 - q;
            if (side == 'L') v -= triel(u, t, d, a, lda, i, p) * b[p + (long)j * ldb];
            else v -= b[j + (long)p * ldb] * triel(u, t, d, a, lda, p, i);
        }
        if (d == 'N') v = v / triel(u, t, d, a, lda, i, i);
        x = v;
    }
}
template <class T> void laswp(int n, T *a, int lda, int k1, int k2, const int *ip, int inc) {
    BCHK(inc == 1 || inc == -1, "laswp increment modelled as +-1");
    for (int s = k1; s <= k2; s++) {
        int i = inc > 0 ? s : k2 - (s - k1);
        int p = ip[i - 1];
        if (p != i) for (int j = 0; j < n; j++) { T t = a[i - 1 + (long)j * lda]; a[i - 1 + (long)j * lda] = a[p - 1 + (long)j * lda]; a[p - 1 + (long)j * lda] = t; }
    }
}
template <class T> void getrf(int m, int n, T *a, int lda, int *ip, int *info) {
    BCHK(m >= 0 && n >= 0 && lda >= mx(1, m), "getrf arguments");
    *info = 0;
    for (int k = 0; k < mn(m, n); k++) {
        int p = k + (m - k > 1 && sx_param("pivot", 1) ? sx_nd_choice(m - k) : 0); // LAPACK picks the largest entry: any non-zero pivot covers it
        sx_assume(!(a[p + (long)k * lda] == T(0)) ? 1 : 0);
        ip[k] = p + 1;
        if (p != k) for (int j = 0; j < n; j++) { T t = a[k + (long)j * lda]; a[k + (long)j * lda] = a[p + (long)j * lda]; a[p + (long)j * lda] = t; }
        for (int i = k + 1; i < m; i++) {
            a[i + (long)k * lda] = a[i + (long)k * lda] / a[k + (long)k * lda];
            for (int j = k + 1; j < n; j++) a[i + (long)j * lda] -= a[i + (long)k * lda] * a[k + (long)j * lda];
        }
    }
}
template <class T> void getrs(char t, int n, int nr, const T *a, int lda, const int *ip, T *b, int ldb, int *info) {
    t = up(t);
    BCHK(okt(t), "getrs trans"); BCHK(n >= 0 && nr >= 0 && lda >= mx(1, n) && ldb >= mx(1, n), "getrs arguments");
    *info = 0;
    if (n == 0 || nr == 0) return;
    if (t == 'N') { laswp(nr, b, ldb, 1, n, ip, 1); trsm('L', 'L', 'N', 'U', n, nr, T(1), a, lda, b, ldb); trsm('L', 'U', 'N', 'N', n, nr, T(1), a, lda, b, ldb); }
    else { trsm('L', 'U', t, 'N', n, nr, T(1), a, lda, b, ldb); trsm('L', 'L', t, 'U', n, nr, T(1), a, lda, b, ldb); laswp(nr, b, ldb, 1, n, ip, -1); }
}
template <class T> void potrf(char u, int n, T *a, int lda, int *info) {
    typedef typename tr<T>::real R;
    u = up(u);
    BCHK(u == 'U' || u == 'L', "potrf uplo"); BCHK(n >= 0 && lda >= mx(1, n), "potrf arguments");
    *info = 0;
    auto A = [&](int i, int j) -> T & { return a[i + (long)j * lda]; };
    for (int j = 0; j < n; j++) {
        R d = tr<T>::re(A(j, j));
        for (int k = 0; k < j; k++) d -= tr<T>::abs2(u == 'L' ? A(j, k) : A(k, j));
        sx_assume(d > 0);
        R l = std::sqrt(d);
        A(j, j) = tr<T>::from(l);
        for (int i = j + 1; i < n; i++) {
            T s = u == 'L' ? A(i, j) : A(j, i);
            for (int k = 0; k < j; k++) s -= u == 'L' ? A(i, k) * tr<T>::conj(A(j, k)) : tr<T>::conj(A(k, j)) * A(k, i);
            (u == 'L' ? A(i, j) : A(j, i)) = s / l;
        }
    }
}
template <class T> void potrs(char u, int n, int nr, const T *a, int lda, T *b, int ldb, int *info) {
    u = up(u);
    BCHK(u == 'U' || u == 'L', "potrs uplo"); BCHK(n >= 0 && nr >= 0 && lda >= mx(1, n) && ldb >= mx(1, n), "potrs arguments");
    *info = 0;
    if (n == 0 || nr == 0) return;
    if (u == 'L') { trsm('L', 'L', 'N', 'N', n, nr, T(1), a, lda, b, ldb); trsm('L', 'L', 'C', 'N', n, nr, T(1), a, lda, b, ldb); }
    else { trsm('L', 'U', 'C', 'N', n, nr, T(1), a, lda, b, ldb); trsm('L', 'U', 'N', 'N', n, nr, T(1), a, lda, b, ldb); }
}
// orthogonal factorisations: the factor Q lives in a registry, its id is stored in tau[0].
// A = Q R with Q := [A | anything], R := [I; 0] when A is tall, Q := I, R := A otherwise: exact, htool may only rely on A = Q R.
template <class T> struct Reg { int n; T *q[64]; int dim[64]; T *sent[64]; };
template <class T> Reg<T> &reg() { static Reg<T> r; return r; }
template <class T> void setwork(T *w, int v) { w[0] = T((double)v); }
template <class T> void qrlq(bool lq, int m, int n, T *a, int lda, T *tau, T *work, int lwork, int *info) {
    BCHK(m >= 0 && n >= 0 && lda >= mx(1, m), "geqrf/gelqf arguments");
    *info = 0;
    int need = mx(1, lq ? m : n);
    BCHK(lwork == -1 || lwork >= need, "geqrf/gelqf lwork");
    setwork(work, need);
    if (lwork == -1 || m == 0 || n == 0) return;
    Reg<T> &r = reg<T>();
    int id = r.n++;
    BCHK(id < 64, "model: too many orthogonal factorisations");
    int d = lq ? n : m, e = lq ? m : n; // Q is d x d; the other dimension is e
    T *q = new T[(long)d * d];
    for (int j = 0; j < d; j++) for (int i = 0; i < d; i++) q[i + (long)j * d] = i == j ? T(1) : T(0);
    auto A = [&](int i, int j) -> T & { return lq ? a[j + (long)i * lda] : a[i + (long)j * lda]; }; // d x e view (transposed for LQ)
    bool tri = sx_param("qr_tri", 0) && d >= e; // already triangular: Q = I, R = A is the factorisation
    if (tri) for (int j = 0; j < e; j++) for (int i = j + 1; i < d; i++) if (!(A(i, j) == T(0))) tri = false;
    if (tri) {
        for (int j = 0; j < e; j++) for (int i = j + 1; i < d; i++) A(i, j) = T(77 + i - j);
    } else if (d >= e) {
        for (int j = 0; j < d; j++) for (int i = 0; i < d; i++) q[i + (long)j * d] = j < e ? A(i, j) : (i == j ? T(1) : T(0));
        for (int j = 0; j < e; j++) for (int i = 0; i < d; i++) A(i, j) = i == j ? T(1) : i < j ? T(0) : T(77 + i - j);
    } else
        for (int j = 0; j < e; j++) for (int i = j + 1; i < d; i++) { // make the matrix triangular: only possible when it already is; use R := A with Q := I for one row
            BCHK(d == 1, "model: wide QR with more than one row");
        }
    r.q[id] = q; r.dim[id] = d;
    for (int k = 0; k < mn(m, n); k++) tau[k] = k == 0 ? T((double)(id + 1)) : T(1);
}
template <class T> void mq(bool lq, char side, char trans, int m, int n, int k, const T *a, int lda, const T *tau, T *c, int ldc, T *work, int lwork, int *info) {
    side = up(side); trans = up(trans);
    BCHK(side == 'L' || side == 'R', "ormqr side"); BCHK(trans == 'N' || (tr<T>::cplx ? trans == 'C' : trans == 'T'), "ormqr trans");
    int d = side == 'L' ? m : n;
    BCHK(m >= 0 && n >= 0 && k >= 0 && k <= d, "ormqr sizes"); BCHK(ldc >= mx(1, m), "ormqr ldc"); BCHK(lda >= mx(1, lq ? k : d), "ormqr lda");
    *info = 0;
    int need = mx(1, side == 'L' ? n : m);
    BCHK(lwork == -1 || lwork >= need, "ormqr lwork");
    setwork(work, need);
    if (lwork == -1 || m == 0 || n == 0 || k == 0) return;
    double idd = (double)tr<T>::re(tau[0]);
    int id = (int)idd - 1;
    Reg<T> &r = reg<T>();
    BCHK(id >= 0 && id < r.n, "ormqr applied to something that is not an orthogonal factorisation");
    BCHK(r.dim[id] == d, "ormqr size differs from that of the factorisation");
    for (int j = 0; j < k; j++) for (int i = j + 1; i < d; i++) { T v = lq ? a[j + (long)i * lda] : a[i + (long)j * lda]; BCHK(v == T(77 + i - j), "reflectors were modified between geqrf and ormqr"); }
    // for LQ: A = L Q with A^T (plain transpose view) = Q' R'  =>  Q(i,j) = q[j + i*d]
    auto Q = [&](int i, int j) -> T { // matrix that multiplies when trans = 'N'
        T v = lq ? r.q[id][j + (long)i * d] : r.q[id][i + (long)j * d];
        return v;
    };
    auto OP = [&](int i, int j) -> T { return trans == 'N' ? Q(i, j) : tr<T>::conj(Q(j, i)); };
    T *t = new T[d];
    for (int j = 0; j < (side == 'L' ? n : m); j++) {
        for (int i = 0; i < d; i++) { t[i] = T(0); for (int l = 0; l < d; l++) t[i] += side == 'L' ? OP(i, l) * c[l + (long)j * ldc] : c[j + (long)l * ldc] * OP(l, i); }
        for (int i = 0; i < d; i++) { if (side == 'L') c[i + (long)j * ldc] = t[i]; else c[j + (long)i * ldc] = t[i]; }
    }
    delete[] t;
}
// Singular value decomposition. A harness may register the decomposition (u, s, vt) of the matrix it knows will be passed;
// otherwise A = U S V^* with V a permutation, s_k the norm of a column (rows when A is wide).
template <class T> struct SvdReg { int on, m, n; const T *u, *vt; const typename tr<T>::real *s; int used; };
template <class T> SvdReg<T> &svdreg() { static SvdReg<T> r; return r; }
template <class T> void register_svd(int m, int n, const T *u, const typename tr<T>::real *s, const T *vt) { SvdReg<T> &r = svdreg<T>(); r.on = 1; r.m = m; r.n = n; r.u = u; r.s = s; r.vt = vt; r.used = 0; }
inline double req(double a, double b) { sx_check_eq(a, b, "matrix handed to the singular value decomposition differs from the one to decompose"); return 0; }
template <class T> void gesvd(char ju, char jv, int m, int n, T *a, int lda, typename tr<T>::real *s, T *u, int ldu, T *vt, int ldvt, T *work, int lwork, int *info) {
    typedef typename tr<T>::real R;
    ju = up(ju); jv = up(jv);
    BCHK((ju == 'A' || ju == 'S') && (jv == 'A' || jv == 'S'), "gesvd jobs (modelled: A, S)");
    int p = mn(m, n);
    BCHK(m >= 0 && n >= 0 && lda >= mx(1, m) && ldu >= mx(1, m) && ldvt >= mx(1, jv == 'A' ? n : p), "gesvd arguments");
    *info = 0;
    int need = mx(1, mx(3 * p + mx(m, n), 5 * p));
    BCHK(lwork == -1 || lwork >= mx(1, 2 * p + mx(m, n)), "gesvd lwork");
    setwork(work, need);
    if (lwork == -1 || p == 0) return;
    int nu = ju == 'A' ? m : p, nv = jv == 'A' ? n : p;
    SvdReg<T> &r = svdreg<T>();
    if (r.on && r.m == m && r.n == n) {
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            T e = T(0);
            for (int k = 0; k < p; k++) e += r.u[i + (long)k * m] * T(r.s[k]) * r.vt[k + (long)j * n];
            T d = a[i + (long)j * lda];
            req(tr<T>::re(d), tr<T>::re(e)); req(tr<T>::re(T(0) + d * tr<T>::conj(d)), tr<T>::re(T(0) + e * tr<T>::conj(e)));
        }
        for (int j = 0; j < nu; j++) for (int i = 0; i < m; i++) u[i + (long)j * ldu] = r.u[i + (long)j * m];
        for (int j = 0; j < n; j++) for (int i = 0; i < nv; i++) vt[i + (long)j * ldvt] = r.vt[i + (long)j * n];
        for (int k = 0; k < p; k++) s[k] = r.s[k];
        r.used++;
        return;
    }
    bool tall = m >= n;
    if (sx_param("svd_free", 0)) { // A = U S V with any decreasing positive S, V (or U) the identity: exact, though not orthonormal
        for (int k = 0; k < p; k++) { s[k] = (R)sx_nd_real(); sx_assume(s[k] > 0); if (k) sx_assume(s[k - 1] >= s[k]); }
        for (int j = 0; j < nu; j++) for (int i = 0; i < m; i++) u[i + (long)j * ldu] = tall ? (j < p ? a[i + (long)j * lda] / tr<T>::from(s[j]) : T((double)sx_nd_real())) : (i == j ? T(1) : T(0));
        for (int j = 0; j < n; j++) for (int i = 0; i < nv; i++) vt[i + (long)j * ldvt] = !tall ? (i < p ? a[i + (long)j * lda] / tr<T>::from(s[i]) : T((double)sx_nd_real())) : (i == j ? T(1) : T(0));
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) a[i + (long)j * lda] = T((double)sx_nd_real()); // contents destroyed
        return;
    }
    R *nm = new R[p]; int *pm = new int[p];
    for (int k = 0; k < p; k++) { R q = 0; for (int i = 0; i < (tall ? m : n); i++) q += tr<T>::abs2(tall ? a[i + (long)k * lda] : a[k + (long)i * lda]); nm[k] = q; pm[k] = k; }
    // any order that sorts the norms
    bool first = sx_param("svd_sorted", 0); // ties: the first one
    for (int k = 0; k < p; k++) { int c = 0; if (!first) c = p - k > 1 ? sx_nd_choice(p - k) : 0; else for (int q = 1; q < p - k; q++) if (nm[pm[k + c]] < nm[pm[k + q]]) c = q; int t = pm[k]; pm[k] = pm[k + c]; pm[k + c] = t; if (k) sx_assume(nm[pm[k - 1]] >= nm[pm[k]]); }
    for (int k = 0; k < p; k++) s[k] = std::sqrt(nm[pm[k]]);
    if (tall) {
        for (int i = 0; i < nv; i++) for (int j = 0; j < n; j++) vt[i + (long)j * ldvt] = pm[i] == j ? T(1) : T(0);
        for (int k = 0; k < nu; k++) for (int i = 0; i < m; i++) u[i + (long)k * ldu] = k < p && !(nm[pm[k]] == 0) ? a[i + (long)pm[k] * lda] / tr<T>::from(s[k]) : T((double)sx_nd_real());
    } else {
        for (int i = 0; i < m; i++) for (int j = 0; j < nu; j++) u[i + (long)j * ldu] = pm[j] == i ? T(1) : T(0);
        for (int k = 0; k < nv; k++) for (int j = 0; j < n; j++) vt[k + (long)j * ldvt] = k < p && !(nm[pm[k]] == 0) ? a[pm[k] + (long)j * lda] / tr<T>::from(s[k]) : T((double)sx_nd_real());
    }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) a[i + (long)j * lda] = T((double)sx_nd_real()); // contents destroyed
    delete[] nm; delete[] pm;
}
template <class T> typename tr<T>::real nrm2(int n, const T *x, int ix) { typename tr<T>::real s = 0; for (int k = 0; k < n; k++) s += tr<T>::abs2(x[(long)k * ix]); return std::sqrt(s); }
} // namespace sxb
#ifndef SXB
#define SXB(x) x##_
#endif
#define SX_BLAS(C, T) \
    __attribute__((weak)) void SXB(C##axpy)(const int *n, const T *a, const T *x, const int *ix, T *y, const int *iy) { sxb::axpy(*n, *a, x, *ix, y, *iy); } \
    __attribute__((weak)) void SXB(C##scal)(const int *n, const T *a, T *x, const int *ix) { sxb::scal(*n, *a, x, *ix); } \
    __attribute__((weak)) void SXB(C##gemv)(const char *t, const int *m, const int *n, const T *al, const T *a, const int *lda, const T *x, const int *ix, const T *be, T *y, const int *iy) { sxb::gemv(*t, *m, *n, *al, a, *lda, x, *ix, *be, y, *iy); } \
    __attribute__((weak)) void SXB(C##gemm)(const char *ta, const char *tb, const int *m, const int *n, const int *k, const T *al, const T *a, const int *lda, const T *b, const int *ldb, const T *be, T *c, const int *ldc) { sxb::gemm(*ta, *tb, *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc); } \
    __attribute__((weak)) void SXB(C##symv)(const char *u, const int *n, const T *al, const T *a, const int *lda, const T *x, const int *ix, const T *be, T *y, const int *iy) { sxb::symv(false, *u, *n, *al, a, *lda, x, *ix, *be, y, *iy); } \
    __attribute__((weak)) void SXB(C##symm)(const char *s, const char *u, const int *m, const int *n, const T *al, const T *a, const int *lda, const T *b, const int *ldb, const T *be, T *c, const int *ldc) { sxb::symm(false, *s, *u, *m, *n, *al, a, *lda, b, *ldb, *be, c, *ldc); } \
    __attribute__((weak)) void SXB(C##syrk)(const char *u, const char *t, const int *n, const int *k, const T *al, const T *a, const int *lda, const T *be, T *c, const int *ldc) { sxb::syrk(false, *u, *t, *n, *k, *al, a, *lda, *be, c, *ldc); } \
    __attribute__((weak)) void SXB(C##trsm)(const char *s, const char *u, const char *t, const char *d, const int *m, const int *n, const T *al, const T *a, const int *lda, T *b, const int *ldb) { sxb::trsm(*s, *u, *t, *d, *m, *n, *al, a, *lda, b, *ldb); } \
    __attribute__((weak)) void SXB(C##laswp)(const int *n, T *a, const int *lda, const int *k1, const int *k2, const int *ip, const int *inc) { sxb::laswp(*n, a, *lda, *k1, *k2, ip, *inc); } \
    __attribute__((weak)) void SXB(C##getrf)(const int *m, const int *n, T *a, const int *lda, int *ip, int *info) { sxb::getrf(*m, *n, a, *lda, ip, info); } \
    __attribute__((weak)) void SXB(C##getrs)(const char *t, const int *n, const int *nr, const T *a, const int *lda, const int *ip, T *b, const int *ldb, int *info) { sxb::getrs(*t, *n, *nr, a, *lda, ip, b, *ldb, info); } \
    __attribute__((weak)) void SXB(C##potrf)(const char *u, const int *n, T *a, const int *lda, int *info) { sxb::potrf(*u, *n, a, *lda, info); } \
    __attribute__((weak)) void SXB(C##potrs)(const char *u, const int *n, const int *nr, const T *a, const int *lda, T *b, const int *ldb, int *info) { sxb::potrs(*u, *n, *nr, a, *lda, b, *ldb, info); } \
    __attribute__((weak)) void SXB(C##geqrf)(const int *m, const int *n, T *a, const int *lda, T *tau, T *w, const int *lw, int *info) { sxb::qrlq(false, *m, *n, a, *lda, tau, w, *lw, info); } \
    __attribute__((weak)) void SXB(C##gelqf)(const int *m, const int *n, T *a, const int *lda, T *tau, T *w, const int *lw, int *info) { sxb::qrlq(true, *m, *n, a, *lda, tau, w, *lw, info); }
#define SX_MQ(NAME, T, LQ) \
    __attribute__((weak)) void SXB(NAME)(const char *s, const char *t, const int *m, const int *n, const int *k, const T *a, const int *lda, const T *tau, T *c, const int *ldc, T *w, const int *lw, int *info) { sxb::mq(LQ, *s, *t, *m, *n, *k, a, *lda, tau, c, *ldc, w, *lw, info); }
extern "C" {
SX_BLAS(d, double)
SX_BLAS(z, std::complex<double>)
SX_MQ(dormqr, double, false)
SX_MQ(dormlq, double, true)
SX_MQ(zunmqr, std::complex<double>, false)
SX_MQ(zunmlq, std::complex<double>, true)
__attribute__((weak)) void SXB(zhemv)(const char *u, const int *n, const std::complex<double> *al, const std::complex<double> *a, const int *lda, const std::complex<double> *x, const int *ix, const std::complex<double> *be, std::complex<double> *y, const int *iy) { sxb::symv(true, *u, *n, *al, a, *lda, x, *ix, *be, y, *iy); }
__attribute__((weak)) void SXB(zhemm)(const char *s, const char *u, const int *m, const int *n, const std::complex<double> *al, const std::complex<double> *a, const int *lda, const std::complex<double> *b, const int *ldb, const std::complex<double> *be, std::complex<double> *c, const int *ldc) { sxb::symm(true, *s, *u, *m, *n, *al, a, *lda, b, *ldb, *be, c, *ldc); }
__attribute__((weak)) void SXB(zherk)(const char *u, const char *t, const int *n, const int *k, const double *al, const std::complex<double> *a, const int *lda, const double *be, std::complex<double> *c, const int *ldc) { sxb::syrk(true, *u, *t, *n, *k, *al, a, *lda, *be, c, *ldc); }
__attribute__((weak)) double SXB(dnrm2)(const int *n, const double *x, const int *ix) { return sxb::nrm2(*n, x, *ix); }
__attribute__((weak)) double SXB(dznrm2)(const int *n, const std::complex<double> *x, const int *ix) { return sxb::nrm2(*n, x, *ix); }
__attribute__((weak)) void SXB(dgesvd)(const char *ju, const char *jv, const int *m, const int *n, double *a, const int *lda, double *s, double *u, const int *ldu, double *vt, const int *ldvt, double *w, const int *lw, int *info) { sxb::gesvd(*ju, *jv, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, w, *lw, info); }
__attribute__((weak)) void SXB(zgesvd)(const char *ju, const char *jv, const int *m, const int *n, std::complex<double> *a, const int *lda, double *s, std::complex<double> *u, const int *ldu, std::complex<double> *vt, const int *ldvt, std::complex<double> *w, const int *lw, double *, int *info) { sxb::gesvd(*ju, *jv, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, w, *lw, info); }
}
