// Shared by the harnesses: symbolic coefficients, a plain dense oracle matrix.
#pragma once
#include "harness.hpp"
#include <complex>
#include <vector>
#ifndef SXT
#define SXT double
#endif
typedef std::complex<double> cplx;
template <class T> struct SX { enum { c = 0 }; static T real(const char *n) { return sx_real(n); } static T nd() { return sx_nd_real(); } static void eq(T a, T b, const char *m) { sx_check_eq(a, b, m); } static T cj(T a) { return a; } static double re(T a) { return a; } static double im(T) { return 0; } static T mk(double a, double) { return a; } };
template <> struct SX<cplx> {
    enum { c = 1 };
    static cplx real(const char *n) { double a = sx_real(n), b = sx_real(n); return cplx(a, b); }
    static void eq(cplx a, cplx b, const char *m) { sx_check_eq(a.real(), b.real(), m); sx_check_eq(a.imag(), b.imag(), m); }
    static cplx cj(cplx a) { return std::conj(a); }
    static double re(cplx a) { return a.real(); }
    static double im(cplx a) { return a.imag(); }
    static cplx mk(double a, double b) { return cplx(a, b); }
};
// plain column-major oracle matrix
template <class T> struct D {
    int m, n;
    std::vector<T> v;
    D(int a = 0, int b = 0) : m(a), n(b), v((size_t)(a * b), T(0)) {}
    T &operator()(int i, int j) { return v[(size_t)(i + j * m)]; }
    const T &operator()(int i, int j) const { return v[(size_t)(i + j * m)]; }
};
template <class T> D<T> mul(const D<T> &a, const D<T> &b) {
    D<T> r(a.m, b.n);
    for (int i = 0; i < a.m; i++) for (int j = 0; j < b.n; j++) { T s(0); for (int k = 0; k < a.n; k++) s += a(i, k) * b(k, j); r(i, j) = s; }
    return r;
}
template <class T> D<T> op(char t, const D<T> &a) {
    if (t == 'N') return a;
    D<T> r(a.n, a.m);
    for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r(j, i) = t == 'C' ? SX<T>::cj(a(i, j)) : a(i, j);
    return r;
}
// al*a + be*b
template <class T> D<T> lin(T al, const D<T> &a, T be, const D<T> &b) {
    D<T> r(a.m, a.n);
    for (size_t k = 0; k < r.v.size(); k++) r.v[k] = al * a.v[k] + be * b.v[k];
    return r;
}
template <class T> D<T> sub(const D<T> &a, int i0, int j0, int m, int n) {
    D<T> r(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r(i, j) = a(i0 + i, j0 + j);
    return r;
}
template <class T> D<T> symD(int m, int n, const char *name) { D<T> r(m, n); for (auto &x : r.v) x = SX<T>::real(name); return r; }
template <class T, class M> D<T> toD(const M &a) { D<T> r(a.nb_rows(), a.nb_cols()); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) r(i, j) = a(i, j); return r; }
template <class M, class T> M fromD(const D<T> &a) { M r(a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r(i, j) = a(i, j); return r; }
template <class T> void eqD(const D<T> &a, const D<T> &b, const char *msg) {
    sx_check(a.m == b.m && a.n == b.n, msg);
    for (size_t k = 0; k < a.v.size(); k++) SX<T>::eq(a.v[k], b.v[k], msg);
}
template <class T, class M> void eqM(const M &a, const D<T> &b, const char *msg) {
    sx_check(a.nb_rows() == b.m && a.nb_cols() == b.n, msg);
    for (int i = 0; i < b.m; i++) for (int j = 0; j < b.n; j++) SX<T>::eq(a(i, j), b(i, j), msg);
}
// full matrix of a triangle: sym 'S' or 'H'
template <class T> D<T> mirror(const D<T> &a, char uplo, char sym) {
    D<T> r = a;
    for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) {
        bool stored = uplo == 'U' ? i < j : i > j;
        if (i == j) { if (sym == 'H') r(i, j) = SX<T>::mk(SX<T>::re(a(i, i)), 0); }
        else if (!stored) r(i, j) = sym == 'H' ? SX<T>::cj(a(j, i)) : a(j, i);
    }
    return r;
}
template <class T> D<T> tri(const D<T> &a, char uplo, char diag) {
    D<T> r(a.m, a.n);
    for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) if (i == j) r(i, j) = diag == 'U' ? T(1) : a(i, j); else if (uplo == 'U' ? i < j : i > j) r(i, j) = a(i, j);
    return r;
}
// a coefficient that is literally 0, literally 1, or symbolic
template <class T> T coef(const char *name, int mode) { return mode == 0 ? SX<T>::real(name) : mode == 1 ? T(0) : T(1); }
inline char pick(const char *name, const char *opts) { int n = 0; while (opts[n]) n++; return opts[sx_choice(name, n)]; }
