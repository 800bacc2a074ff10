// low-rank matrices for the harnesses
#pragma once
#include "common.hpp"
#include <htool/hmatrix/lrmat/lrmat.hpp>
#include <htool/misc/logger.hpp>
namespace sxl {
template <class T> struct LR { D<T> U, V; };
template <class T> LR<T> sym(int m, int n, int r, const char *nm) { LR<T> x; x.U = symD<T>(m, r, nm); x.V = symD<T>(r, n, nm); return x; }
template <class T> D<T> val(const LR<T> &x) { return mul(x.U, x.V); }
template <class T> htool::LowRankMatrix<T> make(const LR<T> &x, double eps) {
    htool::LowRankMatrix<T> l(eps);
    l.get_U() = fromD<htool::Matrix<T>>(x.U);
    l.get_V() = fromD<htool::Matrix<T>>(x.V);
    return l;
}
// value of an implementation object, with consistent factor shapes
template <class L> auto value(const L &l, int m, int n) {
    auto u = l.get_U();
    typedef typename std::decay<decltype(u(0, 0))>::type T;
    sx_check(l.get_U().nb_rows() == m && l.get_V().nb_cols() == n, "shape of a low-rank result");
    sx_check(l.get_U().nb_cols() == l.get_V().nb_rows() && l.rank_of() == l.get_U().nb_cols(), "ranks of the two factors of a low-rank result");
    return mul(toD<T>(l.get_U()), toD<T>(l.get_V()));
}
template <class T> void coefs(T &al, T &be) {
    int am = sx_choice("alpha, beta", sx_param("coefs", 4));
    al = am == 1 ? T(1) : am == 3 ? T(0) : SX<T>::real("alpha");
    be = am == 1 ? T(0) : am == 2 ? T(1) : SX<T>::real("beta");
}
}
