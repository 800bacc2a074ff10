#include "lr.hpp"
#include "hmat.hpp"
#include <htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp>
#include <htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp>
#include <htool/hmatrix/lrmat/linalg/add_matrix_matrix_product.hpp>
#include <htool/hmatrix/lrmat/linalg/scale.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_matrix_product.hpp>
#include <htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp>
#include <htool/hmatrix/linalg/scale.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp>
#include <htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp>
using namespace htool;
using namespace sxl;
typedef SXT T;
typedef Matrix<T> HM;
typedef LowRankMatrix<T> LM;
static int dim(const char *n) { return 1 + sx_choice(n, sx_param("dim", 2)); }
static int rk(const char *n) { return sx_choice(n, sx_param("rank", 2) + 1); }
static D<T> operand(char t, int m, int n, const char *nm) { return t == 'N' ? symD<T>(m, n, nm) : symD<T>(n, m, nm); }
static LR<T> lroperand(char t, int m, int n, int r, const char *nm) { return t == 'N' ? sxl::sym<T>(m, n, r, nm) : sxl::sym<T>(n, m, r, nm); }
static T free_or_01() { int k = sx_choice("beta", 3); return k == 0 ? SX<T>::real("beta") : k == 1 ? T(1) : T(0); }
static void same(const LM &l, const LR<T> &x, const char *msg) { eqM(l.get_U(), x.U, msg); eqM(l.get_V(), x.V, msg); }
SX_ENTRY(vector) {
    int m = dim("m"), n = dim("n"), r = rk("r");
    char t = pick("trans", "NTC");
    T al, be; coefs(al, be);
    LR<T> A = sxl::sym<T>(m, n, r, "A");
    D<T> x = symD<T>(t == 'N' ? n : m, 1, "x"), y = symD<T>(t == 'N' ? m : n, 1, "y"), xx = x, yy = y;
    LM a = make(A, 0.5);
    add_lrmat_vector_product(t, al, a, xx.v.data(), be, yy.v.data());
    eqD(yy, lin(al, mul(op(t, val(A)), x), be, y), "low-rank times vector");
    eqD(xx, x, "input changed");
    same(a, A, "operand changed");
    if (t == 'N' && r > 0) { std::vector<T> z = a * x.v; D<T> e = mul(val(A), x); sx_check((int)z.size() == m, "size of operator*"); for (int i = 0; i < m; i++) SX<T>::eq(z[i], e(i, 0), "operator* (vector)"); }
    D<T> out(m, n);
    a.copy_to_dense(out.v.data());
    eqD(out, val(A), "dense copy of a low-rank matrix");
    scale(al, a);
    eqD(value(a, m, n), lin(al, val(A), T(0), val(A)), "scaled low-rank matrix");
    sx_reach("end");
}
SX_ENTRY(row_major) {
    int m = dim("m"), n = dim("n"), r = rk("r"), mu = dim("mu");
    char t = pick("transa", "NTC");
    T al, be; coefs(al, be);
    LR<T> A = sxl::sym<T>(m, n, r, "A");
    D<T> Bt = symD<T>(mu, t == 'N' ? n : m, "B"), Ct = symD<T>(mu, t == 'N' ? m : n, "C"), bb = Bt, cc = Ct;
    LM a = make(A, 0.5);
    add_lrmat_matrix_product_row_major(t, 'N', al, a, bb.v.data(), be, cc.v.data(), mu);
    eqD(op('T', cc), lin(al, mul(op(t, val(A)), op('T', Bt)), be, op('T', Ct)), "low-rank times row-major matrix");
    eqD(bb, Bt, "input changed");
    same(a, A, "operand changed");
    sx_reach("end");
}
// dense destination: which = 0 lr*dense, 1 dense*lr, 2 lr*lr
static void to_dense(int which) {
    int m = dim("m"), n = dim("n"), k = dim("k");
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    T al, be; coefs(al, be);
    int ra = which == 1 ? 0 : rk("ra"), rb = which == 0 ? 0 : rk("rb");
    D<T> C = symD<T>(m, n, "C");
    HM c = fromD<HM>(C);
    D<T> A = which == 1 ? operand(ta, m, k, "A") : D<T>(), B = which == 0 ? operand(tb, k, n, "B") : D<T>();
    LR<T> LA = which != 1 ? lroperand(ta, m, k, ra, "A") : LR<T>(), LB = which != 0 ? lroperand(tb, k, n, rb, "B") : LR<T>();
    HM a = fromD<HM>(A), b = fromD<HM>(B);
    LM la = make(LA, 0.5), lb = make(LB, 0.5);
    if (which == 0) add_lrmat_matrix_product(ta, tb, al, la, b, be, c);
    if (which == 1) add_matrix_lrmat_product(ta, tb, al, a, lb, be, c);
    if (which == 2) add_lrmat_lrmat_product(ta, tb, al, la, lb, be, c);
    eqM(c, lin(al, mul(op(ta, which == 1 ? A : val(LA)), op(tb, which == 0 ? B : val(LB))), be, C), "product into a dense matrix");
    eqM(a, A, "operand changed"); eqM(b, B, "operand changed");
    same(la, LA, "operand changed"); same(lb, LB, "operand changed");
    sx_reach("end");
}
SX_ENTRY(lr_dense) { to_dense(0); }
SX_ENTRY(dense_lr) { to_dense(1); }
SX_ENTRY(lr_lr) { to_dense(2); }
// low-rank destination, tolerance 0: nothing may be dropped. which: 0 lr*dense, 1 dense*lr, 2 lr*lr, 3 dense*dense
static void to_lr(int which) {
    int m = dim("m"), n = dim("n"), k = dim("k");
    char ta = pick("transa", "NTC"), tb = pick("transb", "NTC");
    int rm = sx_param("rank", 1), cm = sx_choice("destination", 2 + rm); // fresh, rank 0, 1, ..
    T al = SX<T>::real("alpha"), be = cm < 2 ? (sx_choice("beta", 2) ? T(0) : T(1)) : free_or_01();
    int ra = which == 1 || which == 3 ? 0 : rk("ra"), rb = which == 0 || which == 3 ? 0 : rk("rb");
    bool da = which == 1 || which == 3, db = which == 0 || which == 3;
    D<T> A = da ? operand(ta, m, k, "A") : D<T>(), B = db ? operand(tb, k, n, "B") : D<T>();
    LR<T> LA = !da ? lroperand(ta, m, k, ra, "A") : LR<T>(), LB = !db ? lroperand(tb, k, n, rb, "B") : LR<T>(), LC = sxl::sym<T>(m, n, cm < 2 ? 0 : cm - 1, "C");
    HM a = fromD<HM>(A), b = fromD<HM>(B);
    LM la = make(LA, 0.5), lb = make(LB, 0.5), c = cm == 0 ? LM(0.0) : make(LC, 0);
    if (which == 0) add_lrmat_matrix_product(ta, tb, al, la, b, be, c);
    if (which == 1) add_matrix_lrmat_product(ta, tb, al, a, lb, be, c);
    if (which == 2) add_lrmat_lrmat_product(ta, tb, al, la, lb, be, c);
    if (which == 3) add_matrix_matrix_product(ta, tb, al, a, b, be, c);
    D<T> E = lin(al, mul(op(ta, da ? A : val(LA)), op(tb, db ? B : val(LB))), be, val(LC));
    eqD(value(c, m, n), E, "product into a low-rank matrix");
    eqM(a, A, "operand changed"); eqM(b, B, "operand changed");
    same(la, LA, "operand changed"); same(lb, LB, "operand changed");
    sx_reach("end");
}
SX_ENTRY(lr_dense_to_lr) { to_lr(0); }
SX_ENTRY(dense_lr_to_lr) { to_lr(1); }
SX_ENTRY(lr_lr_to_lr) { to_lr(2); }
SX_ENTRY(dense_dense_to_lr) { to_lr(3); }
// products with an H-matrix. side 0: H-matrix on the left, 1: on the right; the other operand dense or low rank; destination dense, low rank or H-matrix
static void with_h(int side, bool other_lr, int dest) {
    auto log = sxc::quiet();
    sxh::Shape o;
    o.ranks = {1, 0};
    int sq = dest == 2 ? 1 : sx_choice("square", 2);
    if (sq) { o.m = o.n = dest == 2 ? 3 : 3; o.structures = dest == 2 ? std::vector<int>{0, 2} : std::vector<int>{1, 2, 4}; o.uplos = dest == 2 ? "N" : "NL"; }
    else { o.same = false; o.m = 2; o.n = 3; o.structures = {0, 3, 4}; }
    auto b = sxh::build_hmatrix<T>(o);
    if (log->errors) sx_prune();
    char th = pick("op of the H-matrix", "NTC"), to = pick("op of the other operand", "NTC");
    if ((th == 'C' && b.sym == 'S' && SX<T>::c) || (th == 'T' && b.sym == 'H')) sx_prune(); // reported as unsupported (C11)
    D<T> H = op(th, b.R);
    int kd = sx_param("k", 2), k = dest == 2 ? 3 : kd > 0 ? kd : 1 + sx_choice("k", -kd); // free dimension of the other operand
    int om = side == 0 ? H.n : k, on = side == 0 ? k : H.m, rm = sx_param("rank", 1);
    int r = other_lr ? sx_choice("rank of the operand", rm + 1) : 0;
    LR<T> L = other_lr ? lroperand(to, om, on, r, "B") : LR<T>();
    D<T> M = other_lr ? val(L) : operand(to, om, on, "B");
    LM l = make(L, 0);
    HM d = fromD<HM>(M);
    T al = SX<T>::real("alpha"), be;
    int m = side == 0 ? H.m : k, n = side == 0 ? k : H.n;
    D<T> P = side == 0 ? mul(H, op(to, M)) : mul(op(to, M), H), before, after;
    if (dest == 0) {
        int bm = sx_choice("beta", 3);
        be = bm == 0 ? T(0) : bm == 1 ? T(1) : SX<T>::real("beta");
        before = symD<T>(m, n, "C");
        HM c = fromD<HM>(before);
        if (side == 0) internal_add_hmatrix_lrmat_product(th, to, al, *b.h, l, be, c);
        else internal_add_lrmat_hmatrix_product(to, th, al, l, *b.h, be, c);
        after = toD<T>(c);
    } else if (dest == 1) {
        int cm = sx_choice("destination", 2 + rm);
        be = cm < 2 ? (sx_choice("beta", 2) ? T(0) : T(1)) : free_or_01();
        LR<T> LC = sxl::sym<T>(m, n, cm < 2 ? 0 : cm - 1, "C");
        before = val(LC);
        LM c = cm == 0 ? LM(0.0) : make(LC, 0);
        if (side == 0) { if (other_lr) internal_add_hmatrix_lrmat_product(th, to, al, *b.h, l, be, c); else internal_add_hmatrix_matrix_product(th, to, al, *b.h, d, be, c); }
        else { if (other_lr) internal_add_lrmat_hmatrix_product(to, th, al, l, *b.h, be, c); else internal_add_matrix_hmatrix_product(to, th, al, d, *b.h, be, c); }
        after = value(c, m, n);
    } else {
        int bm = sx_choice("beta", 2);
        be = bm == 0 ? T(1) : SX<T>::real("beta");
        sxh::Shape oc;
        oc.m = oc.n = 3; oc.uplos = "N"; oc.ranks = {1, 0}; oc.structures = {2}; oc.eps = 0;
        auto c = sxh::build_hmatrix<T>(oc);
        before = c.R;
        if (side == 0) internal_add_hmatrix_lrmat_product(th, to, al, *b.h, l, be, *c.h);
        else internal_add_lrmat_hmatrix_product(to, th, al, l, *b.h, be, *c.h);
        after = sxh::represented<T>(*c.h);
    }
    eqD(after, lin(al, P, be, before), "product of an H-matrix and a low-rank or dense matrix");
    if (th != 'C') sx_check(log->errors == 0, "error logged for a supported product");
    if (other_lr) same(l, L, "operand changed"); else eqM(d, M, "operand changed");
    sxh::unchanged(b, "operand changed");
    sx_reach("end");
}
SX_ENTRY(h_lr) { with_h(0, true, 0); }
SX_ENTRY(lr_h) { with_h(1, true, 0); }
SX_ENTRY(h_lr_to_lr) { with_h(0, true, 1); }
SX_ENTRY(lr_h_to_lr) { with_h(1, true, 1); }
SX_ENTRY(h_dense_to_lr) { with_h(0, false, 1); }
SX_ENTRY(dense_h_to_lr) { with_h(1, false, 1); }
SX_ENTRY(h_lr_to_h) { with_h(0, true, 2); }
SX_ENTRY(lr_h_to_h) { with_h(1, true, 2); }
