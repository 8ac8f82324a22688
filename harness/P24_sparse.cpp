/*META
{"bounds": ["vectors of 3 entries with any integer values in [-4,4] (one operand in [-1,2]), scalars -2, 0.5, 2 and 4; every 2x3 and 3x2 sparsity pattern (3x3 in the thorough tier) with any values in [-4,4] against fixed vectors with distinguishable entries, and patterns with fixed values against any vectors in [-4,4], 1x0, 0x2 and 2x0 matrices; diagonals with entries 1, 2, 4, 0.5; equilibration of every 2x2 pattern with values in [-3,3] (0 to 2 rounds); set-up of an object that was used before"],
 "assumptions": ["entries are passed in row order, as the callers do", "equilibrated matrices are compared within 1e-9"],
 "reach": ["vector","matrix","transpose","combination","scaled","reused","empty row","no columns","mismatch"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
namespace sp = printemps::utility::sparse;
using V = sp::Vector; using M = sp::SparseMatrix;
static const char* A[3] = {"a0", "a1", "a2"}; static const char* B[3] = {"b0", "b1", "b2"}; static const char* C[3] = {"c0", "c1", "c2"};
static int near(double a, double b) { return (a - b < 1e-9) & (b - a < 1e-9); }
template <class F> static int throws(F f) { try { f(); } catch (...) { return 1; } return 0; }
static void vectors() {
    static const double S[4] = {-2, 0.5, 2, 4};
    double s = S[vf_concrete(vf_int("scalar", 0, 3))];
    V a(3), b(3); int x[3], y[3];
    int reuse = vf_concrete(vf_int("reuse", 0, 1));
    if (reuse) { a = V(2, 5.0); a.setup(3, 1.0); vf_assert((a.size() == 3) & (a[0] == 1) & (a[1] == 1) & (a[2] == 1), "a vector set up again"); vf_reach("reused"); }
    for (int i = 0; i < 3; i++) { x[i] = vf_int(A[i], -4, 4); y[i] = vf_concrete(vf_int(B[i], -1, 2)); a[i] = x[i]; b[i] = y[i]; }
    int mn = x[0], mx = x[0], dot = 0, sq = 0;
    auto p = a + b, m = a - b, ps = a + s, sp_ = s + a, ms = a - s, sm = s - a, ts = a * s, st = s * a, ds = a / s, neg = -a, pos = +a;
    auto q = a; q += b; auto r = a; r -= b; auto t = a; t *= s; auto u = a; u /= s;
    V su(3), sb(3), lc(3), l3(3), ln(3); sp::sum(&su, a, b); sp::subtract(&sb, a, b); sp::linear_combination(&lc, s, a, 3.0, b); sp::linear_combination(&l3, s, a, 3.0, b, 0.5, a);
    sp::linear_combination(&ln, std::vector<double>{s, 3.0, -1.0}, std::vector<V*>{&a, &b, &a});
    auto cl = a; V lo(3, -1.0), hi(3, 2.0); lo[1] = -2; hi[2] = 0; cl.clamp(lo, hi);
    auto cp = a; cp.clamp_positive(); auto cn = a; cn.clamp_negative();
    auto le = a; le.learn(b, 0.25);
    for (int i = 0; i < 3; i++) {
        double X = x[i], Y = y[i];
        mn = x[i] < mn ? x[i] : mn; mx = x[i] > mx ? x[i] : mx; dot += x[i] * y[i];
        vf_assert((p[i] == X + Y) & (m[i] == X - Y) & (q[i] == X + Y) & (r[i] == X - Y) & (su[i] == X + Y) & (sb[i] == X - Y), "sum and difference of vectors");
        vf_assert((ps[i] == X + s) & (sp_[i] == X + s) & (ms[i] == X - s) & (sm[i] == s - X), "vector and number");
        vf_assert((ts[i] == X * s) & (st[i] == X * s) & (ds[i] == X / s) & (t[i] == X * s) & (u[i] == X / s) & (neg[i] == -X) & (pos[i] == X), "multiples of a vector");
        vf_assert((lc[i] == s * X + 3 * Y) & (l3[i] == s * X + 3 * Y + 0.5 * X) & (ln[i] == s * X + 3 * Y - X), "linear combination of vectors");
        double L = i == 1 ? -2 : -1, H = i == 2 ? 0 : 2;
        vf_assert((cl[i] >= L) & (cl[i] <= H) & ((X < L) | (X > H) | (cl[i] == X)) & ((X >= L) | (cl[i] == L)) & ((X <= H) | (cl[i] == H)), "clamping");
        vf_assert((cp[i] == (X > 0 ? X : 0)) & (cn[i] == (X < 0 ? X : 0)), "clamping at zero");
        vf_assert(le[i] == 0.75 * X + 0.25 * Y, "learning");
    }
    vf_assert((a.max() == mx) & (a.min() == mn), "extremes of a vector");
    vf_assert((a.dot(b) == dot) & (b.dot(a) == dot), "dot product");
    double nb = b.norm(), ss = b.square_sum(); sq = y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
    vf_assert(ss == sq && near(nb * nb, sq) && near(b.norm(1), std::abs(y[0]) + std::abs(y[1]) + std::abs(y[2])), "norms");
    V o(3); double di = sp::distance(b, o); vf_assert(near(di * di, sq), "distance");
    auto ex = a; ex.extend(b);
    vf_assert((ex.size() == 6) & (ex[0] == x[0]) & (ex[1] == x[1]) & (ex[2] == x[2]) & (ex[3] == y[0]) & (ex[4] == y[1]) & (ex[5] == y[2]), "appending");
    auto re = a; re.reset(); vf_assert((re.size() == 3) & (re[0] == 0) & (re[1] == 0) & (re[2] == 0), "reset");
    V w(2);
    vf_assert(throws([&] { auto z = a; z += w; }) && throws([&] { auto z = a; z -= w; }) && throws([&] { a.dot(w); }) && throws([&] { auto z = a; z.clamp(w, hi); }) && throws([&] { auto z = a; z.clamp(lo, w); }), "vectors of different lengths combine");
    vf_reach("mismatch"); vf_reach("vector");
}
struct D { int r, c, mask; double v[9]; };
static D dense(int r, int c, int sym) {
    static const char* W[9] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"};
    D d; d.r = r; d.c = c; d.mask = r * c ? vf_concrete(vf_int("mask", 0, (1 << (r * c)) - 1)) : 0;
    for (int i = 0; i < r * c; i++) d.v[i] = !(d.mask >> i & 1) ? 0 : sym ? vf_int(W[i], -4, 4) : (i * 2 - 5 == 0 ? 3 : i * 2 - 5);
    return d;
}
static M make(const D& d, int reuse) {
    std::vector<double> v; std::vector<int> ri, ci;
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (d.mask >> (i * d.c + j) & 1) { v.push_back(d.v[i * d.c + j]); ri.push_back(i); ci.push_back(j); }
    if (!reuse) return M(v, ri, ci, d.r, d.c);
    M m({1, 2, 3}, {0, 0, 1}, {0, 1, 1}, 2, 2);
    if (reuse == 2) m.initialize();
    m.setup(v, ri, ci, d.r, d.c);
    vf_reach("reused");
    return m;
}
static void product(const M& m, const D& d, const double* x, const double* y) {   // y: a vector over the rows
    V X(d.c), out(d.r), comb(d.r), comb3(d.r), combn(d.r), Y(d.r), Z(d.r);
    for (int j = 0; j < d.c; j++) X[j] = x[j];
    for (int i = 0; i < d.r; i++) Y[i] = y[i], Z[i] = 2 * y[i] + 1;
    auto R = m * X; m.dot(&out, X);
    sp::linear_combination(&comb, 2.0, m, X, -3.0, Y); sp::linear_combination(&comb3, 2.0, m, X, -3.0, Y, 0.5, Z);
    if (d.r) sp::linear_combination(&combn, 2.0, m, X, std::vector<double>{-3.0, 0.5}, std::vector<V*>{&Y, &Z});
    V buf(d.r);
    double q = sp::dot_dot(&buf, Y, m, X), wq = 0;
    for (int i = 0; i < d.r; i++) {
        double w = 0; int any = 0;
        for (int j = 0; j < d.c; j++) if (d.mask >> (i * d.c + j) & 1) w = w + d.v[i * d.c + j] * x[j], any = 1;
        if (!any) vf_reach("empty row");
        vf_assert((R[i] == w) & (out[i] == w), "matrix times vector");
        vf_assert((comb[i] == 2 * w - 3 * y[i]) & (comb3[i] == 2 * w - 3 * y[i] + 0.5 * (2 * y[i] + 1)) & (combn[i] == comb3[i]), "combination of a matrix-vector product and vectors");
        wq = wq + w * y[i];
    }
    vf_assert(q == wq, "bilinear form");
    vf_reach("combination");
}
static void matrix(int sym) {
    static const int RR[7] = {2, 3, 1, 0, 2, 3, 3}, CC[7] = {3, 2, 0, 2, 0, 3, 1};
    int k = vf_concrete(vf_int("shape", 0, TQ(4, 5))), reuse = vf_concrete(vf_int("reuse", 0, 2));
    if (k == 5 && reuse) vf_skip();
    D d = dense(RR[k], CC[k], sym);
    if (d.c == 0) vf_reach("no columns");
    M m = make(d, reuse), t = m.transpose();
    D e; e.r = d.c; e.c = d.r; e.mask = 0;
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { e.v[j * e.c + i] = d.v[i * d.c + j]; if (d.mask >> (i * d.c + j) & 1) e.mask |= 1 << (j * e.c + i); }
    vf_assert(m.number_of_rows == d.r && m.number_of_columns == d.c && t.number_of_rows == d.c && t.number_of_columns == d.r, "sizes");
    double x[3], y[3];
    static const double FX[3] = {1, -16, 256}, FY[3] = {512, -32, 2};
    for (int i = 0; i < 3; i++) { x[i] = sym ? FX[i] : vf_int(A[i], -4, 4); y[i] = FY[i]; }
    product(m, d, x, y);
    double z[3]; for (int i = 0; i < 3; i++) z[i] = x[i];
    product(t, e, z, FX);
    vf_reach("transpose");
    double inf = 0, one = 0;
    for (int j = 0; j < d.c; j++) { double s = 0; for (int i = 0; i < d.r; i++) if (d.mask >> (i * d.c + j) & 1) { double v = std::fabs(d.v[i * d.c + j]); s = s + v; inf = inf > v ? inf : v; } one = one > s ? one : s; }
    if (!sym) vf_assert(m.norm_infty == inf && m.norm_one == one, "norms of a matrix");
    vf_assert(throws([&] { V w(d.c + 1), o(d.r); m.dot(&o, w); }), "a vector of the wrong length is accepted");
    static const double DV[3] = {4, 0.5, 2};
    sp::Diagonal dr(d.r), dc(d.c), bad(7);
    for (int i = 0; i < d.r; i++) dr[i] = DV[i];
    for (int j = 0; j < d.c; j++) dc[j] = DV[2 - j];
    if (d.r && d.c) {
        M a = dr * m, b = m * dc, mr = m, mc = m; m.scale_row(&mr, dr); m.scale_column(&mc, dc);
        int n = 0, ok = 1;
        for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (d.mask >> (i * d.c + j) & 1) {
            double v = d.v[i * d.c + j];
            ok &= (a.values[n] == v * dr[i]) & (b.values[n] == v * dc[j]) & (mr.values[n] == v * dr[i]) & (mc.values[n] == v * dc[j]) & (m.values[n] == v);
            n++;
        }
        vf_assert(ok, "rows and columns scaled");
        vf_assert(throws([&] { m.scale_row(bad); }) && throws([&] { m.scale_column(bad); }), "a diagonal of the wrong size is accepted");
    }
    if (!sym) {
        V X(d.c), Y(d.c); for (int j = 0; j < d.c; j++) X[j] = x[j];
        auto P = dc.dot(X); dc.dot(&Y, X); auto Q = X; dc.dot(&Q); auto I = dc.inverse(); auto dd = dc; dd *= dc; dd *= 2.0;
        for (int j = 0; j < d.c; j++) vf_assert((P[j] == dc[j] * x[j]) & (Y[j] == dc[j] * x[j]) & (Q[j] == dc[j] * x[j]) & (I[j] * dc[j] == 1) & (dd[j] == 2 * dc[j] * dc[j]), "diagonal");
    }
    vf_reach("matrix");
}
static void scaling() {
    D d; d.r = d.c = 2; d.mask = vf_concrete(vf_int("mask", 0, 15));
    static const char* W[4] = {"m0", "m1", "m2", "m3"};
    for (int i = 0; i < 4; i++) d.v[i] = d.mask >> i & 1 ? vf_concrete(vf_int(W[i], -3, 3)) : 0;
    M m = make(d, 0);
    int r = vf_concrete(vf_int("rounds", 0, 2)), pc = vf_concrete(vf_int("pc", 0, 1));
    if (r) m.ruiz_scaling(r);
    if (pc) m.pock_chambolle_scaling();
    int n = 0;
    double inf = 0, one[2] = {0, 0};
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (d.mask >> (i * 2 + j) & 1) {
        double v = m.values[n++];
        vf_assert(near(v * m.row_scaler[i] * m.column_scaler[j], d.v[i * 2 + j]), "the scaled matrix and its scalers give another matrix");
        one[j] += std::fabs(v); inf = std::max(inf, std::fabs(v));
    }
    vf_assert(near(m.norm_infty, inf) && near(m.norm_one, std::max(one[0], one[1])), "norms of the scaled matrix");
    for (int i = 0; i < 2; i++) vf_assert(m.row_scaler[i] > 0 && m.column_scaler[i] > 0 && std::isfinite(m.row_scaler[i]) && std::isfinite(m.column_scaler[i]), "scalers are positive");
    vf_reach("scaled");
}
extern "C" void vf_harness() {
    switch (vf_scn(4)) {
        case 0: vectors(); break;
        case 1: matrix(1); break;
        case 2: matrix(0); break;
        case 3: scaling(); break;
    }
}
