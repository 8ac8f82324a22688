/*META
{"bounds": ["0-1 matrices of size 1 to 3 with any entries (4 in the thorough tier), any vectors; reachability of graphs with up to 3 (4) nodes", "systems of 3 parity rows over 3 binary and 3 integer variables: signs of four binaries and two integers, right-hand sides in {-1,0,1}, and one of: narrower bounds of an integer (2), a singular system, an integer shared by two rows, a coefficient 1.5, 2.5 or 3, a fractional right-hand side, a row disabled by the user, a variable fixed by the user (3), a doubled binary of another row; every point (integers within [-3,3])"],
 "assumptions": [],
 "reach": ["regular","singular","reach","solved","unsolved","fixed","disabled","infeasible","shared"]}
*/
#include "text.h"
#include "lib.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    int sc = vf_scn(3), N = TQ(3, 4);
    static const char* EN[16] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15"};
    static const char* VN[4] = {"v0", "v1", "v2", "v3"};
    if (sc < 2) {
        int n = vf_concrete(vf_int("size", 1, N));
        utility::BinaryMatrix A(n, n);
        int a[4][4];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = a[i][j] = vf_int(EN[i * n + j], 0, 1);
        if (sc == 0) {
            auto [B, rank] = A.inverse_and_rank();
            int v[4], any = 0, zero = 1;
            for (int i = 0; i < n; i++) { v[i] = vf_int(VN[i], 0, 1); any |= v[i]; }
            for (int i = 0; i < n; i++) { int s = 0; for (int j = 0; j < n; j++) s += a[i][j] * v[j]; zero &= (s & 1) == 0; }
            if (rank == n) {
                vf_assert(!(any & zero), "a singular matrix is called regular");
                vf_reach("regular");
                auto C = A.dot(B), D = B.dot(A);
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_assert(C[i][j] == (i == j) && D[i][j] == (i == j), "the inverse of a 0-1 matrix");
                std::vector<int> w(v, v + n);
                auto y = B.dot(w), z = A.dot(y);
                for (int i = 0; i < n; i++) vf_assert(z[i] == v[i], "the solution of parity equations");
            } else {   // then some combination of rows vanishes: the rows of B beyond the rank say which
                vf_assert(rank >= 0 && rank < n, "the rank");
                for (int i = rank; i < n; i++) {
                    int nz = 0;
                    for (int j = 0; j < n; j++) {
                        int s = 0;
                        for (int k = 0; k < n; k++) s += B[i][k] * a[k][j];
                        nz |= B[i][j];
                        vf_assert((s & 1) == 0, "a regular matrix is called singular");
                    }
                    vf_assert(nz, "a regular matrix is called singular");
                }
                vf_reach("singular");
            }
        } else {
            auto R = A.reachability();
            int r[4][4];
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = a[i][j];
            for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][k] & r[k][j];
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_assert((R[i][j] != 0) == (r[i][j] != 0), "what is reachable from a node");
            vf_reach("reach");
            auto I = utility::BinaryMatrix::identity(n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_assert(I[i][j] == (i == j), "the identity");
        }
        return;
    }
    // three parity rows over three binaries and an integer each
    int var = vf_concrete(vf_int("variant", 0, 13));
    IPModel m("m");
    auto& x = m.create_variables("x", 3, 0, 1);
    auto& z = m.create_variables("z", 3, -3, 3);
    int lo[3] = {var == 1 ? 0 : var == 2 ? -1 : -3, -3, -3}, hi[3] = {var == 1 ? 1 : var == 2 ? 0 : 3, 3, 3};
    z(0).set_bound(lo[0], hi[0]);
    auto& g = m.create_constraints("g", 3);
    static const int PAT[2][3][3] = {{{1, 1, 0}, {0, 1, 1}, {1, 1, 1}}, {{1, 1, 0}, {0, 1, 1}, {1, 0, 1}}};
    int singular = var == 3, sg = vf_concrete(vf_int("signs", 0, 15)), kg = vf_concrete(vf_int("keysigns", 0, 3));
    static const int CC[3] = {0, 1, -1};
    double a[3][6] = {}, c[3] = {(double)CC[vf_concrete(vf_int("c0", 0, 2))], (double)CC[vf_concrete(vf_int("c1", 0, 2))], (double)CC[vf_concrete(vf_int("c2", 0, 1))]};
    for (int r = 0; r < 3; r++) for (int i = 0; i < 3; i++) a[r][i] = PAT[singular][r][i];
    if (sg & 1) a[0][0] = -1;
    if (sg & 2) a[0][1] = -1;
    if (sg & 4) a[1][2] = -1;
    if (sg & 8) a[2][1] = -1;
    for (int r = 0; r < 3; r++) a[r][3 + (var == 4 && r == 1 ? 0 : r)] = 2;
    if (kg & 1) a[0][3] = -2;
    if (kg & 2) a[2][5] = -2;
    if (var == 5) a[0][1] = 1.5;
    if (var == 6) a[0][3] = 2.5;
    if (var == 7) c[1] = 0.5;
    if (var == 8) { a[1][2] = 3; }
    if (var == 13) { a[2][5] = 0; a[2][0] = kg & 2 ? -2 : 2; }   // the doubled variable is a binary of another row
    if (var == 4) vf_reach("shared");
    int dis = var == 9 ? 0 : -1;
    for (int r = 0; r < 3; r++) {
        auto e = model_component::Expression<int, double>::create_instance();
        e = c[r];
        for (int i = 0; i < 6; i++) if (a[r][i] != 0) e += a[r][i] * (i < 3 ? x(i) : z(i - 3));
        g(r) = e == 0;
        if (r == dis) { g(r).disable(); vf_reach("disabled"); }
    }
    int fx = var < 10 || var == 13 ? -1 : var == 12 ? 3 : 0, fv = var == 11 ? 1 : 0;
    if (fx >= 0) { vf_reach("fixed"); (fx < 3 ? x(fx) : z(0)).fix_by(fv); }
    m.minimize(x(0) + x(1) + z(0) + z(1));
    int pt[6];
    static const char* PN[6] = {"p0", "p1", "p2", "p3", "p4", "p5"};
    for (int i = 0; i < 6; i++) { pt[i] = vf_int(PN[i], i < 3 ? 0 : -3, i < 3 ? 1 : 3); if (i >= 3) vf_assume((pt[i] >= lo[i - 3]) & (pt[i] <= hi[i - 3])); if (fx == i) vf_assume(pt[i] == fv); }
    bool sat = true;
    for (int r = 0; r < 3; r++) if (r != dis) { double l = c[r]; for (int i = 0; i < 6; i++) l += a[r][i] * pt[i]; sat = sat & (l == 0); }
    vf_opaque_text();
    option::Option o;
    vf_no_presolve(o);
    o.preprocess.is_enabled_presolve = true;
    bool thrown = false;
    try { m.setup(o, false); } catch (...) { thrown = true; }
    if (thrown) { vf_assert(!sat, "a model with a solution is rejected"); vf_reach("infeasible"); return; }
    int nf = 0;
    for (int i = 0; i < 6; i++) {
        if ((var == 13 && i == 5) || (var == 9 && i == 3) || (var == 4 && i == 4)) continue;   // occurs in no row
        auto& v = i < 3 ? x(i) : z(i - 3);
        if (v.is_fixed()) { nf++; vf_assert(!sat | (pt[i] == v.value()), "a solution is excluded by a fixed variable"); }
        if (i == fx) vf_assert(v.is_fixed() && v.value() == fv, "the value fixed by the user is changed");
        vf_assert(!sat | ((pt[i] >= v.lower_bound()) & (pt[i] <= v.upper_bound())), "a solution is excluded by a bound");
    }
    bool acc = true;   // a point the presolved model accepts is a solution
    for (int i = 0; i < 6; i++) {
        auto& v = i < 3 ? x(i) : z(i - 3);
        acc = acc & (v.is_fixed() ? pt[i] == v.value() : (pt[i] >= v.lower_bound()) & (pt[i] <= v.upper_bound()));
    }
    for (int r = 0; r < 3; r++) if (g(r).is_enabled()) { double l = c[r]; for (int i = 0; i < 6; i++) l += a[r][i] * pt[i]; acc = acc & (l == 0); }
    vf_assert(!acc | sat, "a point that is no solution is accepted");
    vf_reach(nf == 6 ? "solved" : "unsolved");
}
