/*META
{"bounds": ["3 integer variables with any bounds lb in [-2,0], ub in [0,2], 2 rows from 6 coefficient sets and 5 sense pairs, right-hand sides any integer in [-4,4]; single-variable rows with coefficients +-1,+-2,3,0.5 and right-hand sides in [-7,7] (also times 60000); unconstrained variables with any bounds in [-3,3] and objective coefficients -1, 0, 1; 4 binaries in 3 rows over all pairs of subsets (partitioning, packing, covering); for each reduced model, every point of the bounds"],
 "bounds_thorough": ["as quick with 12 coefficient sets, all 9 sense pairs, right-hand sides in [-8,8]"],
 "assumptions": ["dyadic coefficients and the coefficient 3, double arithmetic exact"],
 "reach": ["rows","single","free","sets","fixed","disabled","tightened","rejected","better","solution","userfix"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
static std::unordered_map<const IPVar*, int> at(std::vector<IPVar*>& x, const std::vector<int>& p) { std::unordered_map<const IPVar*, int> r; for (size_t i = 0; i < x.size(); i++) r[x[i]] = p[i]; return r; }
static void flags(IPModel& m, const RefModel& R, std::vector<IPVar*>& x, const std::vector<int>& lb, const std::vector<int>& ub) {
    for (auto v : x) if (v->is_fixed()) vf_reach("fixed");
    for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) if (!c.is_enabled()) vf_reach("disabled");
}
extern "C" void vf_harness() {
    int scn = vf_concrete(vf_int("scenario", 0, 3));
    IPModel m("m");
    option::Option o;
    RefModel R;
    std::vector<IPVar*> x; std::vector<int> lb, ub;
    static const char* LN[4] = {"lb0", "lb1", "lb2", "lb3"}; static const char* UN[4] = {"ub0", "ub1", "ub2", "ub3"}; static const char* PN[4] = {"p0", "p1", "p2", "p3"};
    int big = 1, maxi = 0, uf = -1, uv = 0;
    std::vector<int> swap;   // variables that may be exchanged by the reduction (identical columns)
    if (scn == 0) {
        vf_reach("rows");
        static const double C[12][2][3] = {{{1, 1, 1}, {1, -1, 0}}, {{2, -1, 0}, {0, 1, 2}}, {{1, 2, -2}, {-1, 0, 1}}, {{0.5, 1, 0}, {1, 1, -1}}, {{3, 1, 0}, {0, -2, 1}}, {{1, 1, 1}, {1, 1, 1}},
                                           {{-1, -1, -1}, {1, 1, 1}}, {{4, 2, 1}, {1, 2, 4}}, {{-3, 2, 0}, {1, 0, -1}}, {{1, 2, -1}, {-1, -2, 1}}, {{2, 2, 0}, {0, 2, 2}}, {{1, -0.5, 0.5}, {2, 0, 1}}};
        int cs = vf_concrete(vf_int("coefs", 0, TQ(5, 11))), sp = vf_concrete(vf_int("senses", 0, TQ(4, 8)));
        static const int SP[5][2] = {{0, 2}, {1, 0}, {2, 2}, {0, 0}, {2, 1}};
        int s0 = TQ(SP[sp][0], sp % 3), s1 = TQ(SP[sp][1], sp / 3);
        R.n = 3;
        auto& v = m.create_variables("x", 3, -5, 5);
        for (int j = 0; j < 3; j++) {
            bool sym = cs < 6 ? (j < 2 ? C[cs][0][j] != 0 : C[cs][0][2] != 0) : j < 1;
            lb.push_back(j < TQ(1, 2) ? vf_int(LN[j], -2, 0) : -1 - (j == 2)); ub.push_back(j < TQ(2, 2) ? vf_int(UN[j], 0, 2) : 2);
            v(j).set_bound(lb[j], ub[j]); x.push_back(&v(j));
        }
        const int K = TQ(4, 8);
        R.rows.push_back({{C[cs][0][0], C[cs][0][1], C[cs][0][2]}, (double)vf_int("k0", -K, K), s0});
        R.rows.push_back({{C[cs][1][0], C[cs][1][1], C[cs][1][2]}, (double)vf_int("k1", -K, K), s1});
        auto& g = m.create_constraints("g", 2);
        for (int i = 0; i < 2; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
        R.obj = {1, -1, 0.5};
        m.minimize(vf_expr(R.obj, 0, v));
    } else if (scn == 1) {
        vf_reach("single");
        static const double A[6] = {1, -1, 2, -2, 3, 0.5};
        int a = vf_concrete(vf_int("a", 0, 5)), s = vf_concrete(vf_int("s", 0, 2));
        big = vf_concrete(vf_int("large", 0, 1)) ? 60000 : 1;
        R.n = 2;
        auto& v = m.create_variables("x", 2, -5, 5);
        lb = {vf_int("lb0", -3, 0), -1}; ub = {vf_int("ub0", 0, 3), 1};
        if (big > 1) { lb[0] = -200000; ub[0] = 200000; lb[1] = -400000; ub[1] = 400000; }
        for (int j = 0; j < 2; j++) { v(j).set_bound(lb[j], ub[j]); x.push_back(&v(j)); }
        R.rows.push_back({{A[a], 0}, (double)vf_int("k0", -7, 7) * big, s});
        R.rows.push_back({{1, 1}, (double)vf_int("k1", -2, 2) * big, 0});
        auto& g = m.create_constraints("g", 2);
        for (int i = 0; i < 2; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
        R.obj = {1, -1};
        m.minimize(v(0) - v(1));
    } else if (scn == 2) {
        vf_reach("free");
        R.n = 3;
        maxi = vf_concrete(vf_int("max", 0, 1));
        auto& v = m.create_variables("x", 3, -5, 5);
        int w = vf_concrete(vf_int("obj", 0, 2)) - 1;
        R.obj = {(double)w, (double)-w, 0};
        lb = {vf_int("lb0", -3, 3), -3, 0}; ub = {vf_int("ub0", -3, 3), 3, 1};
        vf_assume(lb[0] <= ub[0]);
        for (int j = 0; j < 3; j++) { v(j).set_bound(lb[j], ub[j]); x.push_back(&v(j)); }
        R.rows.push_back({{0, 1, 2}, (double)vf_int("k0", -3, 3), 0});
        m.create_constraint("g", vf_cons(vf_expr(R.rows[0].c, R.rows[0].k, v), 0));
        if (maxi) m.maximize(vf_expr(R.obj, 0, v)); else m.minimize(vf_expr(R.obj, 0, v));
    } else {
        vf_reach("sets");
        R.n = 4;
        auto& v = m.create_variables("x", 4, 0, 1);
        maxi = vf_concrete(vf_int("max", 0, 1));
        // row 0 over a, row 1 over b; row 2 fixed; senses: 1 partitioning, 0 packing, 2 covering
        static const int M[10] = {3, 5, 6, 12, 7, 14, 11, 15, 9, 10};
        int a = M[vf_concrete(vf_int("a", 0, TQ(6, 9)))], b = M[vf_concrete(vf_int("b", 0, TQ(7, 9)))], ss = vf_concrete(vf_int("senses", 0, TQ(6, 8)));
        static const int SP[7][2] = {{1, 1}, {1, 0}, {2, 0}, {0, 2}, {2, 1}, {0, 0}, {2, 2}};
        int s0 = TQ(SP[ss % 7][0], ss % 3), s1 = TQ(SP[ss % 7][1], ss / 3);
        auto row = [](int mask, int s) { RefRow r; for (int j = 0; j < 4; j++) r.c.push_back(mask >> j & 1); r.k = -1; r.s = s; return r; };
        R.rows.push_back(row(a, s0)); R.rows.push_back(row(b, s1));
        if (vf_concrete(vf_int("third", 0, 1))) R.rows.push_back(row(7, 0));
        uf = vf_concrete(vf_int("userfix", 0, 2)) - 1; uv = 1;
        R.obj = {1, 2, 3, -1};
        for (int j = 0; j < 4; j++) { lb.push_back(0); ub.push_back(1); x.push_back(&v(j)); }
        auto& g = m.create_constraints("g", (int)R.rows.size());
        for (int i = 0; i < (int)R.rows.size(); i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
        if (maxi) m.maximize(vf_expr(R.obj, 0, v)); else m.minimize(vf_expr(R.obj, 0, v));
        if (uf >= 0) { vf_reach("userfix"); uf = uf ? 2 : 0; v(uf).fix_by(uv); }
        o.preprocess.is_enabled_remove_redundant_set_variables = true; o.preprocess.is_enabled_remove_redundant_set_constraints = true;
        o.preprocess.is_enabled_extract_implicit_equality_constraints = true; o.preprocess.is_enabled_remove_duplicated_constraints = true;
        o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = false;
        o.preprocess.is_enabled_extract_dependent_intermediate = false;
    }
    o.neighborhood.selection_mode = option::selection_mode::Off;
    if (scn != 3) { o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = false;
        o.preprocess.is_enabled_extract_implicit_equality_constraints = true; o.preprocess.is_enabled_remove_redundant_set_variables = true; o.preprocess.is_enabled_remove_redundant_set_constraints = true; }
    bool thrown = false;
    try { m.setup(o, false); } catch (std::exception&) { thrown = true; }
    std::vector<int> p(R.n);
    for (int j = 0; j < R.n; j++) { p[j] = scn == 3 ? vf_int(PN[j], 0, 1) : big > 1 ? vf_int(PN[j], -400000, 400000) : vf_int(PN[j], -3, 3); }
    int orig = vf_sat_ref(R, p);
    if (uf >= 0) orig &= p[uf] == uv;
    for (int j = 0; j < R.n; j++) orig &= (lb[j] <= p[j]) & (p[j] <= ub[j]);
    if (thrown) { vf_reach("rejected"); vf_assert(!orig, "a model that has a solution is not rejected"); return; }
    flags(m, R, x, lb, ub);
    for (int j = 0; j < R.n; j++) if (!x[j]->is_fixed() && (x[j]->lower_bound() > lb[j] || x[j]->upper_bound() < ub[j])) vf_reach("tightened");
    int red = vf_sat_model(m, at(x, p));
    vf_assert(!red | orig, "a point of the reduced model is a solution of the original model");
    vf_reach("solution");
    if (scn == 0 || scn == 1) { vf_assert(!orig | red, "a solution of the original model is lost by the reduction"); return; }
    // variables without constraints and identical columns: a solution at least as good must survive
    vf_reach("better");
    double f = R.objective(p), sg = maxi ? -1 : 1;
    std::vector<std::vector<int>> cand;
    if (scn == 2) { auto q = p; for (int j = 0; j < R.n; j++) if (x[j]->is_fixed()) q[j] = x[j]->value(); cand.push_back(p); cand.push_back(q); }
    else {
        // exchanges of values between variables that occur in the same rows
        std::vector<int> pat(4, 0);
        for (int j = 0; j < 4; j++) for (size_t i = 0; i < R.rows.size(); i++) if (R.rows[i].c[j] != 0) pat[j] |= 1 << i;
        std::vector<std::vector<int>> base = {p};
        auto q0 = p; for (int j = 0; j < 4; j++) if (pat[j] == 0 && x[j]->is_fixed()) q0[j] = x[j]->value();
        base.push_back(q0);
        bool cov = true; for (auto& r : R.rows) cov = cov && r.s == 2;
        for (int round = 0; round < 2; round++) {
            auto cur = base;
            for (auto& q : cur) for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) if (pat[a] == pat[b] && pat[a]) {
                auto t = q; t[a] = q[b]; t[b] = q[a]; base.push_back(t);
                auto u = q; u[a] = q[a] | q[b]; u[b] = 0; base.push_back(u);
                u[b] = u[a]; u[a] = 0; base.push_back(u);
            }
            if (base.size() > 120) break;
        }
        cand = base;
    }
    int ok = 0;
    for (auto& q : cand) ok |= vf_sat_model(m, at(x, q)) & (sg * R.objective(q) <= sg * f);
    vf_assert(!orig | ok, "no solution at least as good is left after the reduction");
}
