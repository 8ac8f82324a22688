/*META
{"bounds": ["3 integer variables with values in [-5,5] and target values in [-5,5]; 3 constraints in 2 arrays in 6 sense combinations; minimisation, maximisation and no objective; empty moves and moves of 1 to 3 variables; objective given as expression and as named expression"],
 "bounds_thorough": ["as quick with values in [-40,40] all 27 sense combinations and two more coefficient sets"],
 "assumptions": ["half-integral coefficients, so double arithmetic is exact", "penalty coefficients 100 (global) and 2, 3, 5 (local)"],
 "reach": ["min","max","none","func","disabled","feasible","infeasible"]}
*/
#include "lib.h"
static const int V = TQ(5, 40);
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    IPModel m("m");
    auto& x = m.create_variables("x", 3, -1000, 1000);
    RefModel R; R.n = 3;
    static const double CS[4][3][4] = {{{1, -1.5, 0, -2}, {2, 0, 1, -3}, {1, 1, 1, 0.5}}, {{-1, 0, 0.5, 1}, {1, 1, 0, -1}, {0, -2, 3, 2}}, {{1, 0, 0, 0}, {0, 1, -1, 0}, {-1, 2, -2.5, 4}}, {{3, 1, 1, -3}, {-1, -1, -1, 1}, {0, 0.5, 1, -1}}};
    int set = vf_concrete(vf_int("set", 0, TQ(1, 3))), ss = vf_concrete(vf_int("senses", 0, TQ(5, 26)));
    static const int Q6[6][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {0, 0, 2}, {2, 2, 0}, {1, 0, 2}};
    int sn[3] = {TQ(Q6[ss % 6][0], ss % 3), TQ(Q6[ss % 6][1], ss / 3 % 3), TQ(Q6[ss % 6][2], ss / 9)};
    for (int i = 0; i < 3; i++) R.rows.push_back({{CS[set][i][0], CS[set][i][1], CS[set][i][2]}, CS[set][i][3], sn[i]});
    R.obj = {1, -2, 0.5}; R.obj0 = 3;
    auto& g = m.create_constraints("g", 2);
    g(0) = vf_cons(vf_expr(R.rows[0].c, R.rows[0].k, x), sn[0]);
    g(1) = vf_cons(vf_expr(R.rows[1].c, R.rows[1].k, x), sn[1]);
    auto& h = m.create_constraint("h", vf_cons(vf_expr(R.rows[2].c, R.rows[2].k, x), sn[2]));
    int kind = vf_concrete(vf_int("objective", 0, 3));
    if (kind == 0) { vf_reach("min"); m.minimize(vf_expr(R.obj, R.obj0, x)); }
    if (kind == 1) { vf_reach("max"); m.maximize(vf_expr(R.obj, R.obj0, x)); }
    if (kind == 2) { vf_reach("none"); R.obj = {0, 0, 0}; R.obj0 = 0; }
    if (kind == 3) { vf_reach("func"); m.maximize(m.create_expression("e", vf_expr(R.obj, R.obj0, x))); }
    double sign = kind == 1 || kind == 3 ? -1 : 1;
    option::Option o; vf_no_presolve(o);
    o.penalty.initial_penalty_coefficient = 100; o.penalty.is_enabled_shrink_penalty_coefficient = false;
    std::vector<int> v = {vf_int("x0", -V, V), vf_int("x1", -V, V), vf_int("x2", -V, V)};
    for (int j = 0; j < 3; j++) x(j) = v[j];
    m.setup(o, false);
    IPCons* cs[3] = {&g(0), &g(1), &h(0)};
    double lp[3] = {2, 3, 5};
    for (int i = 0; i < 3; i++) { cs[i]->local_penalty_coefficient_less() = lp[i]; cs[i]->local_penalty_coefficient_greater() = lp[i] + 1; }
    if (set == 1 && ss == 4) { vf_reach("disabled"); g(1).disable(); m.categorize_constraints(); R.rows[1] = {{0, 0, 0}, 0, 1}; }
    m.update();
    int nv = vf_concrete(vf_int("moved", 0, 3));
    IPMove mv;
    std::vector<int> w = v;
    for (int j = 0; j < nv; j++) { w[j] = vf_int(j == 0 ? "y0" : j == 1 ? "y1" : "y2", -V, V); mv.alterations.emplace_back(&x[j], w[j]); }
    auto s = m.evaluate(mv);
    double tot = 0, loc = 0;
    bool better = false;
    for (int i = 0; i < 3; i++) {
        double r = R.row(i, w), r0 = R.row(i, v);
        if (R.rows[i].s != 2 && r > 0) { tot += r; loc += lp[i] * r; }
        if (R.rows[i].s != 0 && r < 0) { tot -= r; loc -= (lp[i] + 1) * r; }
        if (R.rows[i].s != 2 && r0 > 0 && r < r0) better = true;
        if (R.rows[i].s != 0 && r0 < 0 && r > r0) better = true;
    }
    double ob = sign * R.objective(w);
    vf_assert(s.objective == ob, "objective of the score, in minimisation sense");
    vf_assert(s.objective_improvement == sign * R.objective(v) - ob, "objective improvement");
    vf_assert(s.total_violation == tot, "total violation is the sum of the violations of the active constraints");
    vf_assert(s.local_penalty == loc, "local penalty");
    vf_assert(s.global_penalty == 100 * tot, "global penalty");
    vf_assert(s.local_augmented_objective == ob + loc && s.global_augmented_objective == ob + 100 * tot, "augmented objectives");
    vf_assert(s.is_feasible == (tot == 0), "feasible exactly when no constraint is violated");
    vf_assert(s.is_objective_improvable == (sign * R.objective(v) > ob), "objective improvable flag");
    vf_assert(s.is_feasibility_improvable == better, "feasibility improvable flag");
    if (tot == 0) vf_reach("feasible"); else vf_reach("infeasible");
    // the stored state is the one of the current point
    vf_assert(m.objective().value() == R.objective(v), "stored objective value");
    vf_assert(m.is_feasible() == R.feasible(v), "stored feasibility");
}
