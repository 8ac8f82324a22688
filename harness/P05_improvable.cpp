/*META
{"bounds": ["models of 3 variables and 2 rows from 6 coefficient patterns (zeros, +-1, 2, -3, 0.5), every sense, any right-hand side in [-3,3], minimise and maximise, any bounds of one variable within [-2,2], any point, any one fixed variable, any move of one or two variables, an equation that eliminates a variable and cancels an objective coefficient"],
 "assumptions": ["dyadic coefficients and the coefficient 3"],
 "reach": ["full","moved","objective","feasibility","violated","feasible","fixed","maximise","eliminated","multi"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
static void judge(IPModel& m, RefModel& R, std::vector<IPVar*>& V, bool feas_known) {
    std::vector<int> x(R.n);
    for (int j = 0; j < R.n; j++) x[j] = V[j]->value();
    for (int j = 0; j < R.n; j++) {
        if (V[j]->is_fixed() || V[j]->dependent_expression_ptr()) continue;
        int up = x[j] < V[j]->upper_bound(), dn = x[j] > V[j]->lower_bound();
        double c = R.minimize ? R.obj[j] : -R.obj[j];
        int io = c > 0 ? dn : c < 0 ? up : 0;
        vf_reach("objective");
        vf_assert((V[j]->is_objective_improvable() != 0) == (io != 0), "objective improvability");
        if (!feas_known) continue;
        int fi = 0;
        for (size_t i = 0; i < R.rows.size(); i++) if (R.rows[i].c[j] != 0) {
            double v = R.row(i, x), a = R.rows[i].c[j];
            int hi = (R.rows[i].s != 2) & (v > 0), lo = (R.rows[i].s != 0) & (v < 0);
            fi |= (hi & (a > 0 ? dn : up)) | (lo & (a > 0 ? up : dn));
        }
        vf_reach("feasibility");
        vf_assert((V[j]->is_feasibility_improvable() != 0) == (fi != 0), "feasibility improvability");
    }
}
extern "C" void vf_harness() {
    IPModel m("m");
    option::Option o;
    RefModel R;
    R.n = 3;
    static const double C[6][2][3] = {{{1, 2, 0}, {0, -1, 1}}, {{-3, 1, 0.5}, {1, 0, 0}}, {{1, 1, 1}, {-1, -1, 2}}, {{0.5, -1, -1}, {2, 1, 0}}, {{0, 0, 1}, {1, -1, 0}}, {{1, -2, 1}, {-1, 1, -0.5}}};
    static const double O[3][3] = {{1, -2, 0}, {-1, 0.5, 1}, {0, 0, -1}};
    int elim = vf_concrete(vf_int("eliminate", 0, 1));
    int p = vf_concrete(vf_int("pattern", 0, 5)), s0 = vf_concrete(vf_int("s0", 0, 2));
    int mx = TQ((p + s0) % 2, vf_concrete(vf_int("maximise", 0, 1)));
    static const char* XN[3] = {"x0", "x1", "x2"}; static const char* KN[2] = {"k0", "k1"};
    R.minimize = !mx; if (mx) vf_reach("maximise");
    auto& v = m.create_variables("x", 3, -2, 2);
    std::vector<IPVar*> V;
    for (int j = 0; j < 3; j++) V.push_back(&v(j));
    int s1 = (s0 + 1 + p) % 3;
    if (elim) { vf_assume(p < 3); vf_assume(s0 == 0); }
    int lb = TQ(p % 2, 1) ? vf_int("lb", -2, 0) : -1, ub = TQ(p % 2 == 0, 1) ? vf_int("ub", 0, 2) : 1;
    vf_assume(lb < ub);
    v(1).set_bound(lb, ub);
    for (int i = 0; i < 2; i++) R.rows.push_back({{C[p][i][0], C[p][i][1], C[p][i][2]}, (double)vf_int(KN[i], TQ(i ? -1 : -3, -3), TQ(i ? 0 : 3, 3)), i ? s1 : s0});
    R.obj = {O[p % 3][0], O[p % 3][1], O[p % 3][2]};
    auto& g = m.create_constraints("g", 2);
    for (int i = 0; i < 2; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    if (!elim) vf_no_presolve(o);
    o.neighborhood.selection_mode = option::selection_mode::Off;
    if (elim) {
        // x2 = x1 + x0 - 1 is defined by an equation; the objective coefficient of x1 cancels in one of the cases
        R.obj = {1, p == 0 ? 1.0 : 2.0, -1};
        auto& d = m.create_constraint("d");
        d = v(0) + v(1) - v(2) == 1;
        o.preprocess.is_enabled_extract_dependent_intermediate = true;
    }
    IPExpr e = vf_expr(R.obj, 1, v);
    if (mx) m.maximize(e); else m.minimize(e);
    int fx = elim ? 0 : TQ(p == 2 || p == 5, vf_concrete(vf_int("fixed", 0, 1)));
    if (fx) { v(0).fix_by(1); vf_reach("fixed"); }
    try { m.setup(o, false); } catch (std::exception&) { return; }
    if (elim) {
        IPVar* dep = nullptr; int dj = -1;
        for (int j = 0; j < 3; j++) if (V[j]->dependent_expression_ptr()) { dep = V[j]; dj = j; }
        if (!dep) return;
        vf_reach("eliminated");
        // judge against the model with the definition substituted
        double sgn[3] = {1, 1, -1};     // sgn.x - 1 = 0
        auto sub = [&](std::vector<double>& c, double& k) { double q = c[dj] / sgn[dj]; for (int j = 0; j < 3; j++) c[j] -= q * sgn[j]; k += q; };
        for (auto& r : R.rows) sub(r.c, r.k);
        double k = 0; sub(R.obj, k);
        // the eliminated variable's bounds are rows now
        double lo = dep->lower_bound(), hi = dep->upper_bound();
        std::vector<double> c(3); for (int j = 0; j < 3; j++) c[j] = j == dj ? 0 : -sgn[j] / sgn[dj];
        R.rows.push_back({c, 1 / sgn[dj] - hi, 0});
        R.rows.push_back({c, 1 / sgn[dj] - lo, 2});
    }
    for (int j = 0; j < 3; j++) if (!v(j).is_fixed() && !v(j).dependent_expression_ptr()) {
        int t = vf_int(XN[j], -2, 2);
        vf_assume((v(j).lower_bound() <= t) & (t <= v(j).upper_bound()));
        v(j) = t;
    }
    m.update();
    vf_reach(m.is_feasible() ? "feasible" : "violated");
    m.update_variable_objective_improvabilities();
    m.reset_variable_feasibility_improvabilities();
    int how = TQ(s0 == 1, vf_concrete(vf_int("how", 0, 1)));
    if (how) m.update_variable_feasibility_improvabilities(); else m.update_variable_feasibility_improvabilities(m.current_violative_constraint_ptrs());
    vf_reach("full");
    judge(m, R, V, true);
    if (elim || how) return;
    // after a move, only the moved variables' objective marks are refreshed
    IPMove mv;
    int nm = TQ(1 + (p + s0) % 2, vf_concrete(vf_int("nmove", 1, 2)));
    for (int q = 0; q < nm; q++) {
        int j = 2 - q; int t = vf_int(q ? "t1" : "t2", -2, 2);
        vf_assume((v(j).lower_bound() <= t) & (t <= v(j).upper_bound()));
        mv.alterations.emplace_back(V[j], t);
        for (auto* c : V[j]->related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
    }
    mv.is_univariable_move = nm == 1;
    if (nm == 2) vf_reach("multi");
    mv.sort_and_unique_related_constraint_ptrs();
    m.update(mv);
    m.update_variable_objective_improvabilities(mv.related_variable_ptrs_vector());
    m.reset_variable_feasibility_improvabilities();
    m.update_variable_feasibility_improvabilities(m.current_violative_constraint_ptrs());
    vf_reach("moved");
    judge(m, R, V, true);
}
