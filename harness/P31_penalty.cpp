/*META
{"bounds": ["the global penalty coefficient of models with 3 variables: every set of integral objective coefficients in [-3,3], bounds in [-4,4], integral and fractional constraints, initial coefficients 5 and 1000, every pair of points; whole solver runs of up to 6 loops with 1, 3 or 8 inner iterations on 7 models (feasible and infeasible, binary and integer, equations and inequalities, arrays of constraints), every start point, minimised and maximised, updating balance 0, 0.5 and 1, grouping on and off, simple and smart updates, stagnation thresholds 0 and 2, initial coefficients 10 and 1e7, presolve off"],
 "assumptions": ["whole runs are enumerated by forking, one path for each choice"],
 "reach": ["shrunk","not shrunk","tightened","relaxed","reset","grouped","infeasible"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
static void shrink() {
    IPModel m("m");
    int d = vf_concrete(vf_int("bounds", 0, 3));
    static const int LB[4][3] = {{0, 0, 0}, {-4, -1, 2}, {-2, 0, -3}, {1, -3, 0}}, UB[4][3] = {{1, 1, 1}, {-1, 3, 4}, {2, 1, 0}, {1, 4, 2}};
    bool mx = vf_concrete(vf_bool("maximize")), big = vf_concrete(vf_bool("large")), on = vf_concrete(vf_bool("shrink"));
    static const char* NM[3] = {"x", "y", "z"}, *CN[3] = {"cx", "cy", "cz"}, *PN[3] = {"px", "py", "pz"}, *QN[3] = {"qx", "qy", "qz"};
    double c[3], p = 2, q = 2;
    IPExpr e = IPExpr::create_instance();
    std::vector<IPVar*> v;
    for (int j = 0; j < 3; j++) v.push_back(&m.create_variable(NM[j], LB[d][j], UB[d][j])[0]);
    for (int j = 0; j < 3; j++) {
        c[j] = vf_concrete(vf_int(CN[j], TQ(-2, -3), TQ(2, 3)));
        if (c[j] == 0) continue;
        e += c[j] * (*v[j]);
        p += c[j] * vf_int(PN[j], LB[d][j], UB[d][j]);
        q += c[j] * vf_int(QN[j], LB[d][j], UB[d][j]);
    }
    e += 2;
    bool frac = vf_concrete(vf_bool("fractional"));
    m.create_constraint("r", (frac ? 0.25 : 1.0) * *v[0] + *v[1] <= 1);
    if (mx) m.maximize(e); else m.minimize(e);
    option::Option o; vf_no_presolve(o);
    double init = big ? 1000 : 5;
    o.penalty.initial_penalty_coefficient = init;
    o.penalty.is_enabled_shrink_penalty_coefficient = on;
    m.setup(o, false);
    double g = m.global_penalty_coefficient();
    vf_assert(g > 0 && g <= init, "the global penalty coefficient exceeds the given one");
    vf_assert((on && !frac) || g == init, "the global penalty coefficient is altered");
    if (g < init) { vf_reach("shrunk"); vf_assert((g > p - q) & (g > q - p), "a shrunk penalty coefficient does not outweigh the objective"); }
    else vf_reach("not shrunk");
    for (auto& pr : m.constraint_proxies()) for (auto& k : pr.flat_indexed_constraints())
        vf_assert(k.global_penalty_coefficient() == g, "the global penalty coefficient of a constraint");
}
extern "C" void vf_harness() {
    int sc = vf_scn(8);
    if (sc == 7) { shrink(); return; }
    IPModel m("m");
    bool mx = vf_concrete(vf_bool("maximize"));
    int x0 = vf_concrete(vf_int("x0", 0, 2)), y0 = vf_concrete(vf_int("y0", 0, 2));
    bool bin = sc == 0 || sc == 3;
    if (bin && (x0 > 1 || y0 > 1)) vf_skip();
    auto& x = m.create_variable("x", 0, bin ? 1 : 2);
    auto& y = m.create_variable("y", 0, bin ? 1 : 2);
    auto& z = m.create_variable("z", 0, 1);
    auto& g = m.create_constraints("g", 2);
    double s = mx ? -1 : 1;
    if (sc == 0) { g(0) = x + y + z == 2; g(1) = x - y <= 0; m.create_constraint("h", x + z >= 1); m.minimize(s * (3 * x + 2 * y + z)); }
    if (sc == 1) { g(0) = 2 * x + 3 * y == 5; g(1) = x - y >= 0; m.create_constraint("h", y + z <= 1); m.minimize(s * (x - 2 * y)); }
    if (sc == 2) { g(0) = x + y >= 3; g(1) = x - y <= 0; m.create_constraint("h", x + y <= 1); m.minimize(s * (x + y + z)); }   // infeasible
    if (sc == 3) { g(0) = 2 * x + 2 * y + 2 * z == 3; g(1) = x + y <= 1; m.create_constraint("h", y + z == 1); m.minimize(s * (x - y)); }   // infeasible
    if (sc == 4) { g(0) = 3 * x - 5 * y == 0; g(1) = x + y + z >= 1; m.create_constraint("h", 10 * x + 7 * y <= 24); m.minimize(s * (x + 4 * y - z)); }
    if (sc == 5) { g(0) = 5 * x + 5 * z <= 9; g(1) = 7 * x - y + 4 * z >= 6; m.create_constraint("h", x + y + z == 2); m.minimize(s * (50 * x - 40 * y)); }
    if (sc == 6) { g(0) = x + y + z >= 1; g(1) = 10 * x + 10 * y + 9 * z <= 8; m.create_constraint("h", 4 * x - 7 * y + 3 * z <= 5); m.minimize(s * (x + 2 * y)); }   // (0,0,0) violates the first row, the points around it others
    if (mx) m.maximize(-1.0 * m.objective().expression());
    x.set_value(x0); y.set_value(y0);
    option::Option o; vf_no_presolve(o);
    o.output.verbose = option::verbose::Off;
    int var = vf_concrete(vf_int("variant", 0, 5));
    static const int IN[3] = {1, 3, 8};
    o.general.iteration_max = TQ(6, 12);
    o.tabu_search.iteration_max = IN[vf_concrete(vf_int("inner", 0, 2))];
    o.tabu_search.is_enabled_initial_modification = var != 3;
    double init = vf_concrete(vf_bool("large")) ? 1e7 : 10;
    o.penalty.initial_penalty_coefficient = init;
    o.penalty.is_enabled_shrink_penalty_coefficient = var == 4;
    o.penalty.penalty_coefficient_updating_balance = var == 1 ? 1.0 : var == 2 ? 0.5 : 0.0;
    bool group = o.penalty.is_enabled_group_penalty_coefficient = var == 2 || var == 5;
    o.penalty.inner_stagnation_threshold = var >= 3 ? 0 : 2;
    o.penalty.outer_stagnation_threshold = var >= 3 ? 0 : 2;
    if (var == 5) o.tabu_search.tabu_mode = option::tabu_mode::Any;
    vf_fix_time(1000);
    solver::IPSolver sv(&m, o);
    std::vector<double> last;
    auto all = [&]() { std::vector<double> r; for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) { r.push_back(c.local_penalty_coefficient_less()); r.push_back(c.local_penalty_coefficient_greater()); } return r; };
    auto look = [&](solution::IncumbentHolder<int, double>* h, bool first) {
        auto now = all();
        double glob = m.global_penalty_coefficient();
        size_t k = 0;
        bool reset = !first;
        for (double v : now) reset = reset && v == glob;
        if (reset && last != now) vf_reach("reset");
        for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) {
            double l = now[k], g2 = now[k + 1];
            vf_assert(std::isfinite(l) && std::isfinite(g2), "a penalty coefficient is not a finite number");
            vf_assert(l >= 0 && g2 >= 0, "a penalty coefficient is negative");
            vf_assert(l <= init && g2 <= init, "a penalty coefficient exceeds the initial one");
            vf_assert(c.global_penalty_coefficient() == glob, "the global penalty coefficient of a constraint");
            if (!first && !reset && !group) {
                double val = h->local_augmented_incumbent_solution().constraint_value_proxies[p.index()][c.flat_index()];
                bool over = val > 1e-5 && c.is_less_or_equal(), under = val < -1e-5 && c.is_greater_or_equal();
                vf_assert(l <= last[k] || over, "the coefficient of a satisfied constraint is raised");
                vf_assert(g2 <= last[k + 1] || under, "the coefficient of a satisfied constraint is raised");
                vf_assert(l >= last[k] || !over, "the coefficient of a violated constraint is lowered");
                vf_assert(g2 >= last[k + 1] || !under, "the coefficient of a violated constraint is lowered");
                if (l > last[k] || g2 > last[k + 1]) vf_reach("tightened");
                if (l < last[k] || g2 < last[k + 1]) vf_reach("relaxed");
            }
            if (!first && group && (l > last[k] || g2 > last[k + 1])) vf_reach("grouped");
            k += 2;
        }
        last = now;
    };
    bool first = true;
    m.set_callback([&](option::Option*, solution::IncumbentHolder<int, double>* h) { look(h, first); first = false; });
    auto r = sv.solve();
    if (!r.solution.is_feasible()) vf_reach("infeasible");
    for (auto& p : r.status.penalty_coefficients) for (double v : p.second.flat_indexed_values()) vf_assert(std::isfinite(v) && v >= 0 && v <= init, "a reported penalty coefficient");
    long up = 0;
    for (auto& p : r.status.update_counts) for (long v : p.second.flat_indexed_values()) { vf_assert(v >= 0, "a reported update count"); up += v; }
    for (auto& p : r.status.violation_counts) for (long v : p.second.flat_indexed_values()) vf_assert(v >= 0 && v <= r.status.number_of_tabu_search_iterations + 1000, "a reported violation count");
}
