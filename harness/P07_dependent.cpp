/*META
{"bounds": ["models of 3 variables with 1 or 2 defining equations from 9 shapes (sums, differences, ratios, exclusive or/nor, a defined total), coefficients +-1, 2, 3, 0.5 and constants in [-2,2], one or two further rows and an objective over all variables; any variable bounds lb in [-2,0], ub in [0,2] of the defined variable (and no bounds at all); every point within the bounds, and the value of every eliminated variable after any assignment of the others"],
 "assumptions": ["dyadic coefficients and the coefficient 3"],
 "reach": ["extracted","none","two","rejected","solution","value","binary","anywhere"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    IPModel m("m");
    option::Option o;
    RefModel R;
    R.n = 3;
    //                                x0    x1   x2
    static const double D[13][2][3] = {{{1, 1, 0}, {0, 0, 0}},      // sum / exclusive or
                                      {{1, -1, 0}, {0, 0, 0}},     // difference / exclusive nor
                                      {{-1, 1, 0}, {0, 0, 0}},
                                      {{1, -2, 0}, {0, 0, 0}},     // ratio
                                      {{2, -1, 0}, {0, 0, 0}},
                                      {{1, 1, -1}, {0, 0, 0}},     // defined total
                                      {{1, 0.5, -1}, {0, 0, 0}},
                                      {{1, 1, 0}, {0, 1, 1}},      // two definitions, chained
                                      {{1, -1, 0}, {1, 1, -1}},
                                      {{1, 1, 0}, {1, -1, 0}},     // two definitions over the same pair
                                      {{-1, -1, 0}, {0, 1, -1}},
                                      {{3, 1, 0}, {0, 0, 0}}, {{1, -1.5, 0}, {0, 0, 0}}};
    int d = vf_concrete(vf_int("shape", 0, 12));
    int bin = vf_concrete(vf_int("binary", 0, 1));
    double k0 = vf_int("k0", -2, 3) * 0.5; int k1 = (d >= 7 && d <= 10) ? vf_int("k1", -1, 1) : 0;
    int cfg = vf_concrete(vf_int("config", 0, 1));
    static const char* PN[4] = {"p0", "p1", "p2", "p3"};
    std::vector<int> lb(3), ub(3);
    auto& v = m.create_variables("x", 3, -5, 5);
    if (bin) vf_reach("binary");
    for (int j = 0; j < 3; j++) {
        lb[j] = bin && j < 2 ? 0 : j == 2 && bin ? -3 : j == 0 ? -2 : j == 1 ? vf_int("lb", -2, 0) : -3; ub[j] = bin && j < 2 ? 1 : j == 1 ? vf_int("ub", 0, 2) : 3;
        v(j).set_bound(lb[j], ub[j]);
    }
    R.rows.push_back({{D[d][0][0], D[d][0][1], D[d][0][2]}, (double)k0, 1});
    if (D[d][1][1] != 0) { vf_reach("two"); R.rows.push_back({{D[d][1][0], D[d][1][1], D[d][1][2]}, (double)k1, 1}); }
    R.rows.push_back({{1, 2, 1}, -4, 0});
    if (cfg) R.rows.push_back({{1, -1, 1}, 1, 2});
    R.obj = {1, -2, 0.5};
    auto& g = m.create_constraints("g", (int)R.rows.size());
    for (int i = 0; i < (int)R.rows.size(); i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    m.minimize(vf_expr(R.obj, 0, v));
    o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = true;
    o.neighborhood.selection_mode = option::selection_mode::Off;
    bool thrown = false;
    try { m.setup(o, false); } catch (std::exception&) { thrown = true; }
    std::vector<int> p(3);
    for (int j = 0; j < 3; j++) p[j] = vf_int(PN[j], -3, 3);
    int orig = vf_sat_ref(R, p);
    for (int j = 0; j < 3; j++) orig &= (lb[j] <= p[j]) & (p[j] <= ub[j]);
    if (thrown) { vf_reach("rejected"); vf_assert(!orig, "a model that has a solution is not rejected"); return; }
    std::unordered_map<const IPVar*, int> at;
    for (int j = 0; j < 3; j++) at[&v(j)] = p[j];
    int nd = 0;
    for (int j = 0; j < 3; j++) if (v(j).dependent_expression_ptr()) nd++;
    vf_reach(nd ? "extracted" : "none");
    int red = vf_sat_model(m, at);
    vf_assert(!red | orig, "a point of the reduced model is a solution of the original model");
    vf_assert(!orig | red, "a solution of the original model is lost by the elimination");
    auto& e = m.objective().expression();
    double f = vf_eval_at(e.sensitivities(), e.constant_value(), at);
    vf_assert(!orig | (f == R.objective(p)), "the objective at a solution is changed by the elimination");
    vf_reach("solution");
    // what the solver reports for eliminated variables after the others are set
    if (nd == 0) return;
    if (vf_concrete(vf_int("anywhere", 0, 1))) {   // any values of the remaining variables: what is reported is judged on the original model
        for (int j = 0; j < 3; j++) vf_assume((v(j).lower_bound() <= p[j]) & (p[j] <= v(j).upper_bound()));
        for (int j = 0; j < 3; j++) if (!v(j).dependent_expression_ptr() && !v(j).is_fixed()) v(j) = p[j];
        m.update();
        vf_reach("anywhere");
        std::vector<int> w(3);
        for (int j = 0; j < 3; j++) w[j] = v(j).value();
        int ok = vf_sat_ref(R, w);
        for (int j = 0; j < 3; j++) ok &= (lb[j] <= w[j]) & (w[j] <= ub[j]);
        vf_assert(!m.is_feasible() | ok, "a point reported feasible is a solution of the original model");
        vf_assert(!m.is_feasible() | (m.objective().value() == R.objective(w)), "the objective reported for a feasible point");
        return;
    }
    vf_assume(orig);
    for (int j = 0; j < 3; j++) if (!v(j).dependent_expression_ptr() && !v(j).is_fixed()) v(j) = p[j];
    m.update();
    vf_reach("value");
    for (int j = 0; j < 3; j++) vf_assert(v(j).value() == p[j], "the value reported for an eliminated variable");
    vf_assert(m.objective().value() == R.objective(p), "the objective value after the elimination");
    vf_assert(m.is_feasible(), "a solution is reported infeasible after the elimination");
}
