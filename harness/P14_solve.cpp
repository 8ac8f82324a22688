/*META
{"bounds": ["whole solver runs (set-up, preprocessing, tabu search, result) of models with 3 variables (binary, [0,2] or [-1,1]) and 2 rows from 8 coefficient patterns, every sense, any right-hand side in [-3,3], any initial values, minimise and maximise; 2 outer and 3 inner iterations; every candidate point of the box as adversary"],
 "assumptions": ["message text decides nothing", "the clock stands still"],
 "reach": ["feasible","infeasible","optimal","maximise","integer","binary"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    vf_opaque_text();
    IPModel m("m");
    option::Option o;
    RefModel R;
    R.n = 3;
    static const double C[8][2][3] = {{{1, 1, 1}, {1, -1, 0}}, {{2, 1, 0}, {0, 1, 2}}, {{1, 2, 3}, {0, 0, 0}}, {{1, -1, 1}, {1, 1, 1}}, {{-1, -1, 2}, {0, 0, 0}}, {{1, 1, 0}, {0, 1, 1}}, {{3, -2, 1}, {1, 0, 1}}, {{1, 0.5, -1}, {0, 0, 0}}};
    static const double O[4][3] = {{1, 2, -1}, {-1, -1, -1}, {2, -3, 0}, {1, 0.5, 1}};
    static const int S[4][2] = {{0, 2}, {2, 0}, {1, 0}, {0, 1}};
    static const char* XN[3] = {"x0", "x1", "x2"}; static const char* PN[3] = {"p0", "p1", "p2"};
    int c = vf_concrete(vf_int("pattern", 0, 7)), s = vf_concrete(vf_int("senses", 0, 3));
    int q = TQ((c + s) % 4, vf_concrete(vf_int("objective", 0, 3)));
    int mx = TQ((c * 3 + s) % 2, vf_concrete(vf_int("maximise", 0, 1)));
    int dom = TQ((c + 2 * s + s / 2) % 3, vf_concrete(vf_int("domain", 0, 2)));
    int lo = dom == 2 ? -1 : 0, hi = dom == 1 ? 2 : 1;
    vf_reach(dom ? "integer" : "binary");
    auto& v = m.create_variables("x", 3, lo, hi);
    R.rows.push_back({{C[c][0][0], C[c][0][1], C[c][0][2]}, (double)vf_int("k0", -3, 3), S[s][0]});
    if (C[c][1][0] != 0 || C[c][1][1] != 0 || C[c][1][2] != 0) R.rows.push_back({{C[c][1][0], C[c][1][1], C[c][1][2]}, (double)vf_int("k1", -2, 1), S[s][1]});
    R.obj = {O[q][0], O[q][1], O[q][2]}; R.obj0 = 3; R.minimize = !mx;
    auto& g = m.create_constraints("g", (int)R.rows.size());
    for (int i = 0; i < (int)R.rows.size(); i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    IPExpr e = vf_expr(R.obj, R.obj0, v);
    if (mx) { m.maximize(e); vf_reach("maximise"); } else m.minimize(e);
    for (int j = 0; j < 2; j++) { int t = vf_int(XN[j], lo, hi); v(j) = t; }
    o.output.verbose = option::verbose::Off;
    o.general.iteration_max = 2;
    o.tabu_search.iteration_max = 3;
    solver::IPSolver sv(&m, o);
    std::vector<int> p(3);
    for (int j = 0; j < 3; j++) p[j] = vf_int(PN[j], lo, hi);
    int pfeas = vf_sat_ref(R, p);
    solver::Result<int, double> r;
    try { r = sv.solve(); } catch (std::logic_error&) { vf_assert(!pfeas, "a model with a solution is rejected"); return; }
    std::vector<int> x(3);
    for (int j = 0; j < 3; j++) x[j] = r.solution.variables("x").values(j);
    for (int j = 0; j < 3; j++) vf_assert((lo <= x[j]) & (x[j] <= hi), "a reported value is outside its bounds");
    int ok = vf_sat_ref(R, x);
    vf_assert((r.solution.is_feasible() != 0) == (ok != 0), "the reported feasibility is wrong");
    vf_assert(r.solution.objective() == R.objective(x), "the reported objective is wrong");
    vf_assert(r.status.is_found_feasible_solution == (r.solution.is_feasible() != 0), "status and solution disagree on feasibility");
    vf_reach(r.solution.is_feasible() ? "feasible" : "infeasible");
    if (!r.solution.is_feasible()) vf_assert(r.solution.total_violation() > 0, "an infeasible solution without violation");
    // claims of optimality
    double sgn = mx ? -1 : 1;
    double bound = sv.global_state().incumbent_holder.dual_bound();
    vf_assert(!pfeas | (sgn * bound <= sgn * R.objective(p)), "the dual bound cuts off a solution");
    if (sv.tabu_search_controller().result().state.tabu_search_result.termination_status == solver::tabu_search::core::TabuSearchCoreTerminationStatus::OPTIMAL) {
        vf_reach("optimal");
        vf_assert(r.solution.is_feasible(), "an infeasible solution is called optimal");
        vf_assert(!pfeas | (sgn * r.solution.objective() <= sgn * R.objective(p)), "a solution called optimal is beaten");
    }
}
