/*META
{"bounds": ["whole solver runs of 4-variable models (a sum-to-one row over binaries, knapsack-like, equality and ordering rows, 6 patterns), any right-hand side in [-2,2], any initial values of two variables, minimise and maximise with positive and negative objective values, with each of: local search, Lagrange dual, selections, online bounding, feasible-solution archive, presolve off with all special neighbourhoods, fast evaluation off, target objective, a variable fixed by the user; 6 outer and 5 inner iterations; every point of the box as adversary (symbolic), everything else enumerated by forking"],
 "assumptions": ["message text decides nothing", "the clock stands still"],
 "reach": ["feasible","infeasible","optimal","maximise","local search","lagrange","selection","online","store","special","slow","target","fixed","stored"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    vf_opaque_text();
    static const double C[6][2][4] = {{{1, 1, 1, 0}, {2, -1, 0, 1}}, {{2, 1, 3, 1}, {0, 1, -1, 0}}, {{1, -1, 0, 0}, {0, 1, 1, 1}}, {{1, 1, 1, 1}, {1, 0, -1, 0}}, {{-1, 2, 1, -2}, {1, 1, 0, 0}}, {{1, 1, -2, 0}, {0, 0, 1, 1}}};
    static const int S[6][2] = {{1, 0}, {0, 2}, {0, 1}, {1, 2}, {2, 0}, {1, 0}};
    static const double O[4][4] = {{1, 2, -1, 3}, {-1, -2, -1, -3}, {2, -3, 0, 1}, {1, 2, 1, 0.5}};
    static const char* PN[4] = {"p0", "p1", "p2", "p3"};
    int cfg = vf_concrete(vf_int("option", 0, 8)), c = vf_concrete(vf_int("pattern", 0, 5)), mx = vf_concrete(vf_int("maximise", 0, 1));
    int q = vf_concrete(vf_int("objective", 0, 3)), lo = 0, hi = (c == 0 || c == 3) ? 1 : 2;
    IPModel m("m"); option::Option o; RefModel R; R.n = 4;
    auto& v = m.create_variables("x", 4, lo, hi);
    int k0 = c == 0 || c == 3 ? -1 : vf_concrete(vf_int("k0", -2, 2));
    R.rows.push_back({{C[c][0][0], C[c][0][1], C[c][0][2], C[c][0][3]}, (double)k0, S[c][0]});
    R.rows.push_back({{C[c][1][0], C[c][1][1], C[c][1][2], C[c][1][3]}, (double)vf_concrete(vf_int("k1", -1, 1)), S[c][1]});
    R.obj = {O[q][0], O[q][1], O[q][2], O[q][3]}; R.obj0 = c % 2 ? -7 : 2; R.minimize = !mx;
    auto& g = m.create_constraints("g", 2);
    for (int i = 0; i < 2; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    IPExpr e = vf_expr(R.obj, R.obj0, v);
    if (mx) { m.maximize(e); vf_reach("maximise"); } else m.minimize(e);
    int t0 = vf_concrete(vf_int("x0", lo, hi)), t1 = vf_concrete(vf_int("x1", lo, hi));
    v(0) = t0; v(1) = t1;
    o.output.verbose = option::verbose::Off;
    o.general.iteration_max = 6;
    o.tabu_search.iteration_max = 5;
    o.preprocess.is_enabled_online_bounding = false;
    int fx = -1; double target = 0;
    switch (cfg) {
        case 0: o.local_search.is_enabled = true; o.local_search.iteration_max = 5; vf_reach("local search"); break;
        case 1: o.lagrange_dual.is_enabled = true; o.lagrange_dual.iteration_max = 1 + 3 * (c % 3); o.lagrange_dual.queue_size = 2; vf_reach("lagrange"); break;
        case 2: o.neighborhood.selection_mode = option::selection_mode::Defined; vf_reach("selection"); break;
        case 3: o.preprocess.is_enabled_online_bounding = true; o.general.iteration_max = 8; o.tabu_search.iteration_max = 2; vf_reach("online"); break;
        case 4: o.output.is_enabled_store_feasible_solutions = true; vf_reach("store"); break;
        case 5: o.preprocess.is_enabled_presolve = false; o.neighborhood.is_enabled_chain_move = o.neighborhood.is_enabled_two_flip_move = true; vf_reach("special"); break;
        case 6: o.general.is_enabled_fast_evaluation = false; vf_reach("slow"); break;
        case 7: target = c - 3; o.general.target_objective_value = target; vf_reach("target"); break;
        case 8: fx = (c + mx) % 4; v(fx).fix_by(fx < 2 ? (fx == 0 ? t0 : t1) : (c % 2)); o.neighborhood.selection_mode = c % 2 ? option::selection_mode::Larger : option::selection_mode::Off; vf_reach("fixed"); break;
    }
    int fv = fx < 0 ? 0 : v(fx).value();
    solver::IPSolver sv(&m, o);
    std::vector<int> p(4);
    for (int j = 0; j < 4; j++) p[j] = j == fx ? fv : vf_int(PN[j], lo, hi);
    int pfeas = vf_sat_ref(R, p);
    solver::Result<int, double> r;
    try { r = sv.solve(); } catch (std::logic_error&) { vf_assert(!pfeas, "a model with a solution is rejected"); return; }
    std::vector<int> x(4);
    for (int j = 0; j < 4; j++) x[j] = r.solution.variables("x").values(j);
    // a variable eliminated by an equation may leave its bounds, which makes the solution infeasible
    int out = 0;
    for (int j = 0; j < 4; j++) {
        auto sense = v(j).sense();
        int dep = sense == model_component::VariableSense::DependentBinary || sense == model_component::VariableSense::DependentInteger, in = (lo <= x[j]) & (x[j] <= hi);
        vf_assert(in | dep, "a reported value is outside its bounds");
        out |= !in;
    }
    if (out) { vf_reach("eliminated variable outside"); vf_assert(!r.solution.is_feasible(), "a solution outside the bounds is called feasible"); }
    if (fx >= 0) vf_assert(x[fx] == fv, "a fixed variable changed its value");
    int ok = vf_sat_ref(R, x) & !out;
    vf_assert((r.solution.is_feasible() != 0) == (ok != 0), "the reported feasibility is wrong");
    vf_assert(r.solution.objective() == R.objective(x), "the reported objective is wrong");
    if (cfg == 5) vf_assert(r.solution.total_violation() == R.total(x), "the reported violation is wrong");
    else vf_assert(r.solution.is_feasible() ? r.solution.total_violation() == 0 : r.solution.total_violation() >= R.total(x), "the reported violation is wrong");
    vf_assert(r.status.is_found_feasible_solution == (r.solution.is_feasible() != 0), "status and solution disagree on feasibility");
    vf_reach(r.solution.is_feasible() ? "feasible" : "infeasible");
    for (int i = 0; i < 2; i++) vf_assert(r.solution.constraints("g").values(i) == R.row(i, x) - 0, "a reported constraint value");
    double sgn = mx ? -1 : 1;
    auto& H = sv.global_state().incumbent_holder;
    double bound = H.dual_bound();
    vf_assert(!pfeas | (sgn * bound <= sgn * R.objective(p) + 1e-6), "the dual bound cuts off a solution");
    if (H.is_found_feasible_solution()) vf_assert(sgn * H.feasible_incumbent_objective() == R.objective(x), "the incumbent objective is not that of the reported solution");
    auto ts = sv.tabu_search_controller().result().state.tabu_search_result.termination_status;
    using T = solver::tabu_search::core::TabuSearchCoreTerminationStatus;
    if (ts == T::OPTIMAL) {
        vf_reach("optimal");
        vf_assert(r.solution.is_feasible(), "an infeasible solution is called optimal");
        vf_assert(!pfeas | (sgn * r.solution.objective() <= sgn * R.objective(p)), "a solution called optimal is beaten");
    }
    if (cfg == 4) {
        auto& A = sv.global_state().feasible_solution_archive.solutions();
        double last = 0; int first = 1;
        for (auto& s : A) {
            std::vector<int> w(4);
            for (int j = 0; j < 4; j++) { auto it = s.variables.find(v(j).name()); w[j] = it == s.variables.end() ? 0 : it->second; }
            vf_assert(s.is_feasible && vf_sat_ref(R, w), "a stored solution is not feasible");
            vf_assert(s.objective == R.objective(w), "the objective of a stored solution");
            vf_assert(first | (sgn * last <= sgn * s.objective), "stored solutions are not in order");
            last = s.objective; first = 0; vf_reach("stored");
        }
        if (!A.empty()) vf_assert(r.solution.is_feasible() && sgn * r.solution.objective() <= sgn * A[0].objective, "a stored solution is better than the reported one");
    }
}
