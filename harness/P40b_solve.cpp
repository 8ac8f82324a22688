/*META
{"bounds": ["whole solver runs (relaxation, Lagrange phase, local search, tabu search with 3 loops of 6 iterations) on models of 4 variables and 2 or 3 rows, minimised or maximised: every start point in {0,1}^2 for two of the variables, 3 right-hand sides, each phase on and off, fast and ordinary evaluation, selection moves on and off, fixed and automatic thread numbers; teams of 2 and 3 members run forwards and backwards against a run without threads"],
 "assumptions": ["the members of a team run one after another; accesses by the C++ library's own compiled code (strings, streams) are not seen", "the clocks stand still"],
 "omp": true,
 "reach": ["teams","same","feasible","tabu","local","lagrange","relaxation","ordinary","automatic","selection"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
struct Out { double obj, vio; bool feas; int v[4]; long moves, tabu_it, lag_it, loc_it, up, ev; double tu, te; };
struct Cfg { int kind, rhs, x0, x1, phases, ordinary, automatic, mx, sel; };
static Out once(const Cfg& c, int T) {
    IPModel m("m");
    auto& v = m.create_variables("x", 4, 0, c.kind ? 3 : 1);
    if (c.kind == 0) { m.create_constraint("p", v(0) + v(1) + v(2) == 1); m.create_constraint("k", 2 * v(0) + 3 * v(1) + v(2) + 2 * v(3) <= 2 + c.rhs); }
    else { m.create_constraint("a", v(0) + v(1) - 2 * v(2) >= c.rhs - 1); m.create_constraint("b", 2 * v(0) + v(1) + v(2) + v(3) <= 4 + c.rhs); m.create_constraint("e", v(2) - v(3) == 1); }
    auto e = 2 * v(0) - v(1) + 3 * v(2) - 2 * v(3) + 1;
    if (c.mx) m.maximize(e); else m.minimize(e);
    v(0) = c.x0; v(1) = c.x1; v(2) = 0; v(3) = 1;
    option::Option o;
    o.output.verbose = option::verbose::Off;
    o.preprocess.is_enabled_presolve = false;
    o.neighborhood.selection_mode = c.sel ? option::selection_mode::Defined : option::selection_mode::Off;
    o.neighborhood.is_enabled_aggregation_move = o.neighborhood.is_enabled_precedence_move = o.neighborhood.is_enabled_variable_bound_move = o.neighborhood.is_enabled_soft_selection_move = true;
    o.pdlp.is_enabled = c.phases & 1; o.lagrange_dual.is_enabled = (c.phases >> 1) & 1; o.local_search.is_enabled = (c.phases >> 2) & 1;
    o.pdlp.iteration_max = 30; o.lagrange_dual.iteration_max = 5; o.local_search.iteration_max = 5; o.tabu_search.iteration_max = 6; o.general.iteration_max = 3;
    o.general.is_enabled_fast_evaluation = !c.ordinary;
    o.parallel.is_enabled_move_update_parallelization = o.parallel.is_enabled_move_evaluation_parallelization = T > 1;
    o.parallel.is_enabled_automatic_move_update_parallelization = o.parallel.is_enabled_automatic_move_evaluation_parallelization = c.automatic;
    o.parallel.number_of_threads_move_update = T; o.parallel.number_of_threads_move_evaluation = T;
    solver::IPSolver sv(&m, o);
    auto r = sv.solve();
    Out q; q.obj = r.solution.objective(); q.vio = r.solution.total_violation(); q.feas = r.solution.is_feasible();
    for (int j = 0; j < 4; j++) q.v[j] = r.solution.variables("x").values(j);
    q.tabu_it = r.status.number_of_tabu_search_iterations; q.lag_it = r.status.number_of_lagrange_dual_iterations; q.loc_it = r.status.number_of_local_search_iterations;
    q.up = r.status.number_of_tabu_search_loops; q.ev = r.status.number_of_evaluated_moves;
    q.tu = r.status.averaged_number_of_threads_move_update; q.te = r.status.averaged_number_of_threads_move_evaluation;
    return q;
}
extern "C" void vf_harness() {
    Cfg c;
    c.kind = vf_concrete(vf_int("model", 0, 1)); c.rhs = vf_concrete(vf_int("rhs", 0, 2)); c.x0 = vf_concrete(vf_int("x0", 0, 1)); c.x1 = vf_concrete(vf_int("x1", 0, 1));
    c.phases = vf_concrete(vf_int("phases", 0, 7)); c.mx = vf_concrete(vf_int("maximize", 0, 1));
    int var = vf_concrete(vf_int("variant", 0, 3));
    c.ordinary = var == 1; c.automatic = var == 2; c.sel = var == 3;
    int T = vf_concrete(vf_int("threads", 2, 3)), back = vf_concrete(vf_int("backwards", 0, TQ(0, 1)));
    if (!TQ(0, 1)) back = (c.rhs + c.x0) & 1;
    vf_team(1, 0);
    Out A = once(c, 1);
    vf_team(c.automatic ? T : 5 - T, back);
    int before = vf_teams();
    Out B = once(c, T);
    vf_assert(vf_races() == 0, "threads touch the same data");
    if (vf_teams() > before) vf_reach("teams");
    vf_assert(A.obj == B.obj && A.vio == B.vio && A.feas == B.feas, "the objective value or the feasibility depends on the number of threads");
    for (int j = 0; j < 4; j++) vf_assert(A.v[j] == B.v[j], "the solution depends on the number of threads");
    vf_assert(A.tabu_it == B.tabu_it && A.lag_it == B.lag_it && A.loc_it == B.loc_it && A.up == B.up && A.ev == B.ev, "the search depends on the number of threads");
    if (!c.automatic && B.tabu_it > 0) { vf_assert(B.tu == T && B.te == T, "the search does not use the number of threads asked for"); }
    vf_reach("same");
    if (A.feas) vf_reach("feasible");
    if (A.tabu_it) vf_reach("tabu");
    if (A.loc_it) vf_reach("local");
    if (A.lag_it) vf_reach("lagrange");
    if (c.phases & 1) vf_reach("relaxation");
    if (c.ordinary) vf_reach("ordinary");
    if (c.automatic) vf_reach("automatic");
    if (c.sel) vf_reach("selection");
}
