/*META
{"bounds": ["whole solver runs on models with 2 integer variables in [0,3] (and 2 binaries), two rows, minimised or maximised: every start point (16); outer limit in {0,1,3}, inner limit in {0,1,4,12}; targets out of reach, reached by the start, in between; screening modes automatic, off, soft, aggressive, intensive; automatic iteration adjustment, curtailing of moves, automatic breaks, presolve on and off; local search and Lagrange phases with limits in {0,1,3}; clocks that advance by 0, 1, 3 or 10 seconds between iterations, or at each reading, with time limits in {0,2,20} for the run and each phase"],
 "assumptions": ["time passes only between iterations, or by a fixed amount at each reading of the clock", "with a clock that advances at each reading, 80 further readings are allowed after the limit"],
 "reach": ["loops","inner limit","target","time","phase time","early","local limit","local time","lagrange limit","ticking","optimal","grown"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
static const int STEP[4] = {0, 1, 3, 10};
static const int TMX[3] = {0, 2, 20};
extern "C" void vf_harness() {
    int sc = vf_scn(5);
    bool mx = vf_concrete(vf_bool("maximize"));
    int x0 = vf_concrete(vf_int("x0", 0, 3)), y0 = vf_concrete(vf_int("y0", 0, 3));
    IPModel m("m");
    auto& x = m.create_variable("x", 0, 3);
    auto& y = m.create_variable("y", 0, 3);
    m.create_constraint("c1", x + y <= 4);
    m.create_constraint("c2", x - y >= -1);
    int sg = mx ? 1 : -1;
    if (mx) m.maximize(2 * x + y - 3); else m.minimize(-2 * x - y + 3);   // optimum: x = 3, y = 1
    x.set_value(x0); y.set_value(y0);
    option::Option o;
    o.output.verbose = option::verbose::Off;
    o.local_search.is_enabled = false;
    o.lagrange_dual.is_enabled = false;
    o.tabu_search.is_enabled_initial_modification = false;
    o.neighborhood.is_enabled_user_defined_move = true;
    o.general.iteration_max = 3;
    o.tabu_search.iteration_max = 4;
    double target = -1e100;
    int outer = 3, inner = 4, step = 0, gmax = 120, pmax = 120;
    double tick = 0;
    if (sc == 0) {          // iteration limits and ends before them
        outer = vf_concrete(vf_int("outer", 0, 2)); outer = outer == 2 ? 5 : outer;
        inner = vf_concrete(vf_int("inner", 0, 3)); inner = inner == 2 ? 4 : inner == 3 ? 12 : inner;
        int var = vf_concrete(vf_int("variant", 0, 5));
        if (var == 1) o.preprocess.is_enabled_presolve = false;
        if (var == 2) { o.tabu_search.is_enabled_move_curtail = true; o.tabu_search.move_preserve_rate = 0.3; }
        if (var == 3) o.tabu_search.is_enabled_automatic_break = false;
        if (var == 4) o.tabu_search.initial_tabu_tenure = 2;
        if (var == 5) { o.neighborhood.is_enabled_integer_move = false; o.neighborhood.is_enabled_binary_move = false; }
        o.neighborhood.improvability_screening_mode = (option::improvability_screening_mode::ImprovabilityScreeningMode)vf_concrete(vf_int("screening", 0, 4));
    } else if (sc == 1) {   // targets
        int t = vf_concrete(vf_int("target", -5, 5));
        o.general.target_objective_value = target = t;
        outer = 4; inner = 6;
        if (vf_concrete(vf_bool("local"))) { o.local_search.is_enabled = true; o.local_search.iteration_max = 3; }
        if (vf_concrete(vf_bool("dual"))) { o.lagrange_dual.is_enabled = true; o.lagrange_dual.iteration_max = 3; }
    } else if (sc == 2) {   // time limits of the tabu search
        step = STEP[vf_concrete(vf_int("step", 0, 3))];
        gmax = TMX[vf_concrete(vf_int("time", 0, 2))];
        pmax = TMX[vf_concrete(vf_int("loop time", 0, 2))];
        o.general.time_max = gmax; o.tabu_search.time_max = pmax;
        outer = 6; inner = 8;
    } else if (sc == 3) {   // local search
        step = STEP[vf_concrete(vf_int("step", 0, 3))];
        gmax = TMX[vf_concrete(vf_int("time", 0, 2))];
        pmax = TMX[vf_concrete(vf_int("local time", 0, 2))];
        o.general.time_max = gmax; o.local_search.time_max = pmax;
        o.local_search.is_enabled = true;
        inner = vf_concrete(vf_int("local limit", 0, 2)); inner = inner == 2 ? 4 : inner;
        o.local_search.iteration_max = inner;
        outer = 0;
    } else {                // a clock that advances at each reading; Lagrange limits
        o.lagrange_dual.is_enabled = vf_concrete(vf_bool("dual"));
        o.local_search.is_enabled = vf_concrete(vf_bool("local"));
        o.pdlp.is_enabled = vf_concrete(vf_bool("relaxation"));
        bool t = vf_concrete(vf_bool("ticking"));
        o.lagrange_dual.iteration_max = t ? 5000 : 3;
        if (t) {
            tick = 1;
            gmax = 40; o.general.time_max = gmax;
            o.lagrange_dual.time_max = o.local_search.time_max = o.tabu_search.time_max = o.pdlp.time_max = 1e6;
            outer = 1000; inner = 20; o.general.target_objective_value = target = mx ? 100 : -100;
            o.local_search.iteration_max = 1000;
            o.lagrange_dual.tolerance = 0; o.pdlp.tolerance = 0;
        }
    }
    if (sc != 3) o.tabu_search.iteration_max = inner;
    o.general.iteration_max = outer;
    vf_fix_time(1000);
    vf_tick(tick);
    solver::IPSolver sv(&m, o);
    int calls = 0, total = 0, loops = 0, longest = 0;
    double loopstart = 1000;
    auto good = [&](double obj) { return mx ? obj >= target : obj <= target; };
    m.neighborhood().user_defined().set_move_updater([&](std::vector<neighborhood::Move<int, double>>*) {
        calls++; total++;
        auto& h = sv.global_state().incumbent_holder;
        if (tick == 0) {
            vf_assert(vf_time() - 1000 <= gmax, "the search goes on after the time limit");
            vf_assert(vf_time() - loopstart <= pmax, "a phase goes on after its time limit");
            vf_assert(target == -1e100 || !h.is_found_feasible_solution() || !good(h.feasible_incumbent_objective() * -sg), "the search goes on although the target is reached");
            vf_assert(calls <= inner || (sc != 3 && o.local_search.is_enabled && !loops), "more iterations of a phase than allowed");
        }
        if (calls > longest) longest = calls;
        vf_fix_time(vf_time() + step);
    });
    m.set_callback([&](option::Option*, solution::IncumbentHolder<int, double>*) { loops++; calls = 0; loopstart = vf_time(); });
    auto r = sv.solve();
    vf_tick(0);
    double el = vf_time() - 1000;
    vf_assert(loops <= outer, "more loops than allowed");
    vf_assert(r.status.number_of_tabu_search_loops == loops, "the reported number of loops");
    vf_assert(r.status.number_of_tabu_search_iterations <= (long)outer * inner, "more inner iterations than allowed");
    int vx = r.solution.variables("x").value(), vy = r.solution.variables("y").value();
    bool f = vx + vy <= 4 && vx - vy >= -1;
    double ob = sg * (2 * vx + vy - 3);
    bool reached = f && target != -1e100 && good(ob), optimal = f && vx == 3 && vy == 1;
    if (optimal) vf_reach("optimal");
    if (tick > 0) {
        vf_assert(el <= gmax + 80, "the solver goes on after the time limit");
        vf_reach("ticking");
        return;
    }
    vf_assert(o.lagrange_dual.is_enabled ? r.status.number_of_lagrange_dual_iterations <= o.lagrange_dual.iteration_max : r.status.number_of_lagrange_dual_iterations == 0, "more Lagrange iterations than allowed");
    vf_assert(o.local_search.is_enabled ? r.status.number_of_local_search_iterations <= o.local_search.iteration_max : r.status.number_of_local_search_iterations == 0, "more local search iterations than allowed");
    if (sc == 4 && o.lagrange_dual.is_enabled && r.status.number_of_lagrange_dual_iterations == 3) vf_reach("lagrange limit");
    if (sc == 3) {
        if (longest == inner && inner) vf_reach("local limit");
        if (el > pmax) vf_reach("local time");
        vf_assert(r.status.number_of_tabu_search_iterations == 0, "tabu search without a loop");
        return;
    }
    if (loops == outer && loops > 1) vf_reach("loops");
    if (longest == inner && inner && !o.local_search.is_enabled) vf_reach("inner limit");
    if (longest > 10) vf_reach("grown");
    if (reached) vf_reach("target");
    if (el > gmax) vf_reach("time");
    if (sc == 2 && pmax < gmax && el > pmax) vf_reach("phase time");
    if (loops < outer && el <= gmax) {
        vf_reach("early");
        vf_assert(reached || optimal, "the search ends early without a reason");
    }
}
