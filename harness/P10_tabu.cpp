/*META
{"bounds": ["a model of 3 variables and 2 rows; histories of 3 moves, altering sets of the variables (3, 7 and 2 sets; all in the thorough tier) to any values, at any iterations 0..20, with or without random tenure; any tabu duration; both tabu modes, selection and ordinary moves, with a reset of the tabu list anywhere"],
 "assumptions": ["random tenure is drawn from the library's own generator with one seed"],
 "reach": ["tabu","free","all","any","selection","reset","random","violated","penalty"]}
*/
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && -d < 1e-9; }
extern "C" void vf_harness() {
    IPModel m("m");
    option::Option o;
    auto& x = m.create_variables("x", 3, 0, 3);
    auto& g = m.create_constraint("g", x[0] + x[1] <= 2);
    auto& h = m.create_constraint("h", x[1] - x[2] == 0);
    m.minimize(x[0] + x[1] + x[2]);
    vf_no_presolve(o);
    m.setup(o, false);
    int hist = vf_scn(2);   // 1: any history of sets and values, 0: any move and tabu duration
    int all = vf_concrete(vf_int("all", 0, hist ? 0 : 1)), reset = vf_concrete(vf_int("reset", 0, 2)), width = vf_concrete(vf_int("width", 0, 1)) * 3;
    o.tabu_search.tabu_mode = all ? option::tabu_mode::All : option::tabu_mode::Any;
    o.tabu_search.frequency_penalty_coefficient = 0.5;
    o.tabu_search.lagrangian_penalty_coefficient = 0.25;
    o.lagrange_dual.is_enabled = true;
    vf_reach(all ? "all" : "any");
    solver::Memory<int, double> mem(&m);
    solver::tabu_search::core::TabuSearchCoreMoveEvaluator<int, double> ev(&m, &mem, o);
    std::vector<IPVar*> V;
    for (int j = 0; j < 3; j++) V.push_back(&x[j]);
    int cnt[3] = {0, 0, 0}, last[3] = {0, 0, 0}, has[3] = {0, 0, 0}, gl[3] = {0, 0, 0}, total = 0, vc[2] = {0, 0}, vt = 0;
    static const char* S[3] = {"s0", "s1", "s2"}; static const char* I[3] = {"i0", "i1", "i2"};
    static const char* A[3] = {"a0", "a1", "a2"};
    std::mt19937 rnd(1);
    vf_assert(mem.total_update_count() == 0 && mem.total_violation_count() == 0 && mem.primal_intensity() == 0 && mem.dual_intensity() == 0, "a new memory");
    for (int i = 0; i < 3; i++) {
        if (i > 0 && i == reset) { mem.reset_local_last_update_iterations(); for (int j = 0; j < 3; j++) has[j] = 0; vf_reach("reset"); }
        int s = hist ? vf_concrete(vf_int(S[i], TQ(i == 2 ? 6 : 1, 1), TQ(i == 1 ? 7 : i == 0 ? 3 : 7, 7))) : i == 0 ? 1 : i == 1 ? 6 : 4, it = vf_int(I[i], 0, 20);
        IPMove mv;
        mv.sense = neighborhood::MoveSense::UserDefined;
        int val = hist ? vf_int(A[i], 0, 3) : i;
        for (int j = 0; j < 3; j++) if (s >> j & 1) { mv.alterations.emplace_back(V[j], val); *V[j] = val; }
        m.update();
        if (width) { mem.update(mv, it, width, &rnd); vf_reach("random"); } else mem.update(mv, it);
        for (int j = 0; j < 3; j++) if (s >> j & 1) { cnt[j]++; last[j] = it; has[j] = 1; gl[j] = total; total++; }
        int v0 = V[0]->value() + V[1]->value() > 2, v1 = V[1]->value() != V[2]->value();
        vc[0] += v0; vc[1] += v1; vt += v0 + v1;
        if (v0 | v1) vf_reach("violated");
        double sq = 0;
        for (int j = 0; j < 3; j++) {
            vf_assert(V[j]->update_count() == cnt[j], "update count of a variable");
            vf_assert(V[j]->global_last_update_iteration() == gl[j], "last update of a variable");
            if (has[j]) vf_assert((V[j]->local_last_update_iteration() >= last[j] - width) & (V[j]->local_last_update_iteration() <= last[j] + width), "last update iteration of a variable");
            else vf_assert(V[j]->local_last_update_iteration() < -20, "a variable which was not updated is recorded as updated");
            sq += cnt[j] * cnt[j];
        }
        vf_assert(mem.total_update_count() == total, "total update count");
        vf_assert(near(mem.total_update_count_reciprocal() * total, 1), "reciprocal of the update count");
        vf_assert(near(mem.primal_intensity() * total * total, sq), "primal intensity");
        vf_assert((g(0).violation_count() == vc[0]) & (h(0).violation_count() == vc[1]), "violation count of a constraint");
        vf_assert(mem.total_violation_count() == vt, "total violation count");
        vf_assert(near(mem.dual_intensity() * vt * vt, vc[0] * vc[0] + vc[1] * vc[1]), "dual intensity");
    }
    int d = vf_int("duration", -20, 20), sel = hist ? 0 : vf_concrete(vf_int("selection", 0, 1)), s = hist ? 6 : vf_concrete(vf_int("s", 1, 7));
    IPMove mv;
    mv.sense = sel ? neighborhood::MoveSense::Selection : neighborhood::MoveSense::UserDefined;
    int any_free = 0, all_free = 1, tot = 0, mn = 1000; double lag = 0;
    for (int j = 0; j < 3; j++) {
        V[j]->set_lagrangian_coefficient(j == 0 ? 2 : j == 1 ? -1 : 0.5);
        if (!(s >> j & 1)) continue;
        mv.alterations.emplace_back(V[j], j + 1);
        int tabu = has[j] ? V[j]->local_last_update_iteration() > d : 0;
        any_free |= !tabu; all_free &= !tabu; tot += cnt[j]; mn = std::min(mn, cnt[j]);
        lag += (j == 0 ? 2 : j == 1 ? -1 : 0.5) * (j + 1);
    }
    int want = all && !sel ? any_free : all_free;
    if (sel) vf_reach("selection");
    vf_assert((ev.compute_permissibility(mv, d) != 0) == (want != 0), "a move is wrongly allowed or forbidden");
    solver::tabu_search::core::TabuSearchCoreMoveScore sc;
    ev.evaluate(&sc, mv, 1, d);
    vf_assert((sc.is_permissible != 0) == (want != 0), "a move is wrongly allowed or forbidden (evaluate)");
    vf_reach(want ? "free" : "tabu");
    vf_assert(ev.compute_total_update_count(mv) == tot, "total update count of a move");
    vf_assert(ev.compute_minimum_update_count(mv) == mn, "minimum update count of a move");
    vf_assert(near(sc.frequency_penalty * total, 0.5 * tot), "frequency penalty");
    if (tot) vf_reach("penalty");
    vf_assert(ev.compute_frequency_penalty(mv, 0) == 0, "frequency penalty at the start");
    vf_assert(sc.lagrangian_penalty == 0.25 * lag, "lagrangian penalty");
}
