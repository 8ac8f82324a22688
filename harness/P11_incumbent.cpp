/*META
{"bounds": ["histories of 3 offered solutions (4 in the thorough tier) with any objective, local and global penalised objective in [-2,2] and feasibility, a reset of the local incumbent anywhere; offered as solution data or as the model's current point; model with an eliminated variable and a disabled constraint"],
 "assumptions": ["values differ by 0 or by 1 and more (the documented tolerance of 1e-5 decides nothing)"],
 "reach": ["feasible","infeasible","local","global","reset","data","model","eliminated"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
struct Off { int l, g, ob, fe; };
extern "C" void vf_harness() {
    using H = solution::IncumbentHolder<int, double>;
    using K = solution::IncumbentHolderConstant;
    const int N = TQ(3, 4);
    static const char* L[4] = {"l0", "l1", "l2", "l3"}; static const char* G[4] = {"g0", "g1", "g2", "g3"};
    static const char* O[4] = {"o0", "o1", "o2", "o3"}; static const char* F[4] = {"f0", "f1", "f2", "f3"};
    int via_model = vf_concrete(vf_int("model", 0, 1));
    int which = vf_concrete(vf_int("which", 0, 2));   // which incumbent this path examines: the others are offered constants
    int reset = vf_concrete(vf_int("reset", 0, N));
    IPModel m("m");
    option::Option o;
    auto& x = m.create_variable("x", 0, 9);
    auto& y = m.create_variable("y", 0, 100);
    auto& z = m.create_variable("z", 0, 9);
    auto& e = m.create_expression("e", x + y);
    auto& g = m.create_constraint("g", y - 2 * x - 2 * z == 1);
    auto& h = m.create_constraint("h", e + z <= 7);
    m.minimize(x + 2 * y - z);
    o.preprocess.is_enabled_presolve = via_model;
    o.preprocess.is_enabled_extract_dependent_intermediate = true;
    m.setup(o, false);
    if (via_model && y(0).dependent_expression_ptr() && !x(0).is_fixed() && !z(0).is_fixed()) vf_reach("eliminated");
    H hold;
    vf_assert(!hold.is_found_feasible_solution(), "feasible before anything was offered");
    int bl = 0, bg = 0, bf = 0, hl = 0, hg = 0, hf = 0, il = -1, ig = -1, jf = -1;
    for (int i = 0; i < N; i++) {
        if (i == reset && i > 0) { hold.reset_local_augmented_incumbent(); hl = 0; vf_reach("reset"); }
        solution::SolutionScore s;
        int a[3] = {0, 0, 0};
        int fe = vf_bool(F[i]);
        int vl = which == 0 ? vf_int(L[i], -2, 2) : 1 - i % 2, vg = which == 1 ? vf_int(G[i], -2, 2) : i % 2, vo = which == 2 ? vf_int(O[i], -2, 2) : (i * 2) % 3;
        s.local_augmented_objective = vl; s.global_augmented_objective = vg; s.objective = vo; s.is_feasible = fe;
        s.local_penalty = 10 + i; s.total_violation = 20 + i;
        int st;
        if (via_model) {
            IPMove mv;
            mv.sense = neighborhood::MoveSense::UserDefined;
            if (i == 0) { x = 1; z = 0; if (!y(0).dependent_expression_ptr()) y = 3; m.update(); }
            else {   // the search steps by moves, which leave eliminated variables alone
                mv.alterations.emplace_back(&x(0), i + 1);
                if (!y(0).dependent_expression_ptr()) mv.alterations.emplace_back(&y(0), 2 * (i + 1) + 1);
                for (auto& al : mv.alterations) for (auto c : al.first->related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
                std::sort(mv.related_constraint_ptrs.begin(), mv.related_constraint_ptrs.end());
                mv.related_constraint_ptrs.erase(std::unique(mv.related_constraint_ptrs.begin(), mv.related_constraint_ptrs.end()), mv.related_constraint_ptrs.end());
                m.update(mv);
            }
            st = hold.try_update_incumbent(&m, s);
            vf_reach("model");
        } else {
            solution::DenseSolution<int, double> d;
            d.objective = i + 100;
            st = hold.try_update_incumbent(d, s);
            vf_reach("data");
        }
        int ex = 0;
        if (!hl || vl < bl) { ex += K::STATUS_LOCAL_AUGMENTED_INCUMBENT_UPDATE; hl = 1; bl = vl; il = i; vf_reach("local"); }
        if (!hg || vg < bg) { ex += K::STATUS_GLOBAL_AUGMENTED_INCUMBENT_UPDATE; hg = 1; bg = vg; ig = i; vf_reach("global"); }
        if (fe && (!hf || vo < bf)) { ex += K::STATUS_FEASIBLE_INCUMBENT_UPDATE; hf = 1; bf = vo; jf = i; vf_reach("feasible"); }
        if (!fe) vf_reach("infeasible");
        vf_assert(st == ex, "the reported update status is wrong");
        vf_assert(hold.is_found_feasible_solution() == (hf != 0), "feasible found");
        vf_assert(hold.local_augmented_incumbent_objective() == bl, "local incumbent objective");
        vf_assert(hold.global_augmented_incumbent_objective() == bg, "global incumbent objective");
        if (hf) vf_assert(hold.feasible_incumbent_objective() == bf, "feasible incumbent objective");
        auto same = [&](const solution::DenseSolution<int, double>& d, int i, const char* msg) {
            if (!via_model) { vf_assert(d.objective == i + 100, msg); return; }
            vf_assert(d.variable_value_proxies.size() == 3, msg);
            vf_assert(d.variable_value_proxies[0].value() == i + 1, msg);
            vf_assert(d.variable_value_proxies[1].value() == 2 * (i + 1) + 1, "an eliminated variable of an incumbent does not have its defined value");
            vf_assert(d.expression_value_proxies[0].value() == 3 * (i + 1) + 1, "an expression of an incumbent");
            vf_assert(d.constraint_value_proxies[0].value() == 0, "a disabled constraint of an incumbent");
            vf_assert(d.objective == (i + 1) + 2 * (2 * (i + 1) + 1), "the objective of an incumbent");
        };
        auto score = [&](const solution::SolutionScore& t, int i, const char* msg) { vf_assert(t.local_penalty == 10 + i && t.total_violation == 20 + i, msg); };
        same(hold.local_augmented_incumbent_solution(), il, "local incumbent solution");
        same(hold.global_augmented_incumbent_solution(), ig, "global incumbent solution");
        score(hold.local_augmented_incumbent_score(), il, "local incumbent score");
        score(hold.global_augmented_incumbent_score(), ig, "global incumbent score");
        if (hf) { same(hold.feasible_incumbent_solution(), jf, "feasible incumbent solution"); score(hold.feasible_incumbent_score(), jf, "feasible incumbent score"); }
    }
}
