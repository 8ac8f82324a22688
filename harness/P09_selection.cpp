/*META
{"bounds": ["6 binary variables with one or two sum-to-one rows (disjoint, overlapping, nested sizes) and one other row over them with any right-hand side in [-2,2] and either sense; every selection mode; any initial values in {0,1} (of one variable in [-1,2]; two variables have one value only in the quick tier), any one variable fixed at 0 or 1 by the user (a third of the combinations in the quick tier); correction of initial values on and off, presolve on and off; then any two selection moves one after the other, with all moves or improvable ones accepted"],
 "assumptions": ["the constraint that a selection replaces is a sum of binary variables equal to 1"],
 "reach": ["selection","two","corrected","rejected","fixed one","fixed zero","moved","moved twice","none","improvable"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    static const int A[4][2][6] = {{{1, 1, 1, 0, 0, 0}, {0, 0, 0, 1, 1, 1}}, {{1, 1, 1, 0, 0, 0}, {0, 1, 1, 1, 1, 0}}, {{1, 1, 1, 1, 0, 0}, {0, 0, 0, 0, 0, 0}}, {{1, 0, 1, 1, 1, 0}, {1, 1, 0, 0, 0, 1}}};
    static const double C[3][6] = {{1, -1, 2, 1, 0, 1}, {0, 2, 1, 0, -1, 0}, {1, 1, 0, 1, 1, -1}};
    int sc = vf_scn(2);   // 0: any initial values, 1: any two moves
    int pat = vf_concrete(vf_int("rows", 0, 3)), mode = vf_concrete(vf_int("mode", 1, sc ? TQ(1, 4) : 5)), pre = vf_concrete(vf_int("presolve", 0, 1)), corr = vf_concrete(vf_int("correction", sc, 1)), fx = vf_concrete(vf_int("fixed", -1, 5));
    int cc = (pat + mode) % 3, se = (pat + mode + fx + 1) % 2 ? 0 : 2;
    if (fx >= 0 && !TQ(((fx + pat + mode) % 3 == 0), 1)) vf_skip();
    IPModel m("m"); option::Option o;
    auto& x = m.create_variables("x", 6, 0, 1);
    static const char* IN[6] = {"i0", "i1", "i2", "i3", "i4", "i5"};
    int init[6], two = 0;
    for (int j = 0; j < 6; j++) { two |= A[pat][1][j]; init[j] = sc ? j == (pat + mode) % 3 : j < TQ(4, 6) ? vf_int(IN[j], j == 0 ? -1 : 0, j == 0 ? 2 : 1) : (j + pat) % 2; x(j) = init[j]; }
    auto& g = m.create_constraints("g", 1 + two);
    for (int i = 0; i < 1 + two; i++) {
        IPExpr e = IPExpr::create_instance();
        for (int j = 0; j < 6; j++) if (A[pat][i][j]) e += x[j];
        g(i) = e == 1;
        if (mode == 5) g(i).set_is_user_defined_selection(i == 0 || pat == 0);
    }
    int k = sc ? vf_int("k", -2, 2) : TQ(pat % 3 - 1, vf_int("k", -1, 1));
    IPExpr h = IPExpr::create_instance(), ob = IPExpr::create_instance();
    for (int j = 0; j < 6; j++) { h += C[cc][j] * x[j]; ob += (j - 2) * x[j]; }
    m.create_constraint("h", vf_cons(h + k, se));
    m.minimize(ob);
    int fv = 0;
    if (fx >= 0) { fv = vf_concrete(vf_int("fixedvalue", 0, 1)); x(fx).fix_by(fv); init[fx] = fv; vf_reach(fv ? "fixed one" : "fixed zero"); }
    o.neighborhood.selection_mode = mode == 1 ? option::selection_mode::Defined : mode == 2 ? option::selection_mode::Smaller : mode == 3 ? option::selection_mode::Larger : mode == 4 ? option::selection_mode::Independent : option::selection_mode::UserDefined;
    o.preprocess.is_enabled_presolve = pre; o.preprocess.is_enabled_initial_value_correction = corr;
    int p[6], pok = 1;   // any solution of the model
    static const char* PN[6] = {"p0", "p1", "p2", "p3", "p4", "p5"};
    bool thrown = false;
    try { m.setup(o, false); } catch (std::logic_error&) { thrown = true; }
    int good = 1;   // the initial values are right for every row that may become a selection
    for (int j = 0; j < 6; j++) good &= (init[j] >= 0) & (init[j] <= 1);
    for (int i = 0; i < 1 + two; i++) { int t = 0; for (int j = 0; j < 6; j++) t += A[pat][i][j] * init[j]; good &= t == 1; }
    if (thrown) {
        vf_reach("rejected");
        if (!corr) { if (!pre) vf_assert(!good, "right initial values are rejected"); return; }
        double hv = k;
        for (int j = 0; j < 6; j++) { p[j] = vf_int(PN[j], 0, 1); hv += C[cc][j] * p[j]; }
        for (int i = 0; i < 1 + two; i++) { int t = 0; for (int j = 0; j < 6; j++) t += A[pat][i][j] * p[j]; pok &= t == 1; }
        if (fx >= 0) pok &= p[fx] == fv;
        vf_assert(!(pok & vf_rel(hv, se)), "a model with a solution is rejected");
        return;
    }
    auto& S = m.selections();
    auto check = [&](const char* when) {
        std::set<IPVar*> seen;
        for (auto& s : S) {
            int n = 0;
            vf_assert(!s.constraint_ptr->is_enabled(), "the row of a selection is still enabled");
            vf_assert(s.variable_ptrs.size() == s.constraint_ptr->expression().sensitivities().size(), "the variables of a selection");
            for (auto v : s.variable_ptrs) {
                n += v->value();
                vf_assert((v->value() == 0) | (v->value() == 1), "a selection variable is neither 0 nor 1");
                vf_assert(v->selection_ptr() == &s, "the selection of a variable");
                vf_assert(s.constraint_ptr->expression().sensitivities().count(v) == 1, "a variable outside the row of its selection");
                vf_assert(seen.insert(v).second, "selections overlap");
            }
            vf_assert(n == 1, when);
            vf_assert(s.selected_variable_ptr != nullptr && s.selected_variable_ptr->value() == 1, "the selected variable of a selection is not the one that is 1");
            if (s.selected_variable_ptr) { int in = 0; for (auto v : s.variable_ptrs) in |= v == s.selected_variable_ptr; vf_assert(in, "the selected variable belongs to another selection"); }
        }
        for (int j = 0; j < 6; j++) {
            if (x(j).is_fixed()) continue;
            vf_assert((x(j).lower_bound() <= x(j).value()) & (x(j).value() <= x(j).upper_bound()), "a value outside its bounds");
        }
        if (fx >= 0) vf_assert(x(fx).value() == fv, "a fixed variable changed its value");
    };
    if (S.empty()) vf_reach("none"); else vf_reach("selection");
    if (S.size() == 2) vf_reach("two");
    if (!pre) {
        vf_assert(!S.empty() || (mode == 4 && (pat == 1 || pat == 3)), "no selection was found");
        if (pat == 0) vf_assert(S.size() == 2, "disjoint selections");
        if (pat == 1 && mode != 4) vf_assert(S.size() == 1 && S[0].constraint_ptr == &g(mode == 3 ? 1 : 0), "the preferred selection");
        if (pat == 3 && mode != 4) vf_assert(S.size() == 1 && S[0].constraint_ptr == &g(mode == 2 ? 1 : 0), "the preferred selection");
    }
    check("not exactly one variable of a selection is 1 after the set-up");
    int ch = 0;
    for (int j = 0; j < 6; j++) ch |= x(j).value() != init[j];
    if (!pre) { vf_assert(!good | !ch, "right initial values are changed"); if (ch) vf_reach("corrected"); if (!corr) vf_assert(!ch, "initial values are changed although that is switched off"); }
    if (S.empty() || !sc) return;
    for (auto& pr : m.constraint_proxies()) for (auto& c : pr.flat_indexed_constraints()) c.local_penalty_coefficient_less() = c.local_penalty_coefficient_greater() = 2;
    auto& gen = m.neighborhood().selection();
    int acc = vf_concrete(vf_int("accept", 0, TQ(1, 3)));   // 0 all, 1 objective or feasibility improvable, 2 / 3 one of them
    for (int step = 0; step < 2; step++) {
        m.update();
        m.update_variable_objective_improvabilities();
        m.reset_variable_feasibility_improvabilities();
        m.update_variable_feasibility_improvabilities();
        gen.update_moves(acc == 0, acc != 3, acc != 2, false, 1);
        auto& mv = gen.moves(); auto& fl = gen.flags();
        solution::SolutionScore cur = m.evaluate({});
        std::set<IPVar*> offered;
        std::vector<int> cand;
        for (size_t i = 0; i < mv.size(); i++) {
            auto& a = mv[i].alterations;
            vf_assert(a.size() == 2, "a selection move has two alterations");
            bool imp = (acc != 3 && (a[0].first->is_objective_improvable() || a[1].first->is_objective_improvable())) || (acc != 2 && (a[0].first->is_feasibility_improvable() || a[1].first->is_feasibility_improvable()));
            bool can = a[0].first != a[1].first && !a[0].first->is_fixed() && !a[1].first->is_fixed();
            if (acc) vf_reach("improvable");
            if (!fl[i]) { vf_assert(!can || (acc && !imp), "a possible selection move is not offered"); continue; }
            vf_assert(acc == 0 || imp, "a move which cannot improve anything is offered");
            vf_assert(!a[0].first->is_fixed() && !a[1].first->is_fixed(), "a selection move changes a fixed variable");
            vf_assert(a[0].first->selection_ptr() == a[1].first->selection_ptr() && a[0].first->value() == 1 && a[0].second == 0 && a[1].first->value() == 0 && a[1].second == 1, "a selection move does not keep exactly one variable at 1");
            vf_assert(offered.insert(a[1].first).second, "a selection move is offered twice");
            cand.push_back(i);
        }
        if (acc == 0) for (auto& s : S) for (auto v : s.variable_ptrs) if (!v->is_fixed() && v != s.selected_variable_ptr && !s.selected_variable_ptr->is_fixed()) vf_assert(offered.count(v), "a variable of a selection cannot be selected");
        if (cand.empty()) return;
        auto& q = mv[cand[vf_concrete(vf_int(step ? "m1" : "m0", 0, (int)cand.size() - 1))]];
        auto sc = m.evaluate(q, cur);
        m.update(q);
        vf_reach(step ? "moved twice" : "moved");
        check("not exactly one variable of a selection is 1 after a move");
        double f = m.objective().value();
        m.update();
        vf_assert(f == m.objective().value(), "the objective after a selection move");
        auto full = m.evaluate({});
        vf_assert(sc.objective == full.objective && sc.total_violation == full.total_violation && sc.is_feasible == full.is_feasible && sc.local_penalty == full.local_penalty && sc.global_penalty == full.global_penalty, "the predicted score of a selection move is wrong");
    }
}
