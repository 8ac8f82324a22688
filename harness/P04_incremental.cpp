/*META
{"bounds": ["models of 3 to 4 integer or 0-1 variables and 3 constraints in 6 sense combinations (4 coefficient sets), any current point with integer values in [-4,4] or 0/1, any target values; moves of 1, 2 and 3 variables and one-hot moves; each evaluated before and after a first move has been applied; constraints whose variables' bounds change after the constraint is created; models with an eliminated dependent variable"],
 "bounds_thorough": ["as quick with integer values in [-30,30], all 27 sense combinations"],
 "assumptions": ["half-integral coefficients, so double arithmetic is exact", "penalty coefficients 100 (global) and 2, 3, 5 (local)"],
 "reach": ["single","multi","selection","second","margin","rebound","dependent"]}
*/
#include "lib.h"
static const int V = TQ(4, 30);
extern "C" void vf_setup() {}
static const double LP[3] = {2, 3, 5};
static double S0 = 1;
// score of the move w from the model's current state against the reference
static void compare(const solution::SolutionScore& s, const RefModel& R, const std::vector<int>& v, const std::vector<int>& w, const char* what) {
    double tot = 0, loc = 0;
    for (size_t i = 0; i < R.rows.size(); i++) {
        double r = R.row(i, w);
        if (R.rows[i].s != 2 && r > 0) { tot += r; loc += LP[i] * r; }
        if (R.rows[i].s != 0 && r < 0) { tot -= r; loc -= (LP[i] + 1) * r; }
    }
    double ob = S0 * R.objective(w);
    vf_assert(s.total_violation == tot, what);
    vf_assert(s.local_penalty == loc, "local penalty of the incremental evaluation");
    vf_assert(s.objective == ob && s.objective_improvement == S0 * R.objective(v) - ob, "objective of the incremental evaluation");
    vf_assert(s.global_penalty == 100 * tot && s.local_augmented_objective == ob + loc && s.global_augmented_objective == ob + 100 * tot, "augmented objective of the incremental evaluation");
    vf_assert(s.is_feasible == (tot == 0), "feasibility of the incremental evaluation");
    vf_assert(s.is_objective_improvable == (S0 * R.objective(v) > ob), "objective improvable flag of the incremental evaluation");
}
static void state(IPModel& m, std::vector<IPCons*>& cs, const RefModel& R, const std::vector<int>& w) {
    vf_assert(m.objective().value() == R.objective(w), "stored objective value after a move");
    for (size_t i = 0; i < cs.size(); i++) {
        vf_assert(cs[i]->violation_value() == R.viol(i, w), "stored violation after a move");
        double r = R.row(i, w);
        vf_assert(cs[i]->constraint_value() == r && cs[i]->positive_part() == (r > 0 ? r : 0) && cs[i]->negative_part() == (r < 0 ? -r : 0), "stored constraint value after a move");
    }
    vf_assert(m.is_feasible() == R.feasible(w), "stored feasibility after a move");
    size_t nv = 0;
    for (size_t i = 0; i < cs.size(); i++) if (R.viol(i, w) > 0) nv++;
    vf_assert(m.current_violative_constraint_ptrs().size() == nv, "list of violated constraints after a move");
}
static IPMove make(std::vector<IPVar*> vs, std::vector<int> to) {
    IPMove mv; std::set<IPCons*> rel;
    for (size_t i = 0; i < vs.size(); i++) { mv.alterations.emplace_back(vs[i], to[i]); for (auto c : vs[i]->related_constraint_ptrs()) rel.insert(c); }
    mv.related_constraint_ptrs.assign(rel.begin(), rel.end());
    mv.is_univariable_move = vs.size() == 1;
    return mv;
}
extern "C" void vf_harness() {
    int scn = vf_concrete(vf_int("scenario", 0, 4));
    IPModel m("m");
    option::Option o; vf_no_presolve(o);
    o.penalty.initial_penalty_coefficient = 100; o.penalty.is_enabled_shrink_penalty_coefficient = false;
    RefModel R;
    static const double CI[4][3][5] = {{{1, -1.5, 0, 0, -2}, {2, 0, 1, 0, -3}, {1, 1, 1, 0, 0.5}}, {{-1, 0, 0.5, 0, 1}, {1, 1, 0, 0, -1}, {0, -2, 3, 0, 2}}, {{2, 3, 1, 0, -5}, {1, 1, 1, 0, -3}, {-1, 2, 0, 0, 2}}, {{1, 1, 1, 1, -3}, {2, -1, 0, 1.5, -3}, {0, 1, -2, 1, 2}}};
    int ns = vf_concrete(vf_int("senses", 0, TQ(5, 26)));
    static const int Q6[6][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {0, 0, 2}, {2, 2, 0}, {1, 0, 2}};
    int sn[3] = {TQ(Q6[ns % 6][0], ns % 3), TQ(Q6[ns % 6][1], ns / 3 % 3), TQ(Q6[ns % 6][2], ns / 9)};
    bool maxi = ns & 1;
    S0 = maxi ? -1 : 1;
    bool bin = scn == 1 || scn == 2;
    int n = scn == 2 ? 4 : 3, set = scn == 0 ? ns & 1 : scn == 2 ? 3 : 2;
    R.n = n; R.obj0 = 1;
    for (int j = 0; j < n; j++) R.obj.push_back(j == 1 ? -2 : 1 + j * 0.5);
    for (int i = 0; i < 3; i++) { std::vector<double> c; for (int j = 0; j < n; j++) c.push_back(CI[set][i][j]); R.rows.push_back({c, CI[set][i][4], sn[i]}); }
    auto& x = bin || scn == 3 ? m.create_variables("x", n, 0, 1) : m.create_variables("x", n, -100, 100);
    std::vector<IPCons*> cs;
    auto& g = m.create_constraints("g", 3);
    for (int i = 0; i < 3; i++) { g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, x), sn[i]); cs.push_back(&g(i)); }
    if (maxi) m.maximize(vf_expr(R.obj, R.obj0, x)); else m.minimize(vf_expr(R.obj, R.obj0, x));
    if (scn == 3) { vf_reach("rebound"); for (int j = 0; j < n; j++) x(j).set_bound(-3, 3); }
    if (scn == 2) {   // one-hot group over x0..x2
        m.create_constraint("zz_pick", x(0) + x(1) + x(2) == 1);
        // keep number of variables above the number of constraints so that the group is extracted
        m.create_variables("pad", 3, 0, 1);
        o.neighborhood.selection_mode = option::selection_mode::Defined;
    }
    std::vector<int> v(n);
    static const char* NM[4] = {"x0", "x1", "x2", "x3"};
    if (scn == 2) { int sel = vf_concrete(vf_int("selected", 0, 2)); for (int j = 0; j < 3; j++) v[j] = j == sel; v[3] = vf_int("x3", 0, 1); }
    else for (int j = 0; j < n; j++) v[j] = bin ? vf_int(NM[j], 0, 1) : scn == 3 ? vf_int(NM[j], 0, 3) : vf_int(NM[j], -V, V);
    for (int j = 0; j < n; j++) x(j) = v[j];
    if (scn == 4) {   // a dependent variable: d = x0 + x1 is eliminated by the presolve
        auto& d = m.create_variable("d", -500, 500);
        d = v[0] + v[1];
        m.create_constraint("zdef", d - x(0) - x(1) == 0);
        g(0) = (d + R.rows[0].c[2] * x(2) + R.rows[0].k <= 0);
        R.rows[0].c[0] = 1; R.rows[0].c[1] = 1; R.rows[0].s = 0;
        o.preprocess.is_enabled_presolve = true;
        o.preprocess.is_enabled_extract_dependent_intermediate = true;
    }
    m.setup(o, false);
    for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) c.local_penalty_coefficient_less() = c.local_penalty_coefficient_greater() = 7;
    for (int i = 0; i < 3; i++) { cs[i]->local_penalty_coefficient_less() = LP[i]; cs[i]->local_penalty_coefficient_greater() = LP[i] + 1; }
    m.update();
    if (scn == 4) for (int j = 0; j < n; j++) v[j] = x(j).value();
    for (int j = 0; j < n; j++) vf_assert(x(j).value() == v[j], "set-up keeps an initial point that is within bounds");
    if (scn == 4) {   // the presolve may fix everything; the scenario is about what remains to be searched
        for (int j = 0; j < n; j++) if (x(j).is_fixed() || x(j).sense() == model_component::VariableSense::DependentInteger) vf_skip();
        if (m.number_of_dependent_integer_variables() == 0) vf_skip();
        vf_reach("dependent");
    }
    state(m, cs, R, v);
    auto cur = m.evaluate({});
    compare(cur, R, v, v, "violation of the current point");
    if (scn == 2) {
        vf_reach("selection");
        vf_assert(m.number_of_selection_variables() == 3, "the one-hot group is recognised");
        m.neighborhood().selection().update_moves(true, false, false, false, 1);
        int cnt = 0;
        auto& mvs = m.neighborhood().selection().moves();
        auto& fl = m.neighborhood().selection().flags();
        for (size_t k = 0; k < mvs.size(); k++) {
            if (!fl[k]) continue;
            cnt++;
            std::vector<int> w = v;
            for (auto& a : mvs[k].alterations) for (int j = 0; j < n; j++) if (a.first == &x[j]) w[j] = a.second;
            vf_assert(w[0] + w[1] + w[2] == 1, "a one-hot move keeps exactly one selected");
            solution::SolutionScore s;
            m.evaluate_selection(&s, mvs[k], cur);
            compare(s, R, v, w, "violation after a one-hot move");
            m.evaluate_multi(&s, mvs[k], cur);
            compare(s, R, v, w, "violation after a one-hot move, general evaluation");
        }
        vf_assert(cnt == 2, "one move for each unselected member");
        int pick = vf_concrete(vf_int("pick", 0, 2));
        if (pick < (int)mvs.size() && fl[pick]) {
            std::vector<int> w = v;
            for (auto& a : mvs[pick].alterations) for (int j = 0; j < n; j++) if (a.first == &x[j]) w[j] = a.second;
            auto mv = mvs[pick];
            m.update(mv);
            state(m, cs, R, w);
            for (int j = 0; j < n; j++) vf_assert(x(j).value() == w[j], "values after the move");
            m.neighborhood().selection().update_moves(true, false, false, false, 1);
            auto c2 = m.evaluate({});
            for (size_t k = 0; k < mvs.size(); k++) {
                if (!fl[k]) continue;
                std::vector<int> u = w;
                for (auto& a : mvs[k].alterations) for (int j = 0; j < n; j++) if (a.first == &x[j]) u[j] = a.second;
                vf_assert(u[0] + u[1] + u[2] == 1, "a one-hot move keeps exactly one selected");
                solution::SolutionScore s;
                m.evaluate_selection(&s, mvs[k], c2);
                compare(s, R, w, u, "violation after a second one-hot move");
            }
        }
        return;
    }
    int kind = vf_concrete(vf_int("kind", 0, 2));
    std::vector<IPVar*> vs; std::vector<int> to; std::vector<int> w = v;
    static const char* YN[4] = {"y0", "y1", "y2", "y3"};
    int first = kind == 0 ? vf_concrete(vf_int("which", 0, n - 1)) : 0, last = kind == 0 ? first : kind;
    for (int j = first; j <= last; j++) { w[j] = bin ? vf_int(YN[j], 0, 1) : scn == 3 ? vf_int(YN[j], -3, 3) : vf_int(YN[j], -V, V); vs.push_back(&x[j]); to.push_back(w[j]); }
    auto mv = make(vs, to);
    bool mg = false;
    for (auto c : cs) mg = mg || c->has_margin();
    if (mg) vf_reach("margin");
    solution::SolutionScore s;
    if (kind == 0) { vf_reach("single"); m.evaluate_single(&s, mv, cur); compare(s, R, v, w, "violation after a move of one variable"); }
    else vf_reach("multi");
    m.evaluate_multi(&s, mv, cur);
    compare(s, R, v, w, "violation after a move, general evaluation");
    auto s2 = m.evaluate(mv, cur);
    compare(s2, R, v, w, "violation after a move");
    m.update(mv);
    state(m, cs, R, w);
    for (int j = 0; j < n; j++) vf_assert(x(j).value() == w[j], "values after the move");
    // a second move, evaluated from the incrementally maintained state
    if (kind == 0) {
        vf_reach("second");
        auto c2 = m.evaluate({});
        compare(c2, R, w, w, "violation of the point reached");
        std::vector<int> u = w;
        int j = (first + 1) % n;
        u[j] = bin ? 1 - u[j] : u[j] + 1;
        auto mv2 = make({&x[j]}, {u[j]});
        m.evaluate_single(&s, mv2, c2);
        compare(s, R, w, u, "violation after a second move of one variable");
        m.update();
        state(m, cs, R, w);
    }
}
