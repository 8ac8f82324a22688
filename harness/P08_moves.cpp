/*META
{"bounds": ["models of 3 or 4 variables with one special row of each type (exclusive or/nor, inverted, balanced, constant sum/difference/ratio, aggregation, precedence, variable bound, trinomial exclusive nor, soft selection), both orders and signs of its coefficients (+-1, +-2, +-3, 0.5), any constant in [-2,2] (halves included), one or two ordinary rows, bounds [-3,3] or [0,1] (any bounds within [-8,8] for the integer moves), any current point, any one variable fixed, any improvability marks, every acceptance setting, two-flip pairs and user-defined moves"],
 "assumptions": ["single thread", "dyadic coefficients and the coefficient 3"],
 "reach": ["flagged","filtered","fixed","preserve","binary","integer","special","soft","userdef","twoflip","xnor3"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
using Gen = neighborhood::AbstractMoveGenerator<int, double>;
struct Shape { double c[4]; int s; int bin; int kind; };   // kind: what must hold after the move 0 nothing 1 the row 2 the row if it held before
static const Shape SH[] = {
    {{1, 1, 0, 0}, 1, 1, 1}, {{-1, -1, 0, 0}, 1, 1, 1},      // exclusive or (constant -1 / 1), else aggregation
    {{1, -1, 0, 0}, 1, 1, 1}, {{-1, 1, 0, 0}, 1, 1, 1},      // exclusive nor (constant 0), else aggregation
    {{1, 1, 0, 0}, 1, 0, 1}, {{-1, -1, 0, 0}, 1, 0, 1},      // inverted / constant sum
    {{1, -1, 0, 0}, 1, 0, 1}, {{-1, 1, 0, 0}, 1, 0, 1},      // balanced / constant difference
    {{1, 2, 0, 0}, 1, 0, 1}, {{2, 1, 0, 0}, 1, 0, 1}, {{-3, 1, 0, 0}, 1, 0, 1}, {{1, 0.5, 0, 0}, 1, 0, 1}, {{0.5, -1, 0, 0}, 1, 0, 1},   // constant ratio (constant 0)
    {{2, 2, 0, 0}, 1, 0, 1}, {{2, -3, 0, 0}, 1, 0, 1}, {{-0.5, 2, 0, 0}, 1, 0, 1},   // aggregation
    {{2, -2, 0, 0}, 0, 0, 2}, {{1, -1, 0, 0}, 2, 0, 2}, {{-1, 1, 0, 0}, 0, 1, 2},   // precedence
    {{1, 2, 0, 0}, 0, 0, 1}, {{-2, 1, 0, 0}, 0, 0, 1}, {{3, -1, 0, 0}, 2, 0, 1}, {{-0.5, -2, 0, 0}, 2, 0, 1}, {{1, 3, 0, 0}, 2, 0, 1},   // variable bound
    {{1, 1, -2, 0}, 1, 1, 1}, {{-1, 2, -1, 0}, 1, 1, 1},     // trinomial exclusive nor
    {{1, -1, -1, -1}, 1, 1, 3}, {{1, 1, -1, 1}, 1, 1, 3},    // soft selection
};
static const int NSH = sizeof(SH) / sizeof(SH[0]);
static void check_move(IPModel& m, RefModel& R, std::vector<IPVar*>& V, IPMove& mv, int special) {
    vf_reach("flagged");
    vf_assert(mv.alterations.size() > 0, "an empty move");
    int changes = 0;
    auto& g = m.constraint_proxies()[0].flat_indexed_constraints();
    for (size_t a = 0; a < mv.alterations.size(); a++) {
        auto* p = mv.alterations[a].first; int t = mv.alterations[a].second;
        vf_assert(!p->is_fixed(), "a fixed variable is moved");
        vf_assert((p->lower_bound() <= t) & (t <= p->upper_bound()), "a move leaves the variable's bounds");
        changes |= t != p->value();
        for (size_t b = 0; b < a; b++) vf_assert(mv.alterations[b].first != p, "a variable occurs twice in a move");
        for (size_t i = 0; i < R.rows.size(); i++) {
            int j = 0; while (V[j] != p) j++;
            if (R.rows[i].c[j] == 0) continue;
            bool found = false;
            for (auto* c : mv.related_constraint_ptrs) found |= c == &g[i];
            vf_assert(found, "a row of a moved variable is missing from the move's related rows");
        }
    }
    if (mv.sense != neighborhood::MoveSense::UserDefined) vf_assert(changes, "a move that changes nothing");
    vf_assert(mv.is_univariable_move == (mv.alterations.size() == 1), "univariable mark");
    if (!special) return;
    std::vector<int> y(R.n), x(R.n);
    for (int j = 0; j < R.n; j++) y[j] = x[j] = V[j]->value();
    for (auto& al : mv.alterations) { int j = 0; while (V[j] != al.first) j++; y[j] = al.second; }
    double before = R.row(0, x), after = R.row(0, y);
    vf_reach("preserve");
    if (special == 1) {
        // equality: excused only where no integer value of the partner fits the value of the variable that was stepped by one
        int integral = 1;
        if (R.rows[0].s == 1 && mv.alterations.size() == 2) for (int a = 0; a < 2; a++) {
            int i = 0, j = 0; while (V[i] != mv.alterations[a].first) i++; while (V[j] != mv.alterations[1 - a].first) j++;
            double rest = R.rows[0].k + R.rows[0].c[i] * y[i];
            int exists = 0;
            for (int t = -9; t <= 9; t++) exists |= rest + R.rows[0].c[j] * t == 0;
            int unit = (y[i] - x[i] == 1) | (x[i] - y[i] == 1);
            integral &= !unit | exists;
        }
        vf_assert(!integral | vf_rel(after, R.rows[0].s), "the move does not satisfy the row it was derived from");
    } else if (special == 2) vf_assert(!vf_rel(before, R.rows[0].s) | vf_rel(after, R.rows[0].s), "the move breaks the row it was derived from");
    else { // soft selection: the key variable and one other take the same value
        vf_assert(mv.alterations.size() == 2, "soft selection moves two variables");
        vf_assert((after == before) | (before != 0), "a soft selection move breaks its row");
    }
}
extern "C" void vf_harness() {
    IPModel m("m");
    option::Option o;
    RefModel R;
    int sh = vf_concrete(vf_int("shape", 0, NSH + 2));
    int basic = sh == NSH, flip = sh == NSH + 1, user = sh == NSH + 2;
    const Shape* S = sh < NSH ? &SH[sh] : nullptr;
    R.n = 4;
    auto& v = m.create_variables("x", 4, -3, 3);
    std::vector<IPVar*> V;
    for (int j = 0; j < 4; j++) V.push_back(&v(j));
    static const char* XN[4] = {"x0", "x1", "x2", "x3"};
    int lb = -3, ub = 3;
    if (basic) { lb = vf_int("lb", -8, 0); ub = vf_int("ub", 0, 8); vf_assume(lb < ub); v(0).set_bound(lb, ub); v(1).set_bound(0, 1); v(2).set_bound(0, 1); }
    if (S) for (int j = 0; j < 4; j++) if (S->bin) v(j).set_bound(0, 1);
    if (flip) { v(0).set_bound(0, 1); v(1).set_bound(0, 1); v(2).set_bound(2, 5); v(3).set_bound(-2, 2); }
    double k = S ? (vf_int("k", -2, 2) * (S->bin ? 1.0 : 0.5)) : 1;
    if (S && S->kind == 3) vf_assume(k == 0);
    if (S) R.rows.push_back({{S->c[0], S->c[1], S->c[2], S->c[3]}, k, S->s});
    else R.rows.push_back({{1, 1, 1, -1}, -2, 0});
    // three variables each, so that these rows give no moves of their own
    R.rows.push_back({{1, 0, 2, 1}, -1, 0});
    R.rows.push_back({{0, 1, 3, -1}, 1, 2});
    R.obj = {1, -1, 2, 0.5};
    auto& g = m.create_constraints("g", (int)R.rows.size());
    for (int i = 0; i < (int)R.rows.size(); i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    m.minimize(vf_expr(R.obj, 0, v));
    int fx = vf_concrete(vf_int("fixed", -1, 2));
    if (fx >= 0) { vf_reach("fixed"); v(fx).fix_by(flip && fx == 2 ? 2 : basic && fx == 0 ? lb : 1); }
    vf_no_presolve(o);
    o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = false;
    o.neighborhood.selection_mode = option::selection_mode::Off;
    auto& nb = m.neighborhood();
    if (flip) {
        o.neighborhood.is_enabled_two_flip_move = true;
        for (int j = 0; j < 4; j++) v(j).set_name(XN[j]);
        m.setup_flippable_variable_ptr_pairs({{"x0", "x1"}, {"x1", "x2"}, {"x3", "x0"}, {"x0", "nosuch"}});
        vf_reach("twoflip");
    }
    int u0 = user ? vf_int("u0", -5, 5) : 0, u1 = user ? vf_int("u1", -5, 5) : 0;
    if (user) {
        o.neighborhood.is_enabled_user_defined_move = true;
        nb.user_defined().set_move_updater([&](std::vector<IPMove>* mv) {
            mv->resize(1); auto& a = (*mv)[0]; a.alterations.clear(); a.alterations.emplace_back(V[0], u0); a.alterations.emplace_back(V[1], u1);
            for (int i = 0; i < 3; i++) a.related_constraint_ptrs.push_back(&m.constraint_proxies()[0].flat_indexed_constraints()[i]);
        });
        vf_reach("userdef");
    }
    o.neighborhood.is_enabled_exclusive_or_move = o.neighborhood.is_enabled_exclusive_nor_move = o.neighborhood.is_enabled_inverted_integers_move = o.neighborhood.is_enabled_balanced_integers_move = o.neighborhood.is_enabled_constant_sum_integers_move = o.neighborhood.is_enabled_constant_difference_integers_move = o.neighborhood.is_enabled_constant_ratio_integers_move = o.neighborhood.is_enabled_aggregation_move = o.neighborhood.is_enabled_precedence_move = o.neighborhood.is_enabled_variable_bound_move = o.neighborhood.is_enabled_trinomial_exclusive_nor_move = o.neighborhood.is_enabled_soft_selection_move = o.neighborhood.is_enabled_chain_move = true;
    m.setup(o, false);
    std::vector<Gen*> SP = {&nb.exclusive_or(), &nb.exclusive_nor(), &nb.inverted_integers(), &nb.balanced_integers(), &nb.constant_sum_integers(), &nb.constant_difference_integers(), &nb.constant_ratio_integers(), &nb.aggregation(), &nb.precedence(), &nb.variable_bound(), &nb.trinomial_exclusive_nor(), &nb.soft_selection()};
    std::vector<Gen*> ALL = SP;
    ALL.push_back(&nb.binary()); ALL.push_back(&nb.integer()); ALL.push_back(&nb.two_flip()); ALL.push_back(&nb.user_defined());
    for (auto* g : ALL) g->enable();
    for (int j = 0; j < 4; j++) if (!v(j).is_fixed()) {
        if ((S && S->c[j] == 0) || (user && j >= 2)) { v(j) = j == 2; continue; }
        int t = vf_int(XN[j], basic && j == 0 ? -8 : -3, basic && j == 0 ? 8 : flip && j == 2 ? 5 : 3);
        vf_assume((v(j).lower_bound() <= t) & (t <= v(j).upper_bound()));
        v(j) = t;
    }
    nb.update_moves(true, false, false, false, 1);
    // every generator
    size_t total = 0;
    for (auto* G : ALL) {
        vf_assert(G->moves().size() == G->flags().size(), "moves and flags differ in number");
        for (size_t i = 0; i < G->moves().size(); i++) if (G->flags()[i]) total++;
    }
    vf_assert(total == nb.move_ptrs().size(), "the list of candidate moves is not the flagged moves");
    for (auto* mv : nb.move_ptrs()) {
        int special = 0;
        if (S && (mv->sense != neighborhood::MoveSense::Binary) & (mv->sense != neighborhood::MoveSense::Integer) && mv->alterations.size() >= 2) {
            // rows 1 and 2 also give variable-bound moves: only moves over row 0's variables
            bool on0 = true; int n0 = 0;
            for (auto& al : mv->alterations) { int j = 0; while (V[j] != al.first) j++; on0 &= S->c[j] != 0; }
            for (int j = 0; j < 4; j++) n0 += S->c[j] != 0;
            if (on0 && ((int)mv->alterations.size() == n0 || S->kind == 3)) special = S->kind;
            if (n0 == 3) vf_reach("xnor3");
            if (mv->sense == neighborhood::MoveSense::SoftSelection) vf_reach("soft");
            if (special) vf_reach("special");
        }
        check_move(m, R, V, *mv, special);
    }
    // completeness of the basic moves
    for (int j = 0; j < 4; j++) {
        auto* p = V[j];
        if (p->is_fixed()) continue;
        bool isbin = p->sense() == model_component::VariableSense::Binary;
        Gen& G = isbin ? (Gen&)nb.binary() : (Gen&)nb.integer();
        int up = 0, dn = 0, fl = 0;
        for (size_t i = 0; i < G.moves().size(); i++) if (G.flags()[i] && G.moves()[i].alterations[0].first == p) {
            int t = G.moves()[i].alterations[0].second;
            up |= t == p->value() + 1; dn |= t == p->value() - 1; fl |= t == 1 - p->value();
        }
        if (isbin) { vf_reach("binary"); vf_assert(fl, "a free binary variable has no flip move"); }
        else {
            vf_reach("integer");
            vf_assert(up | (p->value() == p->upper_bound()), "an integer variable below its upper bound has no increasing move");
            vf_assert(dn | (p->value() == p->lower_bound()), "an integer variable above its lower bound has no decreasing move");
        }
    }
    // the acceptance settings keep exactly the moves with an improvable variable
    std::vector<std::vector<short>> F0;
    for (auto* G : ALL) F0.push_back(G->flags());
    int combo = vf_concrete(vf_int("marks", 0, TQ(2, 44)));
    static const int MO[3][3] = {{1, 1, 0}, {6, 0, 1}, {9, 1, 1}};
    int marks = TQ(MO[combo % 3][0], combo % 15), ao = TQ(MO[combo % 3][1], combo < 30), af = TQ(MO[combo % 3][2], combo >= 15);
    for (int j = 0; j < 4; j++) { v(j).set_is_objective_improvable((marks >> j) & 1); v(j).set_is_feasibility_improvable((marks >> (3 - j)) & 1); }
    nb.update_moves(false, ao, af, false, 1);
    vf_reach("filtered");
    for (size_t q = 0; q < ALL.size(); q++) for (size_t i = 0; i < ALL[q]->moves().size(); i++) {
        int want = 0;
        for (auto& al : ALL[q]->moves()[i].alterations) want |= (ao && al.first->is_objective_improvable()) || (af && al.first->is_feasibility_improvable());
        vf_assert((ALL[q]->flags()[i] != 0) == ((F0[q][i] != 0) && want), "screening keeps exactly the moves with an improvable variable");
    }
}
