/*META
{"bounds": ["models of 6 variables with two or three special rows of each type (as in P08), ordinary rows, one variable fixed or none, any current point in [-1,1] (or {0,1}) for three of the variables and fixed values for the others, one or any other pattern of improvable variables; teams of 2 and 3 members run forwards and backwards, against no parallel execution at all; two successive updates; binary, integer, selection, two-flip, chain and user-defined moves"],
 "assumptions": ["the members of a team run one after another; accesses by the C++ library's own compiled code (strings, streams) are not seen"],
 "omp": true,
 "reach": ["teams","moves","selection","chain","user","flip","special"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
using Gen = neighborhood::AbstractMoveGenerator<int, double>;
struct Shape { double c[3]; double k; int s; int bin; };
static const Shape SH[] = {
    {{1, 1, 0}, -1, 1, 1}, {{1, -1, 0}, 0, 1, 1}, {{1, 1, 0}, 0, 1, 0}, {{1, -1, 0}, 0, 1, 0}, {{1, 1, 0}, -1, 1, 0}, {{1, -1, 0}, -1, 1, 0}, {{1, 2, 0}, 0, 1, 0}, {{2, -3, 0}, 1, 1, 0},
    {{2, -2, 0}, 0, 0, 0}, {{1, 3, 0}, -1, 0, 0}, {{1, 1, -2}, 0, 1, 1}, {{1, -1, -1}, 0, 1, 1}};
static const int NSH = sizeof(SH) / sizeof(SH[0]);
struct World {
    IPModel m; option::Option o; std::vector<IPVar*> V; std::vector<Gen*> G;
    World() : m("m") {}
    void build(int sh, int fx) {
        const Shape* S = sh < NSH ? &SH[sh] : nullptr;
        auto& v = m.create_variables("x", 6, -3, 3);
        for (int j = 0; j < 6; j++) { V.push_back(&v(j)); if ((S && S->bin) || sh > NSH) v(j).set_bound(0, 1); }
        if (sh == NSH) { v(0).set_bound(0, 1); v(1).set_bound(0, 1); v(2).set_bound(0, 1); }
        if (S) { int w = S->c[2] != 0 ? 3 : 2; for (int i = 0; i * w < 6; i++) { auto e = S->c[0] * v(i * w) + S->c[1] * v(i * w + 1) + S->k; if (w == 3) e += S->c[2] * v(i * w + 2); m.create_constraint("s" + std::to_string(i), vf_cons(e, S->s)); } }
        if (sh == NSH + 1) { m.create_constraint("p", v(0) + v(1) + v(2) == 1); m.create_constraint("q", v(3) + v(4) + v(5) == 1); }
        m.create_constraint("a", v(0) + 2 * v(2) + v(3) <= 1);
        m.create_constraint("b", v(1) + 3 * v(4) - v(5) >= -1);
        m.minimize(v(0) - v(1) + 2 * v(3) - v(5));
        if (fx >= 0) v(fx).fix_by(0);
        vf_no_presolve(o);
        o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = false;
        o.neighborhood.selection_mode = sh == NSH + 1 ? option::selection_mode::Defined : option::selection_mode::Off;
        auto& nb = m.neighborhood();
        if (sh == NSH + 2) { o.neighborhood.is_enabled_two_flip_move = true; static const char* X[6] = {"x0", "x1", "x2", "x3", "x4", "x5"}; for (int j = 0; j < 6; j++) v(j).set_name(X[j]); m.setup_flippable_variable_ptr_pairs({{"x0", "x1"}, {"x1", "x2"}, {"x3", "x0"}, {"x4", "x5"}}); }
        if (sh == NSH + 3) {
            o.neighborhood.is_enabled_user_defined_move = true;
            auto W = V; auto* mm = &m;
            nb.user_defined().set_move_updater([W, mm](std::vector<IPMove>* mv) {
                mv->resize(3);
                for (int k = 0; k < 3; k++) { auto& a = (*mv)[k]; a.alterations.clear(); a.related_constraint_ptrs.clear(); a.alterations.emplace_back(W[k], 1); a.alterations.emplace_back(W[k + 3], 0); for (auto& p : mm->constraint_proxies()) a.related_constraint_ptrs.push_back(&p.flat_indexed_constraints()[0]); }
            });
        }
        o.neighborhood.is_enabled_exclusive_or_move = o.neighborhood.is_enabled_exclusive_nor_move = o.neighborhood.is_enabled_inverted_integers_move = o.neighborhood.is_enabled_balanced_integers_move = o.neighborhood.is_enabled_constant_sum_integers_move = o.neighborhood.is_enabled_constant_difference_integers_move = o.neighborhood.is_enabled_constant_ratio_integers_move = o.neighborhood.is_enabled_aggregation_move = o.neighborhood.is_enabled_precedence_move = o.neighborhood.is_enabled_variable_bound_move = o.neighborhood.is_enabled_trinomial_exclusive_nor_move = o.neighborhood.is_enabled_soft_selection_move = o.neighborhood.is_enabled_chain_move = true;
        m.setup(o, false);
        G = {&nb.exclusive_or(), &nb.exclusive_nor(), &nb.inverted_integers(), &nb.balanced_integers(), &nb.constant_sum_integers(), &nb.constant_difference_integers(), &nb.constant_ratio_integers(), &nb.aggregation(), &nb.precedence(), &nb.variable_bound(), &nb.trinomial_exclusive_nor(), &nb.soft_selection(), &nb.binary(), &nb.integer(), &nb.two_flip(), &nb.user_defined(), &nb.selection(), &nb.chain()};
        for (auto* g : G) g->enable();
        if (sh == NSH + 4) for (int k = 0; k < 3; k++) { IPMove mv; mv.alterations.emplace_back(V[k], 1); mv.alterations.emplace_back(V[k + 3], 0); mv.sense = neighborhood::MoveSense::Chain; mv.hash = k; nb.chain().register_move(mv); }
    }
    int index(IPVar* p) { int j = 0; while (j < 6 && V[j] != p) j++; return j; }
};
static void same(World& A, World& B) {
    for (size_t q = 0; q < A.G.size(); q++) {
        auto &a = A.G[q]->moves(), &b = B.G[q]->moves();
        vf_assert(a.size() == b.size() && A.G[q]->flags().size() == B.G[q]->flags().size(), "the number of moves depends on the threads");
        for (size_t i = 0; i < a.size(); i++) {
            vf_assert((A.G[q]->flags()[i] != 0) == (B.G[q]->flags()[i] != 0), "which moves are candidates depends on the threads");
            vf_assert(a[i].alterations.size() == b[i].alterations.size() && a[i].is_univariable_move == b[i].is_univariable_move && a[i].sense == b[i].sense, "the moves depend on the threads");
            for (size_t k = 0; k < a[i].alterations.size(); k++) {
                vf_assert(A.index(a[i].alterations[k].first) == B.index(b[i].alterations[k].first), "the variables of a move depend on the threads");
                vf_assert(a[i].alterations[k].second == b[i].alterations[k].second, "the values of a move depend on the threads");
            }
        }
    }
    vf_assert(A.m.neighborhood().move_ptrs().size() == B.m.neighborhood().move_ptrs().size(), "the number of candidate moves depends on the threads");
}
extern "C" void vf_harness() {
    int sh = vf_concrete(vf_int("shape", 0, NSH + 4)), T = vf_concrete(vf_int("threads", 2, 3)), back = vf_concrete(vf_int("backwards", 0, 1)), fx = vf_concrete(vf_int("fixed", -1, TQ(0, 2)));
    vf_team(T == 2 ? 3 : 2, back);   // teams that do not ask for a size get another one
    World A, B; A.build(sh, fx); B.build(sh, fx);
    static const char* XN[6] = {"x0", "x1", "x2", "x3", "x4", "x5"};
    bool bin = sh > NSH || (sh < NSH && SH[sh].bin);
    for (int j = 0; j < 6; j++) if (j != fx) {
        int t = sh == NSH + 1 ? j == 0 || j == 4 : j % 2 || (sh == NSH && j < 3) ? (j == 1) : vf_int(XN[j], bin ? 0 : -1, 1);
        *A.V[j] = t; *B.V[j] = t;
    }
    if (sh == NSH + 1) vf_reach("selection");
    if (sh == NSH + 2) vf_reach("flip");
    if (sh == NSH + 3) vf_reach("user");
    if (sh == NSH + 4) vf_reach("chain");
    if (sh < NSH) vf_reach("special");
    A.m.neighborhood().update_moves(true, false, false, false, 1);
    int before = vf_teams(); vf_team_sizes();
    B.m.neighborhood().update_moves(true, false, false, true, T);
    vf_assert(vf_races() == 0, "threads that update moves touch the same data");
    vf_assert((vf_team_sizes() & ~(1 << T)) == 0, "a team of another size than asked for");
    if (vf_teams() > before) vf_reach("teams");
    if (!A.m.neighborhood().move_ptrs().empty()) vf_reach("moves");
    same(A, B);
    int mode = vf_concrete(vf_int("accept", 0, 2)), marks = vf_concrete(vf_int("marks", 0, TQ(1, 3)));
    static const int MK[4] = {0b000110, 0b101001, 0b010000, 0b111111};
    for (int j = 0; j < 6; j++) for (auto* w : {&A, &B}) { w->V[j]->set_is_objective_improvable(MK[marks] >> j & 1); w->V[j]->set_is_feasibility_improvable(MK[marks] >> (5 - j) & 1); }
    A.m.neighborhood().update_moves(false, mode != 1, mode != 0, false, 1);
    B.m.neighborhood().update_moves(false, mode != 1, mode != 0, true, T);
    vf_assert(vf_races() == 0, "threads that update moves touch the same data");
    same(A, B);
}
