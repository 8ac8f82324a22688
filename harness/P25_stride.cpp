/*META
{"bounds": ["models of 2 or 3 integer variables with one to three constraints (6 rows sets, senses <=, = and >=), minimised and maximised; bounds of the moved variable with widths 0 to 9 at 6 offsets from -13 to 8 or the default bounds; every current point with values in the bounds (the other variable in [-1,1]); every first target within the bounds"],
 "bounds_thorough": ["as quick with widths up to 40 and the other variable in [-3,3]"],
 "assumptions": ["integral coefficients and penalty coefficient 8, so double arithmetic is exact"],
 "reach": ["up","down","farther","shorter","kept","at a bound","wide"]}
*/
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    static const int C[6][3][4] = {   // x, y, constant, sense
        {{1, 1, -6, 0}, {1, -1, 2, 2}, {0, 0, 0, -1}},
        {{2, 1, -7, 1}, {0, 0, 0, -1}, {0, 0, 0, -1}},
        {{-3, 2, 5, 2}, {1, 1, 4, 2}, {2, -1, -9, 0}},
        {{1, 0, -5, 0}, {1, 0, 3, 2}, {1, 1, 1, 1}},
        {{-1, 3, -4, 0}, {-2, -1, -8, 0}, {1, 2, -10, 0}},
        {{5, 0, -11, 1}, {-1, 2, 0, 0}, {3, 1, 1, 2}}};
    static const int OB[3][2] = {{1, -1}, {-2, 1}, {0, 1}};
    static const int LB[6] = {-13, -5, -2, 0, 3, 8};
    int w = vf_concrete(vf_int("rows", 0, 5)), d = vf_concrete(vf_int("width", 0, 5)), ob = (w + d) % 3;
    bool mx = vf_concrete(vf_bool("maximize")), wide = d == 5;
    IPModel m("m");
    int lb = wide ? constant::INT_HALF_MIN : LB[(w + TQ(d, 2 * d)) % 6];
    static const int WD[5] = {0, 1, 3, TQ(6, 25), TQ(9, 40)};
    int ub = wide ? constant::INT_HALF_MAX : lb + WD[d];
    auto& x = wide ? m.create_variable("x") : m.create_variable("x", lb, ub);
    auto& y = m.create_variable("y", -3, 3);
    int x0 = wide ? vf_int("x0", -3, 3) : vf_int("x0", lb, ub), y0 = vf_int("y0", TQ(-1, -3), TQ(1, 3));
    x = x0; y = y0;
    std::vector<RefRow> rows;
    RefModel R; R.n = 2; R.obj = {(double)OB[ob][0], (double)OB[ob][1]}; R.obj0 = 2;
    for (int i = 0; i < 3; i++) if (C[w][i][3] >= 0) R.rows.push_back({{(double)C[w][i][0], (double)C[w][i][1]}, (double)C[w][i][2], C[w][i][3]});
    std::vector<IPVar*> xs = {&x[0], &y[0]};
    auto ex = [&](const std::vector<double>& c, double k) { IPExpr e = IPExpr::create_instance(); for (int j = 0; j < 2; j++) if (c[j] != 0) e += c[j] * (*xs[j]); e += k; return e; };
    static const char* NM[3] = {"c0", "c1", "c2"};
    for (size_t i = 0; i < R.rows.size(); i++) m.create_constraint(NM[i], vf_cons(ex(R.rows[i].c, R.rows[i].k), R.rows[i].s));
    if (mx) m.maximize(ex(R.obj, R.obj0)); else m.minimize(ex(R.obj, R.obj0));
    option::Option o; vf_no_presolve(o);
    o.penalty.initial_penalty_coefficient = 8; o.penalty.is_enabled_shrink_penalty_coefficient = false;
    m.setup(o, false);
    m.update();
    auto cur = m.evaluate({});
    int t = wide ? x0 + vf_int("step", -1, 1) : vf_int("target", lb, ub);
    vf_assume(t != x0);
    IPMove mv;
    mv.sense = neighborhood::MoveSense::Integer;
    mv.alterations.emplace_back(&x[0], t);
    for (auto c : x[0].related_constraint_ptrs()) mv.related_constraint_ptrs.insert(mv.related_constraint_ptrs.end(), c);
    mv.is_univariable_move = true;
    solver::IntegerStepSizeAdjuster<int, double> a(&m, o);
    a.adjust(&mv, cur);
    vf_assert(mv.alterations.size() == 1 && mv.alterations[0].first == &x[0], "the adjusted move alters another variable");
    int r = mv.alterations[0].second;
    vf_assert((r >= lb) & (r <= ub), "the adjusted move leaves the bounds");
    vf_assert(((t > x0) & (r > x0)) | ((t < x0) & (r < x0)), "the adjusted move goes in another direction");
    double s = mx ? -1 : 1;
    double before = s * R.objective({t, y0}) + 8 * R.total({t, y0}), after = s * R.objective({r, y0}) + 8 * R.total({r, y0});
    vf_assert(after <= before, "the adjusted move is worse than the given one");
    vf_assert(((r == t) | (after < before)), "the move is altered for nothing");
    vf_assert((x.value() == x0) & (y.value() == y0), "the adjustment changes the current point");
    if (t > x0) vf_reach("up"); else vf_reach("down");
    if (r == t) vf_reach("kept");
    else if ((r > t) == (t > x0)) vf_reach("farther");
    else vf_reach("shorter");
    if (r == lb || r == ub) vf_reach("at a bound");
    if (wide) vf_reach("wide");
}
