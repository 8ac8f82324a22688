/*META
{"bounds": ["bound from the variable bounds: 3 variables with any bounds within [-3,3], 6 objectives, any one variable fixed at any value, minimise and maximise, before and after presolve, every point of the box", "Lagrangian: any multipliers of 3 rows in [-3,3], every point", "exported LP: 3 rows of all senses with any right-hand sides, fixed variable, sum-to-one row turned into a selection, every point", "bounds reported by whole runs with Lagrange dual (up to 8 iterations) and PDLP (up to 60 iterations) for 6 models with all right-hand sides in [-2,2], every point"],
 "assumptions": ["bounds by the Lagrange dual and by PDLP may be off by the rounding error and the tolerance of PDLP (1e-6 and 1e-3 in the check)"],
 "reach": ["naive","naive presolved","fixed","lagrangian","lp","lp selection","lp fixed","maximise","run lagrange","run pdlp","tight"]}
*/
#include "text.h"
#include "lib.h"
#include "solver/solver.h"
extern "C" void vf_setup() {}
static const double C[6][3][3] = {{{1, 2, -1}, {1, 1, 1}, {2, 0, -1}}, {{1, -1, 0}, {0, 2, 1}, {1, 1, 1}}, {{-1, -1, 2}, {1, 0, -2}, {0, 1, 1}}, {{1, 1, 1}, {3, -2, 1}, {1, 0, 1}}, {{0.5, 1, 0}, {1, 0, -1}, {-1, 2, 1}}, {{2, 2, -1}, {-1, 1, 1}, {1, 0, 0}}};
static const int S[6][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {1, 0, 0}, {2, 2, 1}, {0, 1, 2}};
static const double O[6][3] = {{1, 2, -1}, {-1, -2, -1}, {2, -3, 0}, {0.5, 1, 1}, {-2, 0, 0.5}, {0, 0, 1}};
static const char *PN[3] = {"p0", "p1", "p2"}, *LN[3] = {"l0", "l1", "l2"}, *UN[3] = {"u0", "u1", "u2"};
extern "C" void vf_harness() {
    vf_opaque_text();
    int sc = vf_scn(4), c = vf_concrete(vf_int("pattern", 0, 5)), mx = vf_concrete(vf_int("maximise", 0, 1)), q = vf_concrete(vf_int("objective", 0, 5));
    IPModel m("m"); option::Option o; RefModel R; R.n = 3;
    o.output.verbose = option::verbose::Off;
    double sgn = mx ? -1 : 1;
    if (mx) vf_reach("maximise");
    auto& v = m.create_variables("x", 3, -3, 3);
    R.obj = {O[q][0], O[q][1], O[q][2]}; R.obj0 = c % 2 ? -7 : 2; R.minimize = !mx;
    IPExpr e = vf_expr(R.obj, R.obj0, v);
    std::vector<int> p(3);
    int lo[3] = {-3, -3, -3}, hi[3] = {3, 3, 3};
    auto objective = [&] { if (mx) m.maximize(e); else m.minimize(e); };
    if (sc == 0) {
        int pre = vf_concrete(vf_int("presolve", 0, 1)), fx = vf_concrete(vf_int("fixed", -1, 2));
        if (pre && (q + c) % 3) vf_skip();
        for (int j = 0; j < 3; j++) {
            lo[j] = pre && j ? -1 : vf_int(LN[j], -3, 3); hi[j] = pre && j ? 2 : vf_int(UN[j], -3, 3);
            vf_assume(lo[j] <= hi[j]);
            v(j).set_bound(lo[j], hi[j]);
            p[j] = vf_int(PN[j], -3, 3);
            vf_assume((lo[j] <= p[j]) & (p[j] <= hi[j]));
            v(j) = lo[j];
        }
        if (fx >= 0) { v(fx).fix_by(p[fx]); vf_reach("fixed"); }
        R.rows.push_back({{C[c][0][0], C[c][0][1], C[c][0][2]}, pre ? -1.0 : 0.0, S[c][0]});
        m.create_constraint("g", vf_cons(vf_expr(R.rows[0].c, R.rows[0].k, v), S[c][0]));
        objective();
        if (!pre) vf_no_presolve(o);
        bool thrown = false;
        int feas = vf_sat_ref(R, p);
        try { m.setup(o, false); } catch (std::logic_error&) { thrown = true; }
        if (thrown) { vf_assert(!feas, "a model with a solution is rejected"); return; }
        double b = m.compute_naive_dual_bound();
        vf_reach(pre ? "naive presolved" : "naive");
        vf_assert((sgn * b <= sgn * R.objective(p)) | (pre & !feas), "the dual bound cuts off a point");
        if (!pre) {   // the bound is attained
            double best = R.obj0;
            for (int j = 0; j < 3; j++) best += j == fx ? R.obj[j] * p[j] : sgn * R.obj[j] > 0 ? R.obj[j] * lo[j] : R.obj[j] * hi[j];
            vf_assert(b == best, "the dual bound is not the best value within the bounds");
            vf_reach("tight");
        }
        return;
    }
    for (int i = 0; i < 3; i++) R.rows.push_back({{C[c][i][0], C[c][i][1], C[c][i][2]}, 0, S[c][i]});
    static const char* KN[3] = {"k0", "k1", "k2"};
    if (sc == 3) {
        int run = vf_concrete(vf_int("run", 0, 1));
        for (int i = 0; i < 3; i++) R.rows[i].k = i == 2 ? (c % 3) - 1 : vf_concrete(vf_int(KN[i], -2, 2));
        if (q != (c + run) % 6 && !TQ(q == (c + 2) % 6, 1)) vf_skip();
        auto& g = m.create_constraints("g", 3);
        for (int i = 0; i < 3; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
        objective();
        for (int j = 0; j < 3; j++) { v(j).set_bound(lo[j] = -1, hi[j] = 2); p[j] = vf_int(PN[j], -1, 2); }
        o.general.iteration_max = 1; o.tabu_search.iteration_max = 1; o.local_search.is_enabled = false;
        if (run) { o.pdlp.is_enabled = true; o.pdlp.iteration_max = 60; o.pdlp.convergence_check_interval = 5; vf_reach("run pdlp"); }
        else { o.lagrange_dual.is_enabled = true; o.lagrange_dual.iteration_max = 1 + c; o.lagrange_dual.queue_size = 3; vf_reach("run lagrange"); }
        int feas = vf_sat_ref(R, p);
        solver::IPSolver sv(&m, o);
        try { sv.solve(); } catch (std::logic_error&) { vf_assert(!feas, "a model with a solution is rejected"); return; }
        double b = sv.global_state().incumbent_holder.dual_bound();
        vf_assert(!feas | (sgn * b <= sgn * R.objective(p) + (run ? 1e-3 : 1e-6)), "the reported dual bound cuts off a solution");
        return;
    }
    for (int j = 0; j < 3; j++) { p[j] = vf_int(PN[j], -2, 3); v(j) = 0; }
    if (sc == 1) {
        auto& g = m.create_constraints("g", 3);
        for (int i = 0; i < 3; i++) { R.rows[i].k = (i + c) % 4 - 2; g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s); }
        objective();
        vf_no_presolve(o);
        m.setup(o, false);
        static const char* YN[3] = {"y0", "y1", "y2"};
        auto dual = m.generate_constraint_parameter_proxies(0.0);
        double L = R.objective(p);
        int feas = vf_sat_ref(R, p), okdual = 1;
        for (int i = 0; i < 3; i++) {
            int y = i == 2 ? c % 3 - 1 : vf_concrete(vf_int(YN[i], -2, 2));
            if (i == 2 && R.rows[2].s == 0 && y < 0) y = 1;
            dual[0].flat_indexed_values(i) = y;
            L += sgn * y * R.row(i, p);
            okdual &= R.rows[i].s == 1 || (R.rows[i].s == 0 ? y >= 0 : y <= 0);
        }
        for (int j = 0; j < 3; j++) v(j) = p[j];
        m.update();
        double got = m.compute_lagrangian(dual);
        vf_assert(got == L, "the Lagrangian at a point");
        vf_assert(!(okdual & feas) | (sgn * got <= sgn * R.objective(p)), "the Lagrangian exceeds the objective of a solution");
        vf_reach("lagrangian");
        return;
    }
    // exported LP
    int fx = vf_concrete(vf_int("fixed", -1, 2)), sel = c == 3;
    if (q % 3 != (c + fx + 1) % 3) vf_skip();
    if (sel) for (int j = 0; j < 3; j++) { v(j).set_bound(0, 1); lo[j] = 0; hi[j] = 1; }
    if (sel && fx >= 0) vf_skip();
    for (int i = 0; i < 3; i++) R.rows[i].k = sel && i == 0 ? -1 : vf_int(KN[i], -3, 3);
    auto& g = m.create_constraints("g", 3);
    for (int i = 0; i < 3; i++) g(i) = vf_cons(vf_expr(R.rows[i].c, R.rows[i].k, v), R.rows[i].s);
    auto& w = m.create_variables("w", 2, 0, 1);   // more variables than rows, so that selections are extracted
    objective();
    vf_no_presolve(o);
    int fv = 0;
    if (fx >= 0) { fv = vf_int("fixedvalue", -2, 3); v(fx).fix_by(fv); p[fx] = fv; vf_reach("lp fixed"); }
    if (sel) { o.neighborhood.selection_mode = option::selection_mode::Defined; v(0) = 1; }
    m.setup(o, false);
    if (sel && m.selections().size()) vf_reach("lp selection");
    m.update();
    auto lp = m.export_lp_instance();
    vf_reach("lp");
    vf_assert(lp.number_of_rows == 3, "the number of rows of the LP");
    vf_assert(lp.number_of_columns == 5 - (fx >= 0), "the number of columns of the LP");
    // columns in the order binaries, integers, selections of the mutable variables
    std::vector<IPVar*> col;
    for (auto ptr : m.variable_type_reference().binary_variable_ptrs) if (!ptr->is_fixed()) col.push_back(ptr);
    for (auto ptr : m.variable_type_reference().integer_variable_ptrs) if (!ptr->is_fixed()) col.push_back(ptr);
    for (auto ptr : m.variable_type_reference().selection_variable_ptrs) if (!ptr->is_fixed()) col.push_back(ptr);
    std::vector<double> px(col.size());
    double ob = lp.objective_offset;
    for (int i = 0; i < (int)col.size(); i++) {
        px[i] = 0;
        for (int j = 0; j < 3; j++) if (col[i] == &v(j)) {
            px[i] = p[j];
            vf_assert(lp.primal_lower_bounds[i] == lo[j] && lp.primal_upper_bounds[i] == hi[j], "the bounds of the LP");
            vf_assert(lp.primal_initial_solution[i] == v(j).value(), "the initial solution of the LP");
        }
        vf_assert(!lp.is_primal_lower_unbounded[i] && !lp.is_primal_upper_unbounded[i], "a bounded variable is unbounded in the LP");
        ob += lp.primal_objective_coefficients[i] * px[i];
    }
    vf_assert(ob == sgn * R.objective(p), "the objective of the LP");
    vf_assert(lp.is_minimization == !mx, "the sense of the LP");
    int all = 1;
    auto& A = lp.primal_constraint_coefficients;
    for (int i = 0; i < 3; i++) {
        double a = -lp.dual_objective_coefficients[i];
        for (int k = A.row_ptrs[i]; k < A.row_ptrs[i + 1]; k++) { vf_assert(A.row_indices[k] == i, "the rows of the LP"); a += A.values[k] * px[A.column_indices[k]]; }
        int eq = i >= lp.equal_constraint_index_range.first && i < lp.equal_constraint_index_range.second;
        int free_dual = lp.dual_lower_bounds[i] < 0;
        vf_assert(eq == free_dual, "the sign of the dual variables of the LP");
        all &= eq ? a == 0 : a >= 0;
        // transposed matrix
        auto& T = lp.dual_constraint_coefficients;
        for (int j = 0; j < lp.number_of_columns; j++) {
            double s = 0, t = 0;
            for (int k = A.row_ptrs[i]; k < A.row_ptrs[i + 1]; k++) if (A.column_indices[k] == j) s += A.values[k];
            for (int k = T.row_ptrs[j]; k < T.row_ptrs[j + 1]; k++) if (T.column_indices[k] == i) t += T.values[k];
            vf_assert(s == t, "the transposed matrix of the LP");
        }
    }
    vf_assert(all == (vf_sat_ref(R, p) != 0), "the solutions of the LP");
}
