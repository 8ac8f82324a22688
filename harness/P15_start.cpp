/*META
{"bounds": ["3 variables: one with any bounds within [-2,2], one 0-1 or with bounds [0,0] or [1,1], one integer; any initial values in [-4,4] (0-1: [-1,2]), any one variable fixed at any value by the user; correction on and off, presolve on and off; a row with any right-hand side in [-3,3]", "import of any solution values as dense solution, sparse solution and name-value table, with variables left out and fixed variables"],
 "assumptions": [],
 "reach": ["kept","corrected","rejected","fixed","binary","degenerate","dense","sparse","table","missing","import rejected","presolve"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    int sc = vf_scn(2), pre = vf_concrete(vf_int("presolve", 0, 1)), kind = vf_concrete(vf_int("kind", 0, 2)), fx = vf_concrete(vf_int("fixed", -1, 2));
    int corr = sc ? 1 : vf_concrete(vf_int("correction", 0, 1));
    IPModel m("m"); option::Option o;
    auto& x = m.create_variables("x", 2, -2, 2);
    auto& b = m.create_variable("b", kind == 2, kind != 1);
    vf_reach(kind ? "degenerate" : "binary");
    int l = vf_int("l", -2, 2), u = vf_int("u", -2, 2);
    vf_assume(l <= u);
    x(0).set_bound(l, u);
    int lo[3] = {l, -2, kind == 2}, hi[3] = {u, 2, kind != 1}, init[3];
    IPVar* V[3] = {&x(0), &x(1), &b(0)};
    static const char* IN[3] = {"i0", "i1", "i2"};
    for (int j = 0; j < 3; j++) {
        init[j] = sc ? 0 : j == 2 ? vf_int(IN[2], -1, 2) : vf_int(IN[j], j == 1 ? -3 : -4, j == 1 ? 3 : 4);
        if (sc) { init[j] = j == 2 ? (int)(kind == 2) : l; if (j == 1) init[j] = 0; }
        if (fx == j) { V[j]->fix_by(init[j]); vf_reach("fixed"); } else *V[j] = init[j];
    }
    m.create_constraint("g", x[0] + x[1] + b <= vf_int("k", 0, 3));
    m.create_constraint("h", x[0] - 2 * x[1] - b <= 6);
    m.create_constraint("i", 2 * x[0] - x[1] + 2 * b >= -7);
    m.minimize(x[0] - x[1] + b);
    o.preprocess.is_enabled_presolve = pre; o.preprocess.is_enabled_initial_value_correction = corr;
    int good = 1, fixbad = 0;
    for (int j = 0; j < 3; j++) { int in = (lo[j] <= init[j]) & (init[j] <= hi[j]); good &= in; if (fx == j) fixbad = !in; }
    bool thrown = false;
    try { m.setup(o, false); } catch (std::logic_error&) { thrown = true; }
    if (pre) vf_reach("presolve");
    if (thrown) {
        vf_reach("rejected");
        if (!pre) vf_assert(fixbad | (!corr & !good), "usable initial values are rejected");
        return;
    }
    if (!pre) vf_assert(!fixbad, "a fixed value outside the bounds is accepted");
    if (!pre && !corr) vf_assert(good, "initial values outside the bounds are accepted");
    for (int j = 0; j < 3; j++) {
        int w = V[j]->value();
        if (fx == j) { vf_assert(w == init[j], "a fixed value was changed"); continue; }
        vf_assert((lo[j] <= w) & (w <= hi[j]), "a starting value outside the bounds");
        vf_assert((V[j]->lower_bound() <= w) & (w <= V[j]->upper_bound()), "a starting value outside the tightened bounds");
        if (!pre) vf_assert(w == (init[j] < lo[j] ? lo[j] : init[j] > hi[j] ? hi[j] : init[j]), "a starting value is not the nearest allowed one");
        if (w == init[j]) vf_reach("kept"); else vf_reach("corrected");
    }
    if (!sc) return;
    // import
    int how = vf_concrete(vf_int("how", 0, 2)), miss = vf_concrete(vf_int("missing", -1, 1)), w[3], before[3];
    static const char* WN[3] = {"w0", "w1", "w2"};
    int ok = 1;
    m.update();
    for (int j = 0; j < 3; j++) { w[j] = vf_int(WN[j], j == 2 ? 0 : -3, j == 2 ? 1 : 3); before[j] = V[j]->value(); }
    bool t2 = false;
    if (how == 0) {
        vf_reach("dense");
        auto d = m.export_dense_solution();
        for (int j = 0; j < 2; j++) d.variable_value_proxies[0].flat_indexed_values(j) = w[j];
        d.variable_value_proxies[1].value() = w[2];
        for (int j = 0; j < 3; j++) if (!V[j]->is_fixed()) ok &= (V[j]->lower_bound() <= w[j]) & (w[j] <= V[j]->upper_bound());
        try { m.import_solution(d); } catch (std::logic_error&) { t2 = true; }
        for (int j = 0; j < 3; j++) if (V[j]->is_fixed()) w[j] = before[j];
    } else {
        solution::SparseSolution<int, double> s;
        std::unordered_map<std::string, int> tb;
        for (int j = 0; j < 3; j++) {
            if (j == miss) { w[j] = 0; vf_reach("missing"); } else { s.variables[V[j]->name()] = w[j]; tb[V[j]->name()] = w[j]; }
            if (V[j]->is_fixed()) ok &= w[j] == before[j];
            else if (how == 1) ok &= (V[j]->lower_bound() <= w[j]) & (w[j] <= V[j]->upper_bound());
        }
        try { if (how == 1) { vf_reach("sparse"); m.import_solution(s); } else { vf_reach("table"); m.import_solution(tb); } } catch (std::logic_error&) { t2 = true; }
    }
    vf_assert(t2 == !ok, ok ? "usable values are not imported" : "unusable values are imported");
    if (t2) { vf_reach("import rejected"); return; }
    for (int j = 0; j < 3; j++) vf_assert(V[j]->value() == w[j], "an imported value");
}
