/*META
{"bounds": ["arrays of every shape with 1 to 3 dimensions of 1 to 3 elements, and 2x1x3x2: every index and every flat index", "sums, dot products and selections over every pattern of fixed and free dimensions, any values in [-6,6] of the elements, any half-integer coefficients in [-2,2]; expression and constraint arrays alike; wrong numbers of dimensions and coefficients"],
 "bounds_thorough": ["as quick with dimensions of 1 to 4 elements and values in [-60,60]"],
 "assumptions": [],
 "reach": ["index","flat","variable","sum","dot","dot 1-d","selection","expression","constraint","mismatch","names","value"]}
*/
#include "lib.h"
#include <set>
extern "C" void vf_setup() {}
typedef std::vector<int> VI;
static int refflat(const VI& s, const VI& i) { int f = 0; for (size_t k = 0; k < s.size(); k++) f = f * s[k] + i[k]; return f; }
extern "C" void vf_harness() {
    int sc = vf_scn(4), D = TQ(3, 4);
    static const char *DN[4] = {"d0", "d1", "d2", "d3"}, *IN[4] = {"i0", "i1", "i2", "i3"}, *PN[4] = {"p0", "p1", "p2", "p3"};
    int nd = vf_concrete(vf_int("dimensions", 1, 4));
    VI shape(nd);
    if (nd == 4) shape = {2, 1, 3, 2}; else for (int k = 0; k < nd; k++) shape[k] = vf_concrete(vf_int(DN[k], 1, D));
    int n = 1;
    for (int d : shape) n *= d;
    if (sc == 0) {   // index arithmetic
        multi_array::ValueProxy<int> v(0, shape);
        vf_assert(v.number_of_elements() == n && v.number_of_dimensions() == nd && v.shape() == shape, "the size of an array");
        VI idx(nd);
        for (int k = 0; k < nd; k++) idx[k] = vf_int(IN[k], 0, shape[k] - 1);
        int f = v.flat_index(idx);
        vf_assert(f == refflat(shape, idx), "the flat index of an element");
        VI back = v.multi_dimensional_index(f), upd(nd, -7);
        v.update_multi_dimensional_index(&upd, f);
        vf_assert((int)back.size() == nd, "the number of indices");
        for (int k = 0; k < nd; k++) vf_assert(back[k] == idx[k] && upd[k] == idx[k], "the index of a flat index");
        vf_reach("index");
        int g = vf_int("flat", 0, n - 1);
        vf_assert(v.flat_index(v.multi_dimensional_index(g)) == g, "the flat index of the index of a flat index");
        vf_reach("flat");
        v.fill(3);
        int fc = vf_concrete(f);
        v.values(idx) = 5;
        for (int k = 0; k < n; k++) vf_assert(v.flat_indexed_values(k) == (k == fc ? 5 : 3), "an element written through its index");
        const auto& cv = v;
        vf_assert(cv.values(idx) == 5, "an element read through its index");
        v.names(idx) = "n";
        vf_assert(v.flat_indexed_names(fc) == "n", "the name of an element");
        bool t = false;
        try { v.values(VI(nd + 1, 0)) = 1; } catch (std::logic_error&) { t = true; }
        vf_assert(t, "a wrong number of indices is accepted");
        vf_reach("value");
        return;
    }
    IPModel m("m");
    auto& x = m.create_variables("x", shape, -100, 100);
    vf_assert(x.number_of_elements() == n, "the number of variables");
    std::vector<int> val(n);
    std::vector<double> co(n);
    int V = TQ(6, 60);
    for (int k = 0; k < n; k++) {
        char b[16]; snprintf(b, sizeof b, "v%d", k);
        val[k] = k < 10 ? vf_int(b, -V, V) : k * k % 7;
        co[k] = k < 4 ? vf_half("c", 4) : 0.5 * (k % 5) - 1;
    }
    VI idx(nd);
    for (int k = 0; k < nd; k++) idx[k] = k < 2 ? vf_int(IN[k], 0, shape[k] - 1) : 0;
    int fc = vf_concrete(refflat(shape, idx));
    for (int k = 0; k < nd; k++) idx[k] = 0;
    { int r = fc; for (int k = nd - 1; k >= 0; k--) { idx[k] = r % shape[k]; r /= shape[k]; } }
    for (int k = 0; k < n; k++) x.flat_indexed_variables(k) = val[k];
    vf_assert(&x(idx) == &x.flat_indexed_variables(fc) && &x[fc] == &x(idx), "the variable at an index");
    vf_assert(x(idx).value() == val[fc] && x(idx).flat_index() == fc && x(idx).multi_dimensional_index() == idx, "the variable at an index");
    vf_reach("variable");
    // pattern of free and fixed dimensions
    VI pat(nd);
    int free_ = 0;
    for (int k = 0; k < nd; k++) { bool all = vf_concrete(vf_int(PN[k], 0, 1)); pat[k] = all ? (int)model_component::Range::All : idx[k]; free_ += all; }
    std::vector<int> in;
    for (int k = 0; k < n; k++) {
        int r = k; bool ok = true;
        for (int d = nd - 1; d >= 0; d--) { if (pat[d] >= 0 && r % shape[d] != pat[d]) ok = false; r /= shape[d]; }
        if (ok) in.push_back(k);
    }
    double S = 0, T = 0, DT = 0, D1 = 0;
    std::vector<double> pc;
    for (int k = 0; k < n; k++) { S += val[k]; D1 += co[k] * val[k]; }
    for (size_t q = 0; q < in.size(); q++) { T += val[in[q]]; pc.push_back(co[q]); DT += co[q] * val[in[q]]; }
    if (sc == 1) {
        vf_assert(x.sum().evaluate() == S, "the sum of an array");
        vf_assert(x.sum(pat).evaluate() == T, "the sum over some dimensions");
        vf_reach("sum");
        if (nd == 1) { vf_assert(x.dot(co).evaluate() == D1, "the dot product of an array"); vf_reach("dot 1-d"); }
        bool t = false;
        double got = 0;
        try { got = x.dot(pat, pc).evaluate(); } catch (std::logic_error&) { t = true; }
        vf_assert(t == (free_ >= 2), "a dot product over several dimensions");
        if (!t) { vf_assert(got == DT, "the dot product over a dimension"); vf_reach("dot"); }
        auto c = x.selection(pat), c0 = x.selection();
        vf_assert(c.expression().evaluate() == T - 1 && c.sense() == model_component::ConstraintSense::Equal, "a selection over some dimensions");
        vf_assert(c0.expression().evaluate() == S - 1 && c0.sense() == model_component::ConstraintSense::Equal, "a selection over an array");
        vf_reach("selection");
        t = false;
        try { x.sum(VI(nd + 1, 0)); } catch (std::logic_error&) { t = true; }
        bool t2 = false;
        pc.push_back(1);
        try { x.dot(pat, pc); } catch (std::logic_error&) { t2 = true; }
        vf_assert(t && t2, "a wrong number of indices or coefficients is accepted");
        vf_reach("mismatch");
    } else if (sc == 2) {
        auto& e = m.create_expressions("e", shape);
        for (int k = 0; k < n; k++) e.flat_indexed_expressions(k) = 2 * x.flat_indexed_variables(k) + 0.5 * k;
        double s = 0, t = 0, d = 0, d1 = 0;
        for (int k = 0; k < n; k++) { s += 2 * val[k] + 0.5 * k; d1 += co[k] * (2 * val[k] + 0.5 * k); }
        for (size_t q = 0; q < in.size(); q++) { t += 2 * val[in[q]] + 0.5 * in[q]; d += co[q] * (2 * val[in[q]] + 0.5 * in[q]); }
        vf_assert(e(idx).evaluate() == 2 * val[fc] + 0.5 * fc && &e(idx) == &e[fc], "the expression at an index");
        vf_assert(e.sum().evaluate() == s && e.sum(pat).evaluate() == t, "the sum of an array of expressions");
        if (nd == 1) vf_assert(e.dot(co).evaluate() == d1, "the dot product of an array of expressions");
        if (free_ < 2) vf_assert(e.dot(pat, pc).evaluate() == d, "the dot product of expressions over a dimension");
        vf_reach("expression");
    } else {
        auto& g = m.create_constraints("g", shape);
        for (int k = 0; k < n; k++) g.flat_indexed_constraints(k) = x.flat_indexed_variables(k) <= k;
        vf_assert(g(idx).expression().evaluate() == val[fc] - fc && &g(idx) == &g[fc], "the constraint at an index");
        vf_reach("constraint");
        m.minimize(x.sum());
        option::Option o;
        vf_no_presolve(o);
        for (int k = 0; k < n; k++) x.flat_indexed_variables(k) = 0;
        m.setup(o, false);
        std::set<std::string> names, gn;
        for (int k = 0; k < n; k++) { names.insert(x.flat_indexed_variables(k).name()); gn.insert(g.flat_indexed_constraints(k).name()); }
        vf_assert((int)names.size() == n && (int)gn.size() == n, "two elements have the same name");
        vf_reach("names");
    }
}
