/*META
{"bounds": ["every sequence of 3 operations (4 in the thorough tier) out of 9 on a variable or on a proxy of one variable, with any values in [-3,3] and any bounds in [-3,3]; arrays of 2 variables for the operations that need a single one; fixing and unfixing by name for every subset of 3 variables"],
 "assumptions": ["bounds of a fixed variable are not moved past its value"],
 "reach": ["throws","bounds refused","fixed","unfixed","binary","integer","margins","array","by name","reset"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
using S = model_component::VariableSense;
struct Ref { int v = 0, lb = constant::INT_HALF_MIN, ub = constant::INT_HALF_MAX; int hasb = 0, fixed = 0, bin = 0; };
static void check(IPVar& x, const Ref& r) {
    vf_assert(x.value() == r.v, "value");
    vf_assert((x.lower_bound() == r.lb) & (x.upper_bound() == r.ub), "bounds");
    vf_assert(x.has_bounds() == (r.hasb != 0), "whether bounds are set");
    vf_assert(x.is_fixed() == (r.fixed != 0), "fixedness");
    vf_assert((x.sense() == S::Binary) == (r.bin != 0) && (x.sense() == S::Binary || x.sense() == S::Integer), "kind of variable");
    vf_assert((x.has_lower_bound_margin() == (r.v > r.lb)) & (x.has_upper_bound_margin() == (r.v < r.ub)), "room towards the bounds");
    vf_assert(x.evaluate() == r.v, "evaluation");
    vf_assert(!r.hasb | (x.range() == r.ub - r.lb), "range");
    vf_reach("margins");
}
template <class F> static int throws(F f) { try { f(); } catch (const std::exception&) { return 1; } return 0; }
static const char* OP[4] = {"op1", "op2", "op3", "op4"}; static const char* A[4] = {"a1", "a2", "a3", "a4"}; static const char* B[4] = {"b1", "b2", "b3", "b4"};
static void history() {
    IPModel m("m");
    int px = vf_concrete(vf_int("proxy", 0, 1));
    auto& p = m.create_variable("x");
    IPVar& x = p[0];
    Ref r;
    check(x, r);
    for (int k = 0; k < TQ(3, 4); k++) {
        int op = vf_concrete(vf_int(OP[k], 0, 8));
        int a = 0, b = 0;
        if (op == 3 || op == 4 || op == 7) {} else a = vf_int(A[k], -3, 3);
        if (op == 6 || op == 8) b = vf_int(B[k], -3, 3);
        int t = 0;
        switch (op) {
            case 0: t = throws([&] { if (px) p.set_value(a); else x.set_value(a); }); vf_assert(t == (r.fixed && r.v != a), "a value is refused exactly when the variable is fixed at another one"); if (!t) r.v = a; break;
            case 1: t = throws([&] { if (px) p = a; else x = a; }); vf_assert(t == (r.fixed && r.v != a), "an assignment is refused exactly when the variable is fixed at another value"); if (!t) r.v = a; break;
            case 2: x.set_value_if_mutable(a); if (!r.fixed) r.v = a; break;
            case 3: if (px) p.fix(); else x.fix(); r.fixed = 1; vf_reach("fixed"); break;
            case 4: if (px) p.unfix(); else x.unfix(); r.fixed = 0; vf_reach("unfixed"); break;
            case 5: if (px) p.fix_by(a); else x.fix_by(a); r.v = a; r.fixed = 1; break;
            case 6:
                if (r.fixed) vf_assume((a > b) | ((a <= r.v) & (r.v <= b)));
                t = throws([&] { if (px) p.set_bound(a, b); else x.set_bound(a, b); });
                vf_assert(t == (a > b), "bounds are refused exactly when they cross");
                if (t) { vf_reach("bounds refused"); break; }
                r.lb = a; r.ub = b; r.hasb = 1; r.v = r.v < a ? a : r.v > b ? b : r.v; r.bin = ((a == 0) & (b == 0)) | ((a == 0) & (b == 1)) | ((a == 1) & (b == 1));
                vf_reach(r.bin ? "binary" : "integer");
                break;
            case 7: if (px) p.reset_bound(); else x.reset_bound(); r.lb = constant::INT_HALF_MIN; r.ub = constant::INT_HALF_MAX; r.hasb = 0; r.bin = 0; vf_reach("reset"); break;
            case 8: x.set_lower_or_upper_bound(b > 0); if (!r.fixed) r.v = b > 0 ? r.lb : r.ub; break;
        }
        if (t) vf_reach("throws");
        check(x, r);
        if (px) {
            vf_assert((p.value() == r.v) & (p.lower_bound() == r.lb) & (p.upper_bound() == r.ub) & (p.has_bounds() == (r.hasb != 0)) & (p.is_fixed() == (r.fixed != 0)) & (p.evaluate() == r.v), "the proxy shows its variable");
            vf_assert(p.sense() == x.sense(), "the proxy shows its variable's kind");
        }
    }
    IPMove mv; auto& y = m.create_variable("y", -3, 3);
    int to = vf_int("to", -3, 3);
    vf_assert((x.evaluate(mv) == r.v) & (p.evaluate(mv) == r.v), "evaluation of an empty move");
    mv.alterations.emplace_back(&y[0], to);
    vf_assert((x.evaluate(mv) == r.v) & (y.evaluate(mv) == to), "evaluation of a move of another variable");
    mv.alterations.emplace_back(&x, to + 1);
    vf_assert((x.evaluate(mv) == to + 1) & (p.evaluate(mv) == to + 1) & (x.value() == r.v), "evaluation of a move");
}
static void arrays() {
    IPModel m("m");
    auto& p = m.create_variables("x", 2, -3, 3);
    int l = vf_int("l", -3, 3), u = vf_int("u", -3, 3), v0 = vf_int("v0", -3, 3), v1 = vf_int("v1", -3, 3);
    p(0) = v0; p(1) = v1;
    vf_assert(throws([&] { p.value(); }) && throws([&] { p.set_value(1); }) && throws([&] { p = 1; }) && throws([&] { p.fix(); }) && throws([&] { p.unfix(); }) && throws([&] { p.fix_by(1); }) && throws([&] { p.is_fixed(); }) && throws([&] { p.lower_bound(); }) && throws([&] { p.upper_bound(); }) && throws([&] { p.has_bounds(); }) && throws([&] { p.sense(); }) && throws([&] { p.name(); }) && throws([&] { p.set_name("n"); }) && throws([&] { p.evaluate(); }) && throws([&] { p.to_expression(); }) && throws([&] { IPMove mv; p.evaluate(mv); }), "an operation on a single variable is applied to an array");
    vf_assert((p(0).value() == v0) & (p(1).value() == v1) & !p(0).is_fixed() & !p(1).is_fixed(), "a refused operation changes the array");
    int t = throws([&] { p.set_bound(l, u); });
    vf_assert(t == (l > u), "bounds of an array are refused exactly when they cross");
    for (int i = 0; i < 2; i++) {
        int v = i ? v1 : v0;
        if (t) vf_assert((p(i).lower_bound() == -3) & (p(i).upper_bound() == 3) & (p(i).value() == v), "refused bounds are set");
        else vf_assert((p(i).lower_bound() == l) & (p(i).upper_bound() == u) & (p(i).value() == (v < l ? l : v > u ? u : v)), "bounds of an array");
    }
    p.reset_bound();
    for (int i = 0; i < 2; i++) vf_assert((p(i).lower_bound() == constant::INT_HALF_MIN) & (p(i).upper_bound() == constant::INT_HALF_MAX) & !p(i).has_bounds(), "bounds of an array are reset");
    vf_reach("array");
}
static void by_name() {
    IPModel m("m");
    auto& x = m.create_variables("x", 2, -5, 5); auto& y = m.create_variable("y", -5, 5);
    m.setup_unique_names();
    IPVar* V[3] = {&x(0), &x(1), &y[0]};
    int mask = vf_concrete(vf_int("mask", 0, 7)), un = vf_concrete(vf_int("unfix", 0, 1)), v[3], w[3];
    static const char* N[3] = {"v0", "v1", "v2"}; static const char* W[3] = {"w0", "w1", "w2"};
    std::unordered_map<std::string, int> F; std::unordered_set<std::string> U;
    for (int j = 0; j < 3; j++) { v[j] = vf_int(N[j], -5, 5); w[j] = vf_int(W[j], -5, 5); *V[j] = v[j]; if (mask >> j & 1) { F[V[j]->name()] = w[j]; U.insert(V[j]->name()); } }
    F["nosuch"] = 1; U.insert("nosuch");
    if (un) m.unfix_variables(U); else m.fix_variables(F);
    for (int j = 0; j < 3; j++) {
        int in = mask >> j & 1;
        if (un) vf_assert((V[j]->is_fixed() == !in) & (in | (V[j]->value() == 0)), "the variables not named are fixed at zero, the others are free");
        else vf_assert((V[j]->is_fixed() == (in != 0)) & (V[j]->value() == (in ? w[j] : v[j])), "exactly the variables named are fixed at their values");
    }
    vf_reach("by name");
}
extern "C" void vf_harness() {
    int part = vf_concrete(vf_int("part", 0, 2));
    if (part == 0) history(); else if (part == 1) arrays(); else by_name();
}
