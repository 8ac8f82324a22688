/*META
{"bounds": ["each of the 24 forms of comparison (<=, ==, >= of expression, variable, named expression and number in every argument order) over 2 variables with values in [-4,4] and coefficients p in {1,-1.5,0}, q in {-1.5,0}, right-hand sides any half-integer in [-1.5,1.5]; each constraint assigned to a scalar, to an element of an array and passed at creation; evaluated at a point, after update, after a move of up to 2 variables, and on re-assignment"],
 "bounds_thorough": ["as quick with values in [-60,60], right-hand sides any half-integer in [-8,8], coefficients in {1,-1.5,0,2,-1,0.5}"],
 "assumptions": ["coefficients and values are half-integers of small magnitude, so that double arithmetic is exact"],
 "reach": ["s0","s1","s2","s3","s4","s5","s6"]}
*/
#include "lib.h"
static const int V = TQ(4, 60), C = TQ(3, 16);
extern "C" void vf_setup() {}
// L sense R at the current values
static double viol(int s, double L, double R) {
    double d = L - R;
    double up = d > 0 ? d : 0, dn = d < 0 ? -d : 0;
    return s == 0 ? up : s == 1 ? up + dn : dn;
}
static void post(IPCons& k, int s, double L, double R, const char* what) {
    double w = viol(s, L, R), d = L - R;
    vf_assert(k.violation_value() == w, what);
    vf_assert(k.is_feasible() == (w == 0), "feasible exactly when the comparison holds");
    double v = k.constraint_value();
    vf_assert(v == d || v == -d, "constraint value is the difference of the two sides");
    vf_assert(k.positive_part() == (v > 0 ? v : 0) && k.negative_part() == (v < 0 ? -v : 0), "positive and negative part");
    double mg = s == 1 ? 0 : s == 0 ? (d < 0 ? -d : 0) : (d > 0 ? d : 0);
    vf_assert(k.margin_value() == mg, "margin is the slack of a satisfied inequality");
    vf_assert(k.evaluate_constraint() == v, "evaluation at the current point");
}
#define ALL3(M) { M(0, <=) M(1, ==) M(2, >=) }
extern "C" void vf_harness() {
    IPModel m("m");
    auto &x = m.create_variable("x", -1000, 1000), &y = m.create_variable("y", -1000, 1000);
    int a = vf_int("a", -V, V), b = vf_int("b", -V, V);
    x = a; y = b;
    static const double CO[] = {1, -1.5, 0, 2, -1, 0.5};
    double p = CO[vf_concrete(vf_int("p", 0, TQ(2, 5)))], q = CO[vf_concrete(vf_int("q", 1, TQ(2, 5)))], r = vf_half("r", C);
    auto e = p * x + q * y + r;
    double E = p * a + q * b + r;
    auto f = q * x - y + 1;
    double F = q * a - b + 1;
    auto& u = m.create_expression("u", r * x + 2 * y);
    double U = r * a + 2 * b;
    auto& k = m.create_constraint("k");
    int scn = vf_scn(7);
    switch (scn) {
        case 0:
            vf_reach("s0");
#define M(S, OP) k(0) = (e OP r); k(0).update(); post(k(0), S, E, r, "expression " #OP " number"); \
                 k(0) = (r OP e); k(0).update(); post(k(0), S, r, E, "number " #OP " expression"); \
                 k(0) = (e OP 2); k(0).update(); post(k(0), S, E, 2, "expression " #OP " integer"); \
                 k(0) = (-1 OP e); k(0).update(); post(k(0), S, -1, E, "integer " #OP " expression");
            ALL3(M)
#undef M
            break;
        case 1:
            vf_reach("s1");
#define M(S, OP) k(0) = (x OP r); k(0).update(); post(k(0), S, a, r, "variable " #OP " number"); \
                 k(0) = (r OP x); k(0).update(); post(k(0), S, r, a, "number " #OP " variable"); \
                 k(0) = (u OP r); k(0).update(); post(k(0), S, U, r, "named " #OP " number"); \
                 k(0) = (r OP u); k(0).update(); post(k(0), S, r, U, "number " #OP " named");
            ALL3(M)
#undef M
            break;
        case 2:
            vf_reach("s2");
#define M(S, OP) k(0) = (e OP f); k(0).update(); post(k(0), S, E, F, "expression " #OP " expression"); \
                 k(0) = (e OP x); k(0).update(); post(k(0), S, E, a, "expression " #OP " variable"); \
                 k(0) = (x OP e); k(0).update(); post(k(0), S, a, E, "variable " #OP " expression"); \
                 k(0) = (x OP y); k(0).update(); post(k(0), S, a, b, "variable " #OP " variable");
            ALL3(M)
#undef M
            break;
        case 3:
            vf_reach("s3");
#define M(S, OP) k(0) = (u OP e); k(0).update(); post(k(0), S, U, E, "named " #OP " expression"); \
                 k(0) = (e OP u); k(0).update(); post(k(0), S, E, U, "expression " #OP " named"); \
                 k(0) = (u OP x); k(0).update(); post(k(0), S, U, a, "named " #OP " variable"); \
                 k(0) = (y OP u); k(0).update(); post(k(0), S, b, U, "variable " #OP " named"); \
                 k(0) = (x(0) OP r); k(0).update(); post(k(0), S, a, r, "element " #OP " number"); \
                 k(0) = (x(0) OP y(0)); k(0).update(); post(k(0), S, a, b, "element " #OP " element");
            ALL3(M)
#undef M
            break;
        case 4: {   // the ways to put a constraint into a model
            vf_reach("s4");
            int s = vf_concrete(vf_int("sense", 0, 2));
            auto mk = [&](const IPExpr& l, double t) { return s == 0 ? (l <= t) : s == 1 ? (l == t) : (l >= t); };
            auto& c1 = m.create_constraint("c1", mk(e, 1));
            auto& c2 = m.create_constraints("c2", 2);
            auto& c3 = m.create_constraints("c3", {2, 2});
            auto& c4 = m.create_constraint("c4");
            c2(0) = mk(f, 2); c2(1) = mk(e, -1);
            c3(1, 0) = mk(e, 3); c3(0, 1) = mk(f, r);
            c3(0, 0) = mk(e, 0); c3(1, 1) = mk(f, 0);
            c4 = mk(f, r);
            m.update();
            post(c1(0), s, E, 1, "given at creation");
            post(c2[0], s, F, 2, "element 0"); post(c2[1], s, E, -1, "element 1");
            post(c3[2], s, E, 3, "element (1,0)"); post(c3[1], s, F, r, "element (0,1)");
            post(c4[0], s, F, r, "assigned to a scalar");
            vf_assert(c1.violation_value() == viol(s, E, 1), "value through the array");
            break;
        }
        case 5: {   // a move
            vf_reach("s5");
            int s = vf_concrete(vf_int("sense", 0, 2));
            k(0) = s == 0 ? (e <= 1) : s == 1 ? (e == 1) : (e >= 1);
            k(0).expression().setup_fixed_sensitivities();
            m.update();
            post(k(0), s, E, 1, "before the move");
            int a2 = vf_int("a2", -V, V), b2 = vf_int("b2", -V, V);
            IPMove mv;
            int n = vf_concrete(vf_int("vars", 1, 3));
            if (n & 1) mv.alterations.emplace_back(&x[0], a2); else a2 = a;
            if (n & 2) mv.alterations.emplace_back(&y[0], b2); else b2 = b;
            double E2 = p * a2 + q * b2 + r;
            double w = k(0).evaluate_constraint(mv);
            vf_assert(w == E2 - 1, "value the constraint would take after the move");
            post(k(0), s, E, 1, "evaluating a move changes nothing");
            k(0).update(mv);
            x = a2; y = b2;
            post(k(0), s, E2, 1, "after the move");
            k(0).update();
            post(k(0), s, E2, 1, "recomputed after the move");
            break;
        }
        case 6: {   // re-assignment replaces everything
            vf_reach("s6");
            int s = vf_concrete(vf_int("sense", 0, 2)), t = vf_concrete(vf_int("sense2", 0, 2));
            k(0) = s == 0 ? (e <= 1) : s == 1 ? (e == 1) : (e >= 1);
            k(0).update();
            k(0).disable();
            k(0) = t == 0 ? (x <= r) : t == 1 ? (x == r) : (x >= r);
            vf_assert(k(0).is_enabled(), "a newly assigned constraint is active");
            k(0).update();
            post(k(0), t, a, r, "re-assigned constraint");
            auto& k2 = m.create_constraint("k2");
            k2(0) = k(0);
            k2(0).update();
            post(k2(0), t, a, r, "copied constraint");
            vf_assert(k2(0).is_less_or_equal() == (t != 2) && k2(0).is_greater_or_equal() == (t != 0), "sense flags");
            break;
        }
    }
}
