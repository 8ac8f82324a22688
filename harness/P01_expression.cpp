/*META
{"bounds": ["3 scalar variables and a 2x3 variable array, every value in [-6,6]; every coefficient, constant and multiplier any half-integer in [-2,2] (zero included); every binary and compound operator of expressions, expression arrays and variables, each scenario up to 4 operators deep"],
 "bounds_thorough": ["as quick with values in [-60,60] and coefficients any half-integer in [-8,8]"],
 "assumptions": ["coefficients and values are half-integers of small magnitude, so that double arithmetic is exact; rounding of other doubles is outside the claim"],
 "reach": ["s0","s1","s2","s3","s4","s5","s6","s7","s8"]}
*/
#include "lib.h"
static const int V = TQ(6, 60), C = TQ(4, 16);
extern "C" void vf_setup() {}
extern "C" void vf_harness() {
    IPModel m("m");
    auto &x = m.create_variable("x"), &y = m.create_variable("y"), &z = m.create_variable("z", -1000, 1000);
    int a = vf_int("a", -V, V), b = vf_int("b", -V, V), c = vf_int("c", -V, V);
    x = a; y = b; z = c;
    vf_assert(x.value() == a && y.value() == b && z.value() == c, "a variable holds the value given to it");
    double p = vf_half("p", C), q = vf_half("q", C), r = vf_half("r", C);
    switch (vf_scn(9)) {
        case 0: {   // binary operators, both argument orders
            vf_reach("s0");
            auto e = p * x + y * q - z + r;
            vf_assert(e.evaluate() == p * a + b * q - c + r, "p*x + y*q - z + r");
            auto f = r - p * x - (y + z);
            vf_assert(f.evaluate() == r - p * a - (b + c), "r - p*x - (y + z)");
            auto g = r + x;
            auto h = x + r;
            vf_assert(g.evaluate() == r + a && h.evaluate() == a + r, "constant + variable");
            auto i = r - x;
            auto j = x - r;
            vf_assert(i.evaluate() == r - a && j.evaluate() == a - r, "constant - variable");
            vf_assert((x / 2).evaluate() == a / 2.0, "variable / constant");
            break;
        }
        case 1: {   // expressions combined with expressions
            vf_reach("s1");
            auto e = p * x + q * y + 1;
            auto f = r * x - y + z;
            double E = p * a + q * b + 1, F = r * a - b + c;
            vf_assert((e + f).evaluate() == E + F, "e + f");
            vf_assert((e - f).evaluate() == E - F, "e - f");
            vf_assert((f - e).evaluate() == F - E, "f - e");
            vf_assert((-e).evaluate() == -E && (+e).evaluate() == E, "-e, +e");
            vf_assert((e + x).evaluate() == E + a && (x + e).evaluate() == E + a, "e + x, x + e");
            vf_assert((e - x).evaluate() == E - a && (x - e).evaluate() == a - E, "e - x, x - e");
            vf_assert((e - e).evaluate() == 0, "e - e");
            break;
        }
        case 2: {   // scaling
            vf_reach("s2");
            auto e = p * x + 2 * y - 3;
            double E = p * a + 2 * b - 3;
            vf_assert((q * e).evaluate() == q * E && (e * q).evaluate() == q * E, "q * e, e * q");
            vf_assert((e / 4).evaluate() == E / 4 && (e / -2).evaluate() == E / -2, "e / 4, e / -2");
            vf_assert((r + e).evaluate() == r + E && (e + r).evaluate() == r + E, "r + e, e + r");
            vf_assert((r - e).evaluate() == r - E && (e - r).evaluate() == E - r, "r - e, e - r");
            break;
        }
        case 3: {   // compound assignment on an expression
            vf_reach("s3");
            auto e = p * x + 2 * y - 3;
            double E = p * a + 2 * b - 3;
            e += q * z + x; E += q * c + a;
            vf_assert(e.evaluate() == E, "e += expression");
            e -= r * y + z; E -= r * b + c;
            vf_assert(e.evaluate() == E, "e -= expression");
            e += r; E += r; e -= 2.5; E -= 2.5;
            vf_assert(e.evaluate() == E, "e += constant, e -= constant");
            e *= q; E *= q;
            vf_assert(e.evaluate() == E, "e *= constant");
            e /= 2; E /= 2;
            vf_assert(e.evaluate() == E, "e /= constant");
            e += x; E += a; e -= z; E -= c;
            vf_assert(e.evaluate() == E, "e += variable, e -= variable");
            break;
        }
        case 4: {   // expression arrays
            vf_reach("s4");
            auto &u = m.create_expression("u", p * x + y + r);
            double U = p * a + b + r;
            vf_assert(u.evaluate() == U, "named expression");
            u += z; U += c; vf_assert(u.evaluate() == U, "named += variable");
            u -= q * y; U -= q * b; vf_assert(u.evaluate() == U, "named -= expression");
            u *= 3; U *= 3; vf_assert(u.evaluate() == U, "named *= constant");
            u /= 2; U /= 2; vf_assert(u.evaluate() == U, "named /= constant");
            u += 7; U += 7; u -= r; U -= r; vf_assert(u.evaluate() == U, "named += constant");
            auto k = u + x; vf_assert(k.evaluate() == U + a, "named + variable");
            auto l = 2 * u - u * 3 + u / 2; vf_assert(l.evaluate() == 2 * U - U * 3 + U / 2, "scaled named expressions");
            vf_assert((-u).evaluate() == -U && (+u).evaluate() == U, "-named, +named");
            u.update(); vf_assert(u.value() == U, "value after update");
            auto &w = m.create_expression("w", z);
            vf_assert(w.evaluate() == c, "expression created from a variable");
            w = q * x + r; vf_assert(w.evaluate() == q * a + r, "named = expression");
            w = y; vf_assert(w.evaluate() == b, "named = variable");
            w = u; vf_assert(w.evaluate() == U, "named = named");
            w = 5; vf_assert(w.evaluate() == 5, "named = constant");
            break;
        }
        case 5: {   // arrays of variables: sums, partial sums, dot products
            vf_reach("s5");
            auto& t = m.create_variables("t", {2, 3}, -100, 100);
            int T[2][3] = {{a, b, c}, {vf_int("d", -V, V), vf_int("e", -V, V), vf_int("f", -V, V)}};
            for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) t(i, j) = T[i][j];
            double all = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { all += T[i][j]; vf_assert(t(i, j).value() == T[i][j] && t[3 * i + j].value() == T[i][j], "element access"); }
            vf_assert(t.sum().evaluate() == all, "sum of an array");
            for (int i = 0; i < 2; i++) vf_assert(t.sum({i, Range::All}).evaluate() == T[i][0] + T[i][1] + T[i][2], "row sum");
            for (int j = 0; j < 3; j++) vf_assert(t.sum({Range::All, j}).evaluate() == T[0][j] + T[1][j], "column sum");
            vf_assert(t.sum({Range::All, Range::All}).evaluate() == all, "full range sum");
            vf_assert(t.sum({1, 2}).evaluate() == T[1][2], "single element sum");
            std::vector<double> w3 = {p, q, r}, w2 = {q, r};
            for (int i = 0; i < 2; i++) vf_assert(t.dot({i, Range::All}, w3).evaluate() == p * T[i][0] + q * T[i][1] + r * T[i][2], "row dot product");
            for (int j = 0; j < 3; j++) vf_assert(t.dot({Range::All, j}, w2).evaluate() == q * T[0][j] + r * T[1][j], "column dot product");
            auto& s = m.create_variables("s", 3);
            s[0] = a; s[1] = b; s[2] = c;
            vf_assert(s.dot(w3).evaluate() == p * a + q * b + r * c, "dot product");
            vf_assert(s.sum().evaluate() == a + b + c, "1-d sum");
            break;
        }
        case 6: {   // arrays of expressions
            vf_reach("s6");
            auto& t = m.create_expressions("t", {2, 2});
            double T[2][2];
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { t(i, j) = (i + 1) * p * x + (j - 1) * y + r; T[i][j] = (i + 1) * p * a + (j - 1) * b + r; }
            t(1, 0) += z; T[1][0] += c;
            vf_assert(t.sum().evaluate() == T[0][0] + T[0][1] + T[1][0] + T[1][1], "sum of expressions");
            for (int i = 0; i < 2; i++) vf_assert(t.sum({i, Range::All}).evaluate() == T[i][0] + T[i][1], "row sum of expressions");
            for (int i = 0; i < 2; i++) vf_assert(t.sum({Range::All, i}).evaluate() == T[0][i] + T[1][i], "column sum of expressions");
            std::vector<double> w = {q, 3};
            for (int i = 0; i < 2; i++) vf_assert(t.dot({i, Range::All}, w).evaluate() == q * T[i][0] + 3 * T[i][1], "row dot of expressions");
            for (int i = 0; i < 2; i++) vf_assert(t.dot({Range::All, i}, w).evaluate() == q * T[0][i] + 3 * T[1][i], "column dot of expressions");
            auto& s = m.create_expressions("s", 2);
            s(0) = x + r; s(1) = q * y - z;
            vf_assert(s.dot(w).evaluate() == q * (a + r) + 3 * (q * b - c), "dot of expressions");
            auto& n = m.create_expression("n", p * x + r);
            s(1) = n;
            vf_assert(s.sum().evaluate() == (a + r) + (p * a + r), "named expression assigned to an element");
            s(0) = s(1); s(1) = y;
            vf_assert(s(0).evaluate() == p * a + r && s(1).evaluate() == b && s.sum({1}).evaluate() == b, "element assigned to an element");
            s(0) = r;
            vf_assert(s(0).evaluate() == r, "constant assigned to an element");
            break;
        }
        case 7: {   // solving for a variable, substitution
            vf_reach("s7");
            auto e = 2 * x + p * y + q * z + r;       // 2x + p y + q z + r = 0
            auto s = e.solve(&x[0]);
            vf_assert(s.evaluate() == -(p * b + q * c + r) / 2, "solved for x");
            auto f = q * x + y - 1;
            f.substitute(&x[0], s);
            vf_assert(f.evaluate() == q * (-(p * b + q * c + r) / 2) + b - 1, "substitution");
            vf_assert(f.sensitivities().find(&x[0]) == f.sensitivities().end(), "substituted variable is gone");
            auto g = y + 4;
            g.substitute(&y[0], x + z - r);
            vf_assert(g.evaluate() == a + c - r + 4, "substitution with constant");
            break;
        }
        case 8: {   // bounds of an expression enclose every reachable value
            vf_reach("s8");
            int l = vf_int("l", -V, V), u = vf_int("u", -V, V), k = vf_int("k", -V, V);
            vf_assume(l <= u);
            x.set_bound(l, u);
            auto e = p * x + q * y + r;
            y.fix_by(k);
            int v = vf_int("v", -V, V); vf_assume(l <= v && v <= u);
            x = v;
            double E = p * v + q * k + r;
            vf_assert(e.evaluate() == E, "evaluate with a fixed variable");
            vf_assert(e.lower_bound() <= E && E <= e.upper_bound(), "expression bounds enclose the value");
            vf_assert(e.lower_bound() == std::min(p * l, p * u) + q * k + r && e.upper_bound() == std::max(p * l, p * u) + q * k + r, "expression bounds are tight for one free variable");
            vf_assert(e.fixed_term_value() == q * k, "contribution of the fixed variables");
            break;
        }
    }
}
