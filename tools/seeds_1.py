import sys; sys.path.insert(0, "/verif/tools")
from mkseed import make
make("B01_margin_after_move", "P04", [("printemps/model_component/constraint.h", """        m_has_margin = m_has_only_binary_variable &
                       (m_margin_value >= m_max_abs_coefficient);
        m_expression.update(a_MOVE);""", """        m_has_margin = m_has_only_binary_variable &
                       (m_margin_value + constant::EPSILON >
                        m_max_abs_coefficient / 2);
        m_expression.update(a_MOVE);""")],
 "a constraint over 0-1 variables with a coefficient larger than 1, reached by a first applied move that leaves a margin between half the largest coefficient and the largest coefficient, then a single flip of the variable with the large coefficient",
 "the score predicted for the second flip ignores the constraint it violates", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variables("x", 4, 0, 1);
    auto& g = m.create_constraint("g", 4 * x(0) + x(1) + x(2) + x(3) <= 5);
    m.minimize(x.sum());
    option::Option o; o.preprocess.is_enabled_presolve = false;
    m.setup(o, false);
    for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) c.local_penalty_coefficient_less() = c.local_penalty_coefficient_greater() = 1;
    m.update();
    auto mk = [&](int j, int to) { neighborhood::Move<int, double> mv; mv.alterations.emplace_back(&x(j), to); mv.related_constraint_ptrs.assign(x(j).related_constraint_ptrs().begin(), x(j).related_constraint_ptrs().end()); mv.is_univariable_move = true; return mv; };
    auto a = mk(1, 1); m.update(a);
    auto b = mk(2, 1); m.update(b);
    auto c = mk(0, 1);
    auto s = m.evaluate(c, m.evaluate({}));
    m.update(c); m.update();
    auto t = m.evaluate({});
    printf("predicted %f real %f\n", s.total_violation, t.total_violation);
    return s.total_violation == t.total_violation ? 0 : 1;
}
''')
make("B02_truncated_bound", "P06", [("printemps/preprocess/problem_size_reducer.h", """                 * the variable will be tightened by floor(-b/a).
                 */
                auto bound_floor =
                    static_cast<T_Variable>(std::floor(bound_temp));""", """                 * the variable will be tightened by floor(-b/a).
                 */
                auto bound_floor = static_cast<T_Variable>(bound_temp);""")],
 "a constraint on a single variable with a coefficient that does not divide the right-hand side, and a negative resulting bound",
 "the presolve replaces 2x <= -3 by x <= -1, so that a violating point is reported as feasible", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variable("x", -10, 10);
    auto& y = m.create_variable("y", -10, 10);
    auto& z = m.create_variable("z", -10, 10);
    m.create_constraint("g", 2 * x <= -3);
    m.create_constraint("h", x + y + z <= 5);
    m.create_constraint("i", x - y - z <= 8);
    m.maximize(x + y + z);
    option::Option o; o.general.iteration_max = 50; o.output.verbose = option::verbose::Off;
    auto r = solver::solve(&m, o);
    int v = r.solution.variables("x").values(0);
    printf("x = %d feasible %d\n", v, (int)r.solution.is_feasible());
    return r.solution.is_feasible() && 2 * v > -3 ? 1 : 0;
}
''')
make("B03_one_sided_bound", "P07", [("printemps/preprocess/dependent_variable_extractor.h", """                if (key_variable_ptr->upper_bound() != constant::INT_HALF_MAX &&
                    key_variable_ptr->upper_bound() <
                        expression.upper_bound()) {""", """                if (key_variable_ptr->upper_bound() != constant::INT_HALF_MAX &&
                    key_variable_ptr->lower_bound() <=
                        expression.lower_bound() &&
                    key_variable_ptr->upper_bound() <
                        expression.upper_bound()) {""")],
 "an equation defining a variable whose lower and upper bounds are both tighter than what the equation's other side can take",
 "after the elimination of the defined variable its upper bound is no longer enforced, so points outside the bounds count as feasible", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variables("x", 3, -10, 10);
    auto& d = m.create_variable("d", -2, 2);
    m.create_constraint("def", d - x(0) - x(1) - x(2) == 0);
    m.create_constraint("h", x(0) + 2 * x(1) - x(2) <= 25);
    m.maximize(x(0) + 2 * x(1) + 3 * x(2));
    option::Option o; o.output.verbose = option::verbose::Off;
    m.setup(o, false);
    for (int i = 0; i < 3; i++) if (!x(i).is_fixed()) x(i) = 1;
    m.update();
    printf("d = %d feasible %d\n", d.value(), (int)m.is_feasible());
    return m.is_feasible() && (d.value() > 2 || d.value() < -2) ? 1 : 0;
}
''')
