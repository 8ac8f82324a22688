import sys; sys.path.insert(0, "/verif/tools")
from mkseed import make
make("B09_blocks_of_moves", "P40", [("printemps/neighborhood/binary_move_generator.h", """#ifdef _OPENMP
#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static) \\
    num_threads(a_NUMBER_OF_THREADS)
#endif
                for (auto i = 0; i < VARIABLES_SIZE; i++) {
                    if (mutable_variable_ptrs[i]->is_improvable()) {
                        (*a_moves_ptr)[i].alterations.front().second =
                            1 - mutable_variable_ptrs[i]->value();
                        (*a_flags)[i] = 1;
                    } else {
                        (*a_flags)[i] = 0;
                    }
                }
            };""", """                int number_of_blocks = 1;
#ifdef _OPENMP
                if (a_IS_ENABLED_PARALLEL && a_NUMBER_OF_THREADS > 1) {
                    number_of_blocks = a_NUMBER_OF_THREADS;
                }
#endif
                const int BLOCK_SIZE =
                    std::max(1, VARIABLES_SIZE / number_of_blocks);
                number_of_blocks = VARIABLES_SIZE / BLOCK_SIZE;

#ifdef _OPENMP
#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static) \\
    num_threads(a_NUMBER_OF_THREADS)
#endif
                for (auto b = 0; b < number_of_blocks; b++) {
                    for (auto i = b * BLOCK_SIZE;
                         i < std::min((b + 1) * BLOCK_SIZE, VARIABLES_SIZE);
                         i++) {
                        if (mutable_variable_ptrs[i]->is_improvable()) {
                            (*a_moves_ptr)[i].alterations.front().second =
                                1 - mutable_variable_ptrs[i]->value();
                            (*a_flags)[i] = 1;
                        } else {
                            (*a_flags)[i] = 0;
                        }
                    }
                }
            };""")],
 "an OpenMP build with more than one thread and a number of binary variables that is not a multiple of the number of blocks",
 "the last binary variables get no moves (or stale ones), so the outcome depends on the number of threads", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    std::vector<int> got[4];
    for (int t = 1; t <= 3; t++) {
        model::IPModel m("m");
        auto& x = m.create_variables("x", 7, 0, 1);
        m.create_constraint("c", x.sum() <= 3);
        m.maximize(x.sum());
        option::Option o;
        o.preprocess.is_enabled_presolve = false;
        m.setup(o, false);
        m.update();
        m.reset_variable_objective_improvabilities();
        m.update_variable_objective_improvabilities();
        auto& g = m.neighborhood().binary();
        g.update_moves(false, true, true, t > 1, t);
        for (auto f : g.flags()) got[t].push_back(f);
        for (auto f : got[t]) printf("%d ", f);
        printf("\n");
    }
    return got[1] == got[2] && got[1] == got[3] ? 0 : 1;
}
''')
p="/verif/seeded/B09_blocks_of_moves/demo.sh"
s=open(p).read().replace("-O1 -w","-O1 -w -fopenmp"); open(p,"w").write(s)
make("B10_second_side_unlimited", "P31", [("printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h", """                    constraint.local_penalty_coefficient_less() =
                        INITIAL_PENALTY_COEFFICIENT;
                }

                if (constraint.local_penalty_coefficient_greater() >
                    INITIAL_PENALTY_COEFFICIENT) {""", """                    constraint.local_penalty_coefficient_less() =
                        INITIAL_PENALTY_COEFFICIENT;
                } else if (constraint.local_penalty_coefficient_greater() >
                           INITIAL_PENALTY_COEFFICIENT) {""")],
 "grouped penalty coefficients (both sides of a constraint are raised together) and a tightening beyond the initial coefficient",
 "the coefficient of the lower side of the constraints grows beyond the initial coefficient without limit", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    int bad = 0;
    for (int x0 = 0; x0 < 3; x0++) for (int y0 = 0; y0 < 3; y0++) for (int k = 1; k < 9; k += 2) {
        model::IPModel m("m");
        auto& x = m.create_variable("x", 0, 2);
        auto& y = m.create_variable("y", 0, 2);
        auto& z = m.create_variable("z", 0, 1);
        auto& g = m.create_constraints("g", 2);
        g(0) = x + y >= 3; g(1) = x - y <= 0;
        m.create_constraint("h", x + y <= 1);
        m.minimize(x + y + z);
        x = x0; y = y0;
        option::Option o;
        o.output.verbose = option::verbose::Off;
        o.preprocess.is_enabled_presolve = false;
        o.general.iteration_max = 20;
        o.tabu_search.iteration_max = k;
        o.penalty.initial_penalty_coefficient = 10;
        o.penalty.is_enabled_shrink_penalty_coefficient = false;
        o.penalty.penalty_coefficient_updating_balance = 0;
        o.penalty.inner_stagnation_threshold = 0;
        o.penalty.outer_stagnation_threshold = 0;
        o.penalty.is_enabled_group_penalty_coefficient = true;
        solver::IPSolver sv(&m, o);
        m.set_callback([&](option::Option*, solution::IncumbentHolder<int, double>*) {
            for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints())
                if (!(c.local_penalty_coefficient_less() <= 10 && c.local_penalty_coefficient_greater() <= 10)) bad++;
        });
        sv.solve();
    }
    printf("%d\n", bad);
    return bad ? 1 : 0;
}
''')
make("B11_no_room_to_stretch", "P25", [("printemps/solver/integer_step_size_adjuster.h", """        if (DIRECTION > 0 && INITIAL_TARGET == variable_ptr->upper_bound()) {
            return;
        }""","""        if (variable_ptr->lower_bound() + 1 >= variable_ptr->upper_bound()) {
            return;
        }""")],
 "an integer move to the upper bound of a variable with a wider range, when the objective keeps improving beyond the bound",
 "the adjusted move takes the variable beyond its upper bound", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variable("x", 0, 6);
    auto& y = m.create_variable("y", 0, 6);
    m.create_constraint("c", x + y <= 50);
    m.maximize(3 * x + y);
    x = 5;
    option::Option o;
    o.preprocess.is_enabled_presolve = false;
    m.setup(o, false);
    m.update();
    neighborhood::Move<int, double> mv;
    mv.sense = neighborhood::MoveSense::Integer;
    mv.alterations.emplace_back(&x(0), 6);
    for (auto c : x(0).related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
    mv.is_univariable_move = true;
    solver::IntegerStepSizeAdjuster<int, double> a(&m, o);
    a.adjust(&mv, m.evaluate({}));
    printf("%d\n", mv.alterations[0].second);
    return mv.alterations[0].second <= 6 ? 0 : 1;
}
''')
