import sys; sys.path.insert(0, "/verif/tools")
from mkseed import make
make("B04_stale_defined_variable", "P11", [("printemps/solution/incumbent_holder.h", """                    IncumbentHolderConstant::STATUS_FEASIBLE_INCUMBENT_UPDATE;

                if (!is_solution_updated) {
                    a_model_ptr
                        ->update_dependent_variables_and_disabled_constraints();
                    solution ""","""                    IncumbentHolderConstant::STATUS_FEASIBLE_INCUMBENT_UPDATE;

                if (!is_solution_updated) {
                    solution """)],
 "a model with an eliminated (defined) variable, and a feasible solution that improves the objective without improving either penalised incumbent",
 "the stored feasible incumbent has a stale value for the eliminated variable, so the reported point violates its defining equation", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variable("x", 0, 9);
    auto& y = m.create_variable("y", 0, 100);
    auto& z = m.create_variable("z", 0, 9);
    m.create_constraint("g", y - 2 * x - 2 * z == 1);
    m.create_constraint("h", x + y + z <= 7);
    m.minimize(x + 2 * y - z);
    option::Option o; o.preprocess.is_enabled_presolve = true; o.preprocess.is_enabled_extract_dependent_intermediate = true;
    m.setup(o, false);
    z = 0;
    solution::IncumbentHolder<int, double> h;
    solution::SolutionScore s;
    s.is_feasible = false; s.objective = 3; s.local_augmented_objective = -5; s.global_augmented_objective = -5;
    x = 1; m.update(); h.try_update_incumbent(&m, s);
    s.is_feasible = true; s.objective = 2; s.local_augmented_objective = 2; s.global_augmented_objective = 2;
    neighborhood::Move<int, double> mv; mv.alterations.emplace_back(&x(0), 4); for (auto c : x(0).related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
    m.update(mv); h.try_update_incumbent(&m, s);
    auto& d = h.feasible_incumbent_solution();
    int a = d.variable_value_proxies[0].value(), b = d.variable_value_proxies[1].value();
    printf("x %d y %d\n", a, b);
    return b == 2 * a + 1 ? 0 : 1;
}
''')
make("B05_same_objective", "P12", [("printemps/solution/solution_archive.h", """                                        return a_LHS.variables ==
                                               a_RHS.variables;""", """                                        return a_LHS.objective ==
                                                   a_RHS.objective &&
                                               a_LHS.total_violation ==
                                                   a_RHS.total_violation &&
                                               a_LHS.variables.size() ==
                                                   a_RHS.variables.size();""")],
 "two different solutions with the same objective and violation pushed to one archive",
 "the second of two different, equally good solutions is dropped from the archive", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    solution::SolutionArchive<int, double> a(10, solution::SortMode::Ascending, "n", 2, 3);
    for (int i = 0; i < 3; i++) { solution::SparseSolution<int, double> s; s.objective = 5; s.total_violation = 0; s.is_feasible = true; s.variables["x"] = i; s.variables["y"] = 2 - i; a.push(s); }
    printf("%d\n", a.size());
    return a.size() == 3 ? 0 : 1;
}
''')
make("B06_second_range", "P16", [("printemps/mps/mps.h", """                    for (auto i = 0; i < (ITEMS_SIZE - 1) / 2; i++) {
                        name         = items[2 * i + 1];
                        double range = atof(items[2 * i + 2].c_str());""", """                    for (auto i = 0; i < ITEMS_SIZE / 3; i++) {
                        name         = items[2 * i + 1];
                        double range = atof(items[2 * i + 2].c_str());""")],
 "a RANGES line that names two rows",
 "the range of the second row is ignored, so the row keeps only one side", r'''
#include "printemps.h"
#include <cstdio>
#include <fstream>
using namespace printemps;
int main() {
    std::ofstream f("r.mps");
    f << "NAME t\nROWS\n N obj\n L r1\n L r2\nCOLUMNS\n    M1 'MARKER' 'INTORG'\n    x obj 1 r1 1\n    x r2 1\n    M2 'MARKER' 'INTEND'\nRHS\n    rhs r1 8 r2 9\nRANGES\n    rg r1 2 r2 1\nBOUNDS\n UP bnd x 100\nENDATA\n";
    f.close();
    mps::MPS p("r.mps");
    model::IPModel m("m");
    m.import_mps(p, false);
    option::Option o; o.output.verbose = option::verbose::Off; vf: o.preprocess.is_enabled_presolve = false;
    m.setup(o, false);
    auto& v = m.variable_proxies()[0].flat_indexed_variables(0);
    v = 7; m.update();
    printf("feasible at 7: %d\n", (int)m.is_feasible());
    return m.is_feasible() ? 1 : 0;
}
''')
make("B07_selection_tabu", "P10", [("printemps/solver/tabu_search/core/tabu_search_core_move_evaluator.h", """            for (const auto &alteration : a_MOVE.alterations) {
                if (a_DURATION <
                    alteration.first->local_last_update_iteration()) {
                    return false;
                }
            }
            return true;""", """            for (const auto &alteration : a_MOVE.alterations) {
                if (a_DURATION <
                    alteration.first->local_last_update_iteration()) {
                    return a_MOVE.alterations.size() > 2 &&
                           alteration.first == a_MOVE.alterations.back().first;
                }
            }
            return true;""")],
 "a move of three or more variables in mode Any of which only the last one was updated within the tenure",
 "such a move is permitted although one of its variables is tabu", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variables("x", 3, 0, 3);
    m.minimize(x.sum());
    option::Option o; o.tabu_search.tabu_mode = option::tabu_mode::Any;
    m.setup(o, false);
    solver::Memory<int, double> mem(&m);
    solver::tabu_search::core::TabuSearchCoreMoveEvaluator<int, double> ev(&m, &mem, o);
    neighborhood::Move<int, double> a, b;
    a.alterations.emplace_back(&x(2), 1);
    mem.update(a, 10);
    for (int i = 0; i < 3; i++) b.alterations.emplace_back(&x(i), 2);
    bool p = ev.compute_permissibility(b, 5);
    printf("permissible %d\n", (int)p);
    return p ? 1 : 0;
}
''')
make("B08_fixed_at_zero", "P18", [("printemps/model/model.h", """                if (variable.is_fixed()) {
                    ofs << "    FX    bnd    " << VARIABLE_NAME << "     \"""", """                if (variable.is_fixed() && variable.value() != 0) {
                    ofs << "    FX    bnd    " << VARIABLE_NAME << "     \"""")],
 "a variable fixed by the user at 0 with bounds that allow other values",
 "the fixed value is not written to the MPS file, so the file describes a model with more solutions", r'''
#include "printemps.h"
#include <cstdio>
using namespace printemps;
int main() {
    model::IPModel m("m");
    auto& x = m.create_variable("x", -7, 5);
    auto& y = m.create_variable("y", 0, 4);
    m.create_constraint("g", x + y <= 1);
    m.minimize(x + y);
    x.fix_by(0);
    m.write_mps("w.mps");
    mps::MPS p("w.mps");
    model::IPModel n("n");
    n.import_mps(p, false);
    auto& v = n.variable_proxies()[0].flat_indexed_variables(0);
    printf("%d %d %d\n", v.lower_bound(), v.upper_bound(), (int)v.is_fixed());
    return (v.lower_bound() == 0 && v.upper_bound() == 0) || (v.is_fixed() && v.value() == 0) ? 0 : 1;
}
''')
