/*META
{"bounds": ["histories of 3 pushed solutions (4 in the thorough tier) of two variables with any values in [0,2], any objectives in [-2,2] and any feasibility, pushed one by one or in two batches, capacities unlimited, 1, 2 and 3, unsorted, ascending and descending; removal of infeasible solutions, reuse after a second set-up"],
 "assumptions": ["pushed solutions with equal values have equal objective and feasibility"],
 "reach": ["trimmed","duplicate","ascending","descending","unsorted","infeasible","batch","again"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
using SS = solution::SparseSolution<int, double>;
struct T { int x, ob, fe; };
static int same(const SS& s, const T& t) { return (s.variables.at("x") == t.x) & (s.variables.at("y") == 1) & (s.objective == t.ob) & ((int)s.is_feasible == t.fe); }
static int eq(const SS& s, const SS& t) { return (s.variables.at("x") == t.variables.at("x")); }
extern "C" void vf_harness() {
    const int N = TQ(3, 4);
    static const char* X[4] = {"x0", "x1", "x2", "x3"}; static const char* O[4] = {"o0", "o1", "o2", "o3"}; static const char* F[4] = {"f0", "f1", "f2", "f3"};
    int mode = vf_concrete(vf_int("mode", 0, 2)), cap = vf_concrete(vf_int("capacity", 0, 3)), batch = vf_concrete(vf_int("batch", 0, 1));
    auto sm = mode == 0 ? solution::SortMode::Off : mode == 1 ? solution::SortMode::Ascending : solution::SortMode::Descending;
    vf_reach(mode == 0 ? "unsorted" : mode == 1 ? "ascending" : "descending");
    solution::SolutionArchive<int, double> A(cap == 0 ? -1 : cap, sm, "n", 2, 3);
    vf_assert(!A.has_feasible_solution(), "a new archive has a feasible solution");
    vf_assert(A.size() == 0 && A.name() == "n" && A.number_of_variables() == 2 && A.number_of_constraints() == 3 && A.sort_mode() == sm && A.max_size() == (cap == 0 ? -1 : cap), "a new archive");
    T t[4];
    std::vector<SS> all;
    for (int i = 0; i < N; i++) {
        t[i].x = vf_int(X[i], 0, 2); t[i].ob = vf_int(O[i], -2, 2); t[i].fe = vf_int(F[i], 0, 1);
        for (int j = 0; j < i; j++) vf_assume((t[i].x != t[j].x) | ((t[i].ob == t[j].ob) & (t[i].fe == t[j].fe)));
        SS s;
        s.objective = t[i].ob; s.is_feasible = t[i].fe; s.variables["x"] = t[i].x; s.variables["y"] = 1;
        all.push_back(s);
    }
    if (batch) { A.push(std::vector<SS>(all.begin(), all.begin() + 2)); A.push(std::vector<SS>(all.begin() + 2, all.end())); vf_reach("batch"); }
    else for (auto& s : all) A.push(s);
    auto S = A.solutions();
    vf_assert(A.size() == (int)S.size(), "size");
    vf_assert(S.size() >= 1 && S.size() <= (size_t)N, "size");
    vf_assert(cap == 0 || (int)S.size() <= cap, "the archive outgrew its capacity");
    for (size_t i = 0; i < S.size(); i++) {
        int was = 0;
        for (int j = 0; j < N; j++) was |= same(S[i], t[j]);
        vf_assert(was, "the archive holds a solution that was not pushed");
        if (i) {
            if (mode == 1) vf_assert(S[i - 1].objective <= S[i].objective, "not ascending");
            if (mode == 2) vf_assert(S[i - 1].objective >= S[i].objective, "not descending");
            vf_assert(!eq(S[i - 1], S[i]), "a repeated solution is stored twice in a row");
        }
    }
    for (int j = 0; j < N; j++) {
        int in = 0;
        for (auto& s : S) in |= same(s, t[j]);
        if (in) continue;
        vf_reach("trimmed");
        vf_assert(cap > 0 && (int)S.size() == cap, "a solution was dropped although there is room");
        if (mode == 1) vf_assert(t[j].ob >= S.back().objective, "a better solution was dropped");
        if (mode == 2) vf_assert(t[j].ob <= S.back().objective, "a better solution was dropped");
    }
    if (mode == 0) {
        std::vector<int> runs;   // pushes without immediate repetitions
        for (int j = 0; j < N; j++) if (runs.empty() || t[runs.back()].x != t[j].x) runs.push_back(j);
        if ((int)runs.size() < N) vf_reach("duplicate");
        size_t want = cap ? std::min<size_t>(cap, runs.size()) : runs.size();
        vf_assert(S.size() == want, "the number of solutions of an unsorted archive");
        for (size_t i = 0; i < want && i < S.size(); i++) vf_assert(same(S[S.size() - 1 - i], t[runs[runs.size() - 1 - i]]), "an unsorted archive holds the latest solutions in order");
    }
    int anyf = 0;
    std::vector<SS> keep;
    for (auto& s : S) if (s.is_feasible) { anyf = 1; keep.push_back(s); }
    vf_assert(A.update_has_feasible_solution(S) == (anyf != 0), "update_has_feasible_solution");
    vf_assert(A.update_has_feasible_solution() == (anyf != 0), "update_has_feasible_solution");
    vf_assert(A.has_feasible_solution() == (anyf != 0), "has_feasible_solution");
    A.remove_infeasible_solutions();
    if (keep.size() < S.size()) vf_reach("infeasible");
    vf_assert(A.size() == (int)keep.size(), "removing infeasible solutions");
    for (size_t i = 0; i < keep.size(); i++) vf_assert(eq(A.solutions()[i], keep[i]), "removing infeasible solutions keeps the feasible ones in order");
    A.setup(2, sm, "m", 1, 1);
    vf_reach("again");
    vf_assert(A.size() == 0 && !A.has_feasible_solution(), "a set-up archive is empty");
}
