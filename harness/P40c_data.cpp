/*META
{"bounds": ["vectors of 4 entries with any values in [-4,4], all vector operations and linear combinations; a 4x3 matrix with 4 sparsity patterns and any vector; models of 3 variables and 4 rows of any senses with right-hand sides in [-4,4] taken over from an MPS object; teams of 2 and 3 members, forwards and backwards, against one thread"],
 "assumptions": ["the members of a team run one after another, iterations of guided loops are dealt out in turn"],
 "omp": true,
 "reach": ["teams","vector","matrix","import"]}
*/
#include "lib.h"
extern "C" void vf_setup() {}
namespace sp = printemps::utility::sparse;
using V = sp::Vector; using M = sp::SparseMatrix;
static std::vector<V> vec(const V& a, const V& b, const V& lo, const V& hi) {
    std::vector<V> R;
    V r(4);
    sp::sum(&r, a, b); R.push_back(r); sp::subtract(&r, a, b); R.push_back(r);
    sp::linear_combination(&r, 2, a, -0.5, b); R.push_back(r);
    sp::linear_combination(&r, 2, a, -0.5, b, 4, lo); R.push_back(r);
    V x = a, y = b, z = lo;
    sp::linear_combination(&r, {2, -1, 4}, std::vector<V*>{&x, &y, &z}); R.push_back(r);
    r = a; r += b; R.push_back(r); r = a; r -= b; R.push_back(r);
    r = a; r.clamp(lo, hi); R.push_back(r); r = a; r.clamp_positive(); R.push_back(r); r = a; r.clamp_negative(); R.push_back(r);
    r = a; r.learn(b, 0.25); R.push_back(r);
    return R;
}
static std::vector<V> mat(int pat, const V& x, const V& y) {
    static const int P[4] = {0xFFF, 0x000, 0xA53, 0x0F9};
    std::vector<double> v; std::vector<int> ri, ci;
    for (int i = 0; i < 12; i++) if (P[pat] >> i & 1) { v.push_back(i - 5.5); ri.push_back(i / 3); ci.push_back(i % 3); }
    M m(v, ri, ci, 4, 3);
    std::vector<V> R; V r(4);
    m.dot(&r, x); R.push_back(r); R.push_back(m.dot(x));
    sp::linear_combination(&r, 2, m, x, -1, y); R.push_back(r);
    sp::linear_combination(&r, 2, m, x, -1, y, 0.5, y); R.push_back(r);
    V a = y, b = y;
    sp::linear_combination(&r, 2, m, x, {1, 0.5}, std::vector<V*>{&a, &b}); R.push_back(r);
    return R;
}
extern "C" void vf_harness() {
    int what = vf_concrete(vf_int("what", 0, 2)), T = vf_concrete(vf_int("threads", 2, 3)), back = vf_concrete(vf_int("backwards", 0, 1));
    static const char* N[4] = {"a0", "a1", "a2", "a3"};
    std::vector<V> A, B;
    int before = vf_teams();
    if (what < 2) {
        V a(4), b(4), lo(4, -1.0), hi(4, 2.0), x(3);
        for (int i = 0; i < 4; i++) { int t = vf_int(N[i], -4, 4); a[i] = t; b[i] = i - 2; if (i < 3) x[i] = t; }
        int pat = what ? vf_concrete(vf_int("pattern", 0, 3)) : 0;
        vf_team(1, 0);
        A = what ? mat(pat, x, a) : vec(a, b, lo, hi);
        vf_team(T, back);
        B = what ? mat(pat, x, a) : vec(a, b, lo, hi);
        vf_reach(what ? "matrix" : "vector");
    } else {
        mps::MPS q;
        static const char* X[3] = {"u", "v", "w"}; static const char* R[4] = {"r1", "r2", "r3", "r4"};
        for (int j = 0; j < 3; j++) { q.variable_names.push_back(X[j]); auto& y = q.variables[X[j]]; y.name = X[j]; y.sense = mps::MPSVariableSense::Integer; y.integer_lower_bound = -2; y.integer_upper_bound = 5; }
        static const mps::MPSConstraintSense SE[3] = {mps::MPSConstraintSense::Less, mps::MPSConstraintSense::Equal, mps::MPSConstraintSense::Greater};
        int s0 = vf_concrete(vf_int("sense", 0, 2));
        for (int i = 0; i < 4; i++) { q.constraint_names.push_back(R[i]); auto& c = q.constraints[R[i]]; c.name = R[i]; c.sense = SE[(s0 + i) % 3]; c.rhs = vf_int(N[i], -4, 4); for (int j = 0; j < 3; j++) if (i != j) c.sensitivities[X[j]] = i * 3 + j - 4.5; }
        q.objective.sensitivities["u"] = 2; q.objective.constant = 3;
        for (int k = 0; k < 2; k++) {
            vf_team(k ? T : 1, k ? back : 0);
            IPModel m("m"); m.import_mps(q, false);
            auto& g = m.constraint_proxies()[0]; auto& v = m.variable_proxies()[0];
            V r(24);
            for (int i = 0; i < 4; i++) {
                auto& c = g(i); auto& e = c.expression();
                for (int j = 0; j < 3; j++) { auto it = e.sensitivities().find(&v(j)); r[i * 6 + j] = it == e.sensitivities().end() ? 0 : it->second; }
                r[i * 6 + 3] = e.constant_value(); r[i * 6 + 4] = (double)(int)c.sense(); r[i * 6 + 5] = c.name() == R[i];
                vf_assert(c.name() == R[i], "the name of a row depends on the threads");
                double rest = e.constant_value() + q.constraints[R[i]].rhs;
                vf_assert(rest == 0, "the right-hand side of a row taken over");
            }
            (k ? B : A).push_back(r);
        }
        vf_reach("import");
    }
    vf_assert(vf_races() == 0, "threads touch the same data");
    if (vf_teams() > before) vf_reach("teams");
    vf_assert(A.size() == B.size(), "sizes");
    for (size_t k = 0; k < A.size(); k++) for (int i = 0; i < (int)A[k].size(); i++) vf_assert(A[k][i] == B[k][i], "the result depends on the number of threads");
}
