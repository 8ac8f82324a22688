/*META
{"bounds": ["rows with 1 to 4 variables (each binary, integer in [-3,3], integer in [0,2], fixed binary or fixed integer; for 4 variables: binary and integer ones with one fixed), any coefficients out of the non-zero halves in [-3,3] (4 variables: -2, -1, 1, 1.5 and 2), any constants out of the halves in [-3,3], every sense: type, the one flag, the key variable and the lists of the model; types after fixing a variable, changing bounds, or changing the row"],
 "assumptions": ["no coefficient is zero", "no variable occurs as dependent or in a selection when types are assigned"],
 "reach": ["Singleton","Exclusive OR","Exclusive NOR","Inverted Integers","Balanced Integers","Constant Sum Integers","Constant Difference Integers","Constant Ratio Integers","Aggregation","Precedence","Variable Bound","Trinomial Exclusive NOR","Set Partitioning","Set Packing","Set Covering","Cardinality","Invariant Knapsack","Multiple Covering","Binary Flow","Integer Flow","Soft Selection","Min-Max","Max-Min","Intermediate","Equation Knapsack","Bin Packing","Knapsack","Integer Knapsack","GF(2)","General Linear","disabled"]}
*/
#include "text.h"
#include "lib.h"
extern "C" void vf_setup() {}
typedef model_component::Variable<int, double> V;
typedef model_component::Constraint<int, double> C;
enum T { SING, XOR, XNOR, INV, BAL, CSUM, CDIF, CRAT, AGG, PREC, VB, TXNOR, PART, PACK, COV, CARD, IKN, MCOV, BFLOW, IFLOW, SOFT, MINMAX, MAXMIN, INTER, EQKN, BIN, KN, INTKN, GF2, GEN, NT };
static const char* NAME[NT] = {"Singleton","Exclusive OR","Exclusive NOR","Inverted Integers","Balanced Integers","Constant Sum Integers","Constant Difference Integers","Constant Ratio Integers","Aggregation","Precedence","Variable Bound","Trinomial Exclusive NOR","Set Partitioning","Set Packing","Set Covering","Cardinality","Invariant Knapsack","Multiple Covering","Binary Flow","Integer Flow","Soft Selection","Min-Max","Max-Min","Intermediate","Equation Knapsack","Bin Packing","Knapsack","Integer Knapsack","GF(2)","General Linear"};
struct Row { int n, s; double c[4], k; bool b[4], fx[4]; int lo[4], hi[4]; };
// the definitions, tried from the most special to the most general; key: the variable(s) that may be the key, -1: none
static T classify(const Row& r, bool key[4]) {
    int n = r.n, nb = 0, nf = 0, p1 = 0, m1 = 0, p2 = 0, m2 = 0, pos = 0, ip = 0, im = 0, big = 0;
    bool integral = r.k == std::floor(r.k);
    for (int i = 0; i < n; i++) {
        key[i] = false;
        nb += r.b[i]; nf += r.fx[i];
        p1 += r.c[i] == 1; m1 += r.c[i] == -1; p2 += r.c[i] == 2; m2 += r.c[i] == -2; pos += r.c[i] > 0;
        if (!r.b[i] && !r.fx[i]) { ip += r.c[i] == 1; im += r.c[i] == -1; }
        if (r.c[i] != std::floor(r.c[i])) integral = false;
    }
    if (n == 1) return SING;
    if (n == 2 && nf == 0 && r.s == 1) {
        bool same = r.c[0] == r.c[1], opp = r.c[0] == -r.c[1], unit = p1 + m1 == 2;
        if (nb == 2 && unit && same && r.k == -r.c[0]) { key[0] = key[1] = true; return XOR; }
        if (nb == 2 && unit && opp && r.k == 0) { key[0] = key[1] = true; return XNOR; }
        if (nb == 0) {
            key[0] = key[1] = true;
            if (unit && same) return r.k == 0 ? INV : CSUM;
            if (unit && opp) return r.k == 0 ? BAL : CDIF;
            if (p1 + m1 == 1) {
                for (int i = 0; i < 2; i++) key[i] = r.c[i] == 1 || r.c[i] == -1;
                if (r.k == 0) return CRAT;
                if (integral) return INTER;
            }
            key[0] = key[1] = false;
        }
        return AGG;
    }
    if (n == 2 && nf == 0) return r.b[0] == r.b[1] && r.c[0] == -r.c[1] ? PREC : VB;
    if (n == 3 && nf == 0 && nb == 3 && r.s == 1 && r.k == 0 && ((p1 == 2 && m2 == 1) || (m1 == 2 && p2 == 1))) {
        for (int i = 0; i < 3; i++) key[i] = r.c[i] == 2 || r.c[i] == -2;
        return TXNOR;
    }
    if (nb == n && p1 == n) {
        if (r.k == -1) return r.s == 1 ? PART : r.s == 0 ? PACK : COV;
        if (r.k <= -2) return r.s == 1 ? CARD : r.s == 0 ? IKN : MCOV;
    }
    if (r.s == 1 && p1 + m1 == n) {
        if (nb == n) {
            int one = p1 == 1 ? 1 : m1 == 1 ? -1 : 0;
            // with one variable on either side both may be the key
            for (int i = 0; i < n; i++) if (r.k == 0 && !r.fx[i] && ((r.c[i] == 1 && p1 == 1 && m1 > 0) || (r.c[i] == -1 && m1 == 1 && p1 > 0))) { key[i] = true; one = 2; }
            return one == 2 ? SOFT : BFLOW;
        }
        if (nb == 0 && p1 > 1 && m1 > 1) return IFLOW;
    }
    if (integral && ip + im > 0) {
        if (ip + im == 1 && r.s != 1) {
            for (int i = 0; i < n; i++) key[i] = !r.b[i] && !r.fx[i] && (r.c[i] == 1 || r.c[i] == -1);
            return (r.s == 0) == (im == 1) ? MINMAX : MAXMIN;
        }
        if (r.s == 1 && ((im == 1 && ip != 1) || (ip == 1 && im != 1))) {
            for (int i = 0; i < n; i++) key[i] = !r.b[i] && !r.fx[i] && r.c[i] == (im == 1 ? -1 : 1);
            return INTER;
        }
    }
    bool onesign = r.s == 0 ? pos == n : r.s == 2 ? pos == 0 : pos == n || pos == 0;
    if (nb == n && r.s == 1 && onesign) return EQKN;
    if (nb == n && r.s != 1 && onesign) {
        for (int i = 0; i < n; i++) if (r.c[i] == -r.k) return BIN;
        return KN;
    }
    if (nb < n && r.s != 1 && onesign) return INTKN;
    if (r.s == 1 && nf == 0 && (r.k == 0 || r.k == 1 || r.k == -1) && p2 + m2 == 1 && p1 + m1 == n - 1) {
        int e = 0;
        bool ok = true;
        for (int i = 0; i < n; i++) { if (r.c[i] == 2 || r.c[i] == -2) e = i; else ok = ok && r.b[i]; }
        double lo = r.k, hi = r.k;
        for (int i = 0; i < n; i++) if (i != e) { lo += r.c[i] < 0 ? r.c[i] : 0; hi += r.c[i] > 0 ? r.c[i] : 0; }
        double a = r.c[e] > 0 ? -hi : lo, z = r.c[e] > 0 ? -lo : hi;
        if (ok && r.lo[e] <= std::ceil(a / 2) && r.hi[e] >= std::floor(z / 2)) { key[e] = true; return GF2; }
    }
    return GEN;
}
static void check(IPModel& m, C& c, V** v, const Row& r, bool enabled) {
    bool key[4];
    int t = classify(r, key);
    vf_assert(c.type() == NAME[t], "the type of a constraint");
    vf_reach(NAME[t]);
    bool f[NT] = {c.is_singleton(), c.is_exclusive_or(), c.is_exclusive_nor(), c.is_inverted_integers(), c.is_balanced_integers(), c.is_constant_sum_integers(), c.is_constant_difference_integers(), c.is_constant_ratio_integers(), c.is_aggregation(), c.is_precedence(), c.is_variable_bound(), c.is_trinomial_exclusive_nor(), c.is_set_partitioning(), c.is_set_packing(), c.is_set_covering(), c.is_cardinality(), c.is_invariant_knapsack(), c.is_multiple_covering(), c.is_binary_flow(), c.is_integer_flow(), c.is_soft_selection(), c.is_min_max(), c.is_max_min(), c.is_intermediate(), c.is_equation_knapsack(), c.is_bin_packing(), c.is_knapsack(), c.is_integer_knapsack(), c.is_gf2(), c.is_general_linear()};
    for (int i = 0; i < NT; i++) vf_assert(f[i] == (i == t), "a constraint has exactly one type");
    bool any = false;
    for (int i = 0; i < r.n; i++) any = any || key[i];
    int k = -1;
    for (int i = 0; i < r.n; i++) if (c.key_variable_ptr() == v[i]) k = i;
    vf_assert(any ? k >= 0 && key[k] : true, "the key variable of a constraint");
    auto& R = m.constraint_type_reference();
    const std::vector<C*>* L[NT] = {&R.singleton_ptrs, &R.exclusive_or_ptrs, &R.exclusive_nor_ptrs, &R.inverted_integers_ptrs, &R.balanced_integers_ptrs, &R.constant_sum_integers_ptrs, &R.constant_difference_integers_ptrs, &R.constant_ratio_integers_ptrs, &R.aggregation_ptrs, &R.precedence_ptrs, &R.variable_bound_ptrs, &R.trinomial_exclusive_nor_ptrs, &R.set_partitioning_ptrs, &R.set_packing_ptrs, &R.set_covering_ptrs, &R.cardinality_ptrs, &R.invariant_knapsack_ptrs, &R.multiple_covering_ptrs, &R.binary_flow_ptrs, &R.integer_flow_ptrs, &R.soft_selection_ptrs, &R.min_max_ptrs, &R.max_min_ptrs, &R.intermediate_ptrs, &R.equation_knapsack_ptrs, &R.bin_packing_ptrs, &R.knapsack_ptrs, &R.integer_knapsack_ptrs, &R.gf2_ptrs, &R.general_linear_ptrs};
    for (int i = 0; i < NT; i++) vf_assert((int)L[i]->size() == (i == t) && (L[i]->empty() || (*L[i])[0] == &c), "the lists of constraints by type");
    auto& q = m.constraint_reference();
    vf_assert(q.constraint_ptrs.size() == 1 && (int)q.enabled_constraint_ptrs.size() == enabled && (int)q.disabled_constraint_ptrs.size() == !enabled, "the lists of enabled constraints");
    vf_assert((int)q.less_ptrs.size() == (enabled && r.s == 0) && (int)q.equal_ptrs.size() == (enabled && r.s == 1) && (int)q.greater_ptrs.size() == (enabled && r.s == 2), "the lists of constraints by sense");
    if (!enabled) vf_reach("disabled");
}
static const int C4[5] = {-4, -2, 2, 3, 4};
extern "C" void vf_harness() {
    Row r;
    r.n = vf_scn(4) + 1;
    r.s = vf_concrete(vf_int("sense", 0, 2));
    static const char* KN_[4] = {"k0", "k1", "k2", "k3"};
    static const char* CN[4] = {"c0", "c1", "c2", "c3"};
    static const char* VN[4] = {"b", "c", "a", "d"};
    IPModel m("m");
    V* v[4];
    int code = r.n == 4 ? vf_concrete(vf_int("kinds", 0, 4)) : 0;
    for (int i = 0; i < r.n; i++) {
        int kind = r.n < 4 ? vf_concrete(vf_int(KN_[i], 0, r.n == 3 && i ? 3 : 4)) : code == 0 ? 0 : code == 1 ? 1 : code == 2 ? (i == 1) : code == 3 ? (i == 2 ? 3 : 0) : (i == 3 ? 0 : i == 1 ? 4 : 1);
        r.b[i] = kind == 0 || kind == 3;
        r.fx[i] = kind >= 3;
        r.lo[i] = kind == 1 || kind == 4 ? -3 : 0;
        r.hi[i] = r.b[i] ? 1 : kind == 2 ? 2 : 3;
        auto& p = m.create_variable(VN[i], r.lo[i], r.hi[i]);
        if (r.fx[i]) p.fix_by(1);
        v[i] = &p.flat_indexed_variables(0);
        if (r.n == 4) { double tab[5] = {-2, -1, 1, 1.5, 2}; r.c[i] = vf_table(vf_int(CN[i], 0, 4), tab, 5); }
        else { int h = vf_int(CN[i], -6, 6); vf_assume(h != 0); r.c[i] = h * 0.5; }
    }
    r.k = vf_half("constant", 6);
    model_component::Expression<int, double> e = r.c[0] * m.variable_proxies()[0];
    for (int i = 1; i < r.n; i++) e = e + r.c[i] * m.variable_proxies()[i];
    e = e + r.k;
    auto& p = r.s == 0 ? m.create_constraint("r", e <= 0) : r.s == 1 ? m.create_constraint("r", e == 0) : m.create_constraint("r", e >= 0);
    auto& c = p.flat_indexed_constraints(0);
    bool en = r.n > 2 || vf_concrete(vf_bool("enabled"));
    if (!en) c.disable();
    m.minimize(m.variable_proxies()[0] * 1);
    m.setup_unique_names();
    m.setup_structure();
    check(m, c, v, r, en);
    if (r.n <= 2) {   // another shape afterwards
        int ch = vf_concrete(vf_int("change", 0, 2));
        if (ch == 0) { r.fx[0] = !r.fx[0]; if (r.fx[0]) v[0]->fix_by(1); else v[0]->unfix(); }
        if (ch == 1) { v[0]->set_bound(0, 1); r.b[0] = true; r.lo[0] = 0; r.hi[0] = 1; if (r.fx[0]) return; }
        if (ch == 2) { v[0]->set_bound(-3, 3); r.b[0] = false; r.lo[0] = -3; r.hi[0] = 3; if (r.fx[0]) return; }
        m.setup_structure();
        check(m, c, v, r, en);
    }
}
