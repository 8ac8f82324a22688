// shared by the harnesses
#pragma once
#include "vf.h"
#include <cmath>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "std.h"
#include "constant/constant.h"
#include "utility/utility.h"
#include "multi_array/multi_array.h"
#include "mps/mps.h"
#include "option/option.h"
#include "model_component/model_component.h"
#include "neighborhood/neighborhood.h"
#include "preprocess/preprocess.h"
#include "solution/solution.h"
#include "linear_programming/linear_programming.h"
#include "model/model.h"
using namespace printemps;
using model_component::Range;
using IPModel      = model::Model<int, double>;
using IPVar        = model_component::Variable<int, double>;
using IPExpr       = model_component::Expression<int, double>;
using IPCons       = model_component::Constraint<int, double>;
using IPMove       = neighborhood::Move<int, double>;
#ifdef THOROUGH
#define TQ(q, t) (t)
#else
#define TQ(q, t) (q)
#endif
// half-integral coefficient in [-n/2, n/2]
static inline double vf_half(const char* nm, int n) { return vf_int(nm, -n, n) * 0.5; }
static inline int vf_scn(int n) { return vf_concrete(vf_int("scenario", 0, n - 1)); }
// ---------------------------------------------------------------- reference model: dense rows over the harness's own variable values
struct RefRow { std::vector<double> c; double k; int s; };   // c.x + k  (s: 0 <=, 1 ==, 2 >=)  0
struct RefModel {
    int n = 0;
    std::vector<RefRow> rows;
    std::vector<double> obj; double obj0 = 0; bool minimize = true;
    double row(int i, const std::vector<int>& x) const { double v = rows[i].k; for (int j = 0; j < n; j++) if (rows[i].c[j] != 0) v += rows[i].c[j] * x[j]; return v; }
    double viol(int i, const std::vector<int>& x) const {
        double v = row(i, x);
        if (rows[i].s == 0) return v > 0 ? v : 0;
        if (rows[i].s == 2) return v < 0 ? -v : 0;
        return v > 0 ? v : -v;
    }
    double total(const std::vector<int>& x) const { double t = 0; for (size_t i = 0; i < rows.size(); i++) t += viol(i, x); return t; }
    bool feasible(const std::vector<int>& x) const { for (size_t i = 0; i < rows.size(); i++) { double v = row(i, x); if (rows[i].s != 2 && v > 0) return false; if (rows[i].s != 0 && v < 0) return false; } return true; }
    double objective(const std::vector<int>& x) const { double v = obj0; for (int j = 0; j < n; j++) if (obj[j] != 0) v += obj[j] * x[j]; return v; }
};
static inline IPCons vf_cons(const IPExpr& l, int s) { return s == 0 ? (l <= 0) : s == 1 ? (l == 0) : (l >= 0); }
// expression of a reference row over the given variables (zero coefficients left out)
template <class VS> static inline IPExpr vf_expr(const std::vector<double>& c, double k, VS& x) {
    IPExpr e = IPExpr::create_instance();
    for (size_t j = 0; j < c.size(); j++) if (c[j] != 0) e += c[j] * x[j];
    e += k;
    return e;
}
static inline void vf_no_presolve(option::Option& o) { o.preprocess.is_enabled_presolve = false; }
// ---------------------------------------------------------------- branch-free membership in the original and in the reduced (presolved) model
static inline int vf_rel(double v, int s) { return s == 0 ? (v <= 0) : s == 1 ? (v == 0) : (v >= 0); }
static inline int vf_sat_ref(const RefModel& R, const std::vector<int>& x) {
    int ok = 1;
    for (size_t i = 0; i < R.rows.size(); i++) ok &= vf_rel(R.row(i, x), R.rows[i].s);
    return ok;
}
static inline double vf_eval_at(const std::unordered_map<IPVar*, double>& sens, double k, const std::unordered_map<const IPVar*, int>& at) {
    double v = k;
    for (auto& s : sens) v += s.second * at.at(s.first);
    return v;
}
// what the reduced model accepts: fixed values, bounds, definitions of eliminated variables, enabled constraints
static inline int vf_sat_model(IPModel& m, const std::unordered_map<const IPVar*, int>& at) {
    int ok = 1;
    for (auto& p : m.variable_proxies()) for (auto& v : p.flat_indexed_variables()) {
        auto it = at.find(&v);
        if (it == at.end()) continue;
        if (v.dependent_expression_ptr() != nullptr) { auto e = v.dependent_expression_ptr(); ok &= vf_eval_at(e->sensitivities(), e->constant_value(), at) == it->second; continue; }
        if (v.is_fixed()) ok &= it->second == v.value();
        else ok &= (v.lower_bound() <= it->second) & (it->second <= v.upper_bound());
    }
    for (auto& p : m.constraint_proxies()) for (auto& c : p.flat_indexed_constraints()) {
        if (!c.is_enabled()) continue;
        double v = vf_eval_at(c.expression().sensitivities(), c.expression().constant_value(), at);
        int s = c.sense() == model_component::ConstraintSense::Less ? 0 : c.sense() == model_component::ConstraintSense::Equal ? 1 : 2;
        ok &= vf_rel(v, s);
    }
    return ok;
}
