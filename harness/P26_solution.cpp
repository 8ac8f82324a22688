/*META
{"bounds": ["a model with a scalar, a vector of 2 and a 2x2 or 2x1x2 array of variables, an expression array, and constraint arrays (one element disabled or not), minimised or maximised, with a constant; any values in [-2,2] and [0,2]; a variable fixed or not: the exported dense, sparse and named solutions for every point, taking a solution back into the model from any other point", "files: the same with every point of a grid of 54 points forked over; JSON by name, JSON by array, and solution files read back"],
 "assumptions": ["names contain no quotation marks", "reading a solution file back by name needs names without blanks"],
 "reach": ["dense","sparse","named","by name","by array","sol feasible","sol infeasible","read back","fixed","disabled","maximize","three dimensions"]}
*/
#include "text.h"
#include "lib.h"
#include "helper/helper.h"
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
extern "C" void vf_setup() {}
typedef std::string S;
static S slurp(const S& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static S member(const S& t, const S& key, size_t from = 0) {   // text of a member's value, independent of the JSON code under test
    size_t p = t.find("\"" + key + "\"", from);
    if (p == S::npos) return "?";
    p = t.find(':', p) + 1;
    while (t[p] == ' ' || t[p] == '\n') p++;
    size_t e = p; int d = 0; bool q = false;
    for (; e < t.size(); e++) { char c = t[e]; if (c == '"') q = !q; if (q) continue; if (c == '[' || c == '{') d++; if (c == ']' || c == '}') { if (!d) break; d--; } if (!d && (c == ',' || c == '\n')) break; }
    S r = t.substr(p, e - p);
    while (!r.empty() && (r.back() == ' ' || r.back() == '\n')) r.pop_back();
    return r;
}
static double num(const S& s) { char* e; double d = std::strtod(s.c_str(), &e); return s.empty() || *e ? 1e99 : d; }
static int near(double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; }
static S nested(const std::vector<double>& v, const std::vector<int>& sh, size_t k, size_t& pos) {
    S r = "[";
    for (int i = 0; i < sh[k]; i++) { if (i) r += ","; if (k + 1 == sh.size()) { char b[40]; snprintf(b, 40, "%.6f", v[pos++]); r += b; } else r += nested(v, sh, k + 1, pos); }
    return r + "]";
}
static S canon(const S& t) {   // the numbers of a nested array in one notation
    S r;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == ' ' || t[i] == '\n') { i++; continue; }
        if (t[i] == '-' || isdigit(t[i])) { char* e; double d = std::strtod(t.c_str() + i, &e); char b[40]; snprintf(b, 40, "%.6f", d == 0 ? 0.0 : d); r += b; i = e - t.c_str(); continue; }
        r += t[i++];
    }
    return r;
}
extern "C" void vf_harness() {
    vf_opaque_text();
    int files = vf_concrete(vf_int("files", 0, 1)), d3 = vf_concrete(vf_int("d3", 0, 1)), mx = vf_concrete(vf_int("max", 0, 1)), dis = vf_concrete(vf_int("disable", 0, 1)), fix = vf_concrete(vf_int("fix", 0, 1));
    IPModel m("the model");
    auto& x = m.create_variable("x", -2, 2);
    auto& y = m.create_variables("y", 2, 0, 2);
    auto& z = m.create_variables("z", d3 ? std::vector<int>{2, 1, 2} : std::vector<int>{2, 2}, 0, 2);
    auto& e = m.create_expressions("e", 2);
    auto Z = [&](int i, int j) -> IPVar& { return d3 ? z(i, 0, j) : z(i, j); };
    e(0) = x + 0.5 * y(0) + 3;
    e(1) = Z(0, 1) - 2 * Z(1, 0);
    auto& g = m.create_constraints("g", 2);
    g(0) = x + y(0) <= 2;
    g(1) = Z(0, 0) + Z(1, 1) >= 1;
    auto& h = m.create_constraint("h", y(1) - Z(1, 0) == 0);
    (void)h;
    if (mx) m.maximize(e(0) + 0.25 * Z(1, 1) - 7); else m.minimize(e(0) + 0.25 * Z(1, 1) - 7);
    if (mx) vf_reach("maximize");
    if (d3) vf_reach("three dimensions");
    option::Option o; vf_no_presolve(o);
    o.preprocess.is_enabled_extract_dependent_intermediate = false;
    int v[7];
    static const char* N[7] = {"x", "y0", "y1", "z00", "z01", "z10", "z11"};
    static const int L[7] = {-2, 0, 0, 0, 0, 0, 0}, U[7] = {2, 2, 2, 2, 2, 2, 2};
    if (files) {
        int p = vf_concrete(vf_int("point", 0, 53));
        v[0] = p % 3 * 2 - 2; v[1] = p / 3 % 3; v[2] = p / 9 % 2; v[3] = p / 18 % 3; v[4] = (p * 7 + 1) % 3; v[5] = p / 9 % 2; v[6] = p % 2;
    } else for (int i = 0; i < 7; i++) v[i] = vf_int(N[i], L[i], U[i]);
    IPVar* V[7] = {&x(0), &y(0), &y(1), &Z(0, 0), &Z(0, 1), &Z(1, 0), &Z(1, 1)};
    m.setup(o, false);
    if (dis) { g(1).disable(); m.setup_structure(); vf_reach("disabled"); }
    for (int i = 0; i < 7; i++) *V[i] = v[i];
    if (fix) { y(1).fix(); vf_reach("fixed"); }
    m.update();
    // what has to be reported
    double e0 = v[0] + 0.5 * v[1] + 3, e1 = v[4] - 2 * v[5], ob = e0 + 0.25 * v[6] - 7;
    double c0 = v[0] + v[1] - 2, c1 = v[3] + v[6] - 1, c2 = v[2] - v[5];
    double w0 = c0 > 0 ? c0 : 0, w1 = dis ? 0 : (c1 < 0 ? -c1 : 0), w2 = c2 < 0 ? -c2 : c2;
    int feas = (w0 == 0) & (w1 == 0) & (w2 == 0);
    if (!files) {
        auto D = m.export_dense_solution(); auto SP = m.export_sparse_solution(); auto NS = m.export_named_solution();
        vf_assert(D.variable_value_proxies.size() == 3 && D.expression_value_proxies.size() == 1 && D.constraint_value_proxies.size() == 2 && D.violation_value_proxies.size() == 2, "parts of a dense solution");
        auto& dv = D.variable_value_proxies; auto& nv = NS.variables();
        vf_assert(nv.size() == 3 && NS.expressions().size() == 1 && NS.constraints().size() == 2 && NS.violations().size() == 2, "parts of a named solution");
        int ok = (dv[0].value() == v[0]) & (dv[1].values(0) == v[1]) & (dv[1].values(1) == v[2]) & (dv[2].flat_indexed_values(0) == v[3]) & (dv[2].flat_indexed_values(1) == v[4]) & (dv[2].flat_indexed_values(2) == v[5]) & (dv[2].flat_indexed_values(3) == v[6]);
        vf_assert(ok, "variable values of a dense solution");
        auto zz = NS.variables("z");
        ok = (NS.variables("x").value() == v[0]) & (NS.variables("y").values(0) == v[1]) & (NS.variables("y").values(1) == v[2]) & ((d3 ? zz(0, 0, 0) : zz(0, 0)) == v[3]) & ((d3 ? zz(0, 0, 1) : zz(0, 1)) == v[4]) & ((d3 ? zz(1, 0, 0) : zz(1, 0)) == v[5]) & ((d3 ? zz(1, 0, 1) : zz(1, 1)) == v[6]);
        vf_assert(ok, "variable values of a named solution");
        vf_assert(NS.variables("y").names(1) == y(1).name() && NS.variables("x").name() == x(0).name() && NS.constraints("g").names(0) == g(0).name() && NS.violations("g").names(1) == g(1).name() && NS.expressions("e").names(1) == e(1).name(), "names of a named solution");
        ok = (NS.expressions("e").values(0) == e0) & (NS.expressions("e").values(1) == e1) & (D.expression_value_proxies[0].values(0) == e0) & (D.expression_value_proxies[0].values(1) == e1);
        vf_assert(ok, "expression values of a solution");
        ok = (NS.constraints("g").values(0) == c0) & (NS.constraints("g").values(1) == c1) & (NS.constraints("h").value() == c2) & (D.constraint_value_proxies[0].values(0) == c0) & (D.constraint_value_proxies[0].values(1) == c1) & (D.constraint_value_proxies[1].value() == c2);
        vf_assert(ok, "constraint values of a solution");
        ok = (NS.violations("g").values(0) == w0) & (NS.violations("g").values(1) == w1) & (NS.violations("h").value() == w2) & (D.violation_value_proxies[0].values(0) == w0) & (D.violation_value_proxies[0].values(1) == w1) & (D.violation_value_proxies[1].value() == w2);
        vf_assert(ok | dis, "violations of a solution");
        vf_assert((NS.objective() == ob) & (D.objective == ob) & (SP.objective == ob), "objective of a solution");
        vf_assert(((NS.total_violation() == w0 + w1 + w2) & (D.total_violation == w0 + w1 + w2) & (SP.total_violation == w0 + w1 + w2)) | dis, "total violation of a solution");
        vf_assert(((int)NS.is_feasible() == feas) & ((int)D.is_feasible == feas) & ((int)SP.is_feasible == feas), "feasibility of a solution");
        vf_assert(NS.name() == "the model" && NS.number_of_variables() == 7 && NS.number_of_constraints() == 3, "head of a named solution");
        size_t nz = 0;
        for (int i = 0; i < 7; i++) {
            auto it = SP.variables.find(V[i]->name());
            if (it == SP.variables.end()) vf_assert(v[i] == 0, "a value is missing in a sparse solution");
            else { vf_assert(it->second == v[i], "a value of a sparse solution"); nz++; }
        }
        vf_assert(SP.variables.size() == nz, "a sparse solution has other variables");
        vf_reach("dense"); vf_reach("named"); vf_reach("sparse");
        // back again
        for (int way = 0; way < 2; way++) {
            for (int i = 0; i < 7; i++) if (!V[i]->is_fixed()) *V[i] = i == 0 ? -1 : 1;
            if (way) m.import_solution(SP); else m.import_solution(D);
            for (int i = 0; i < 7; i++) vf_assert(V[i]->value() == v[i], "a solution taken back has other values");
        }
        return;
    }
    auto NS = m.export_named_solution();
    S fn = "s" + std::to_string(getpid());
    for (int arr = 0; arr < 2; arr++) {
        if (arr) NS.write_json_by_array(fn); else NS.write_json_by_name(fn);
        S t = slurp(fn);
        unlink(fn.c_str());
        vf_assert(member(t, "name") == "\"the model\"" && member(t, "number_of_variables") == "7" && member(t, "number_of_constraints") == "3", "head of the solution file");
        vf_assert(member(t, "is_found_feasible_solution") == (feas ? "true" : "false"), "feasibility in the file");
        vf_assert(near(num(member(t, "objective")), ob), "objective in the file");
        vf_assert(dis || near(num(member(t, "total_violation")), w0 + w1 + w2), "violation in the file");
        S vs = member(t, "variables"), es = member(t, "expressions"), cs = member(t, "constraints"), ws = member(t, "violations");
        if (!arr) {
            for (int i = 0; i < 7; i++) vf_assert(num(member(vs, V[i]->name())) == v[i], "variable value in the file");
            vf_assert(near(num(member(es, e(0).name())), e0) && near(num(member(es, e(1).name())), e1), "expression value in the file");
            vf_assert(near(num(member(cs, g(0).name())), c0) && near(num(member(cs, g(1).name())), c1) && near(num(member(cs, "h")), c2), "constraint value in the file");
            vf_assert(near(num(member(ws, g(0).name())), w0) && (dis || near(num(member(ws, g(1).name())), w1)) && near(num(member(ws, "h")), w2), "violation in the file");
            vf_reach("by name");
        } else {
            auto ar = [&](std::vector<double> a, std::vector<int> sh) { size_t p = 0; return nested(a, sh, 0, p); };
            vf_assert(canon(member(vs, "x")) == ar({(double)v[0]}, {1}), "scalar in the file");
            vf_assert(canon(member(vs, "y")) == ar({(double)v[1], (double)v[2]}, {2}), "vector in the file");
            vf_assert(canon(member(vs, "z")) == ar({(double)v[3], (double)v[4], (double)v[5], (double)v[6]}, d3 ? std::vector<int>{2, 1, 2} : std::vector<int>{2, 2}), "array in the file");
            vf_assert(canon(member(es, "e")) == ar({e0, e1 == 0 ? 0.0 : e1}, {2}), "expressions in the file");
            vf_assert(canon(member(cs, "g")) == ar({c0, c1}, {2}) && canon(member(cs, "h")) == ar({c2}, {1}), "constraints in the file");
            vf_assert(dis || (canon(member(ws, "g")) == ar({w0, w1}, {2}) && canon(member(ws, "h")) == ar({w2}, {1})), "violations in the file");
            vf_reach("by array");
        }
    }
    NS.write_solution(fn);
    S t = slurp(fn);
    auto nv = helper::read_names_and_values(fn);
    unlink(fn.c_str());
    std::map<S, double> got;
    std::stringstream ss(t); S line; int n = 0;
    while (std::getline(ss, line)) {
        if (!n++) {
            if (feas) { vf_assert(line.compare(0, 6, "=obj= ") == 0 && near(num(line.substr(6)), ob), "objective of a solution file"); vf_reach("sol feasible"); }
            else { vf_assert(line == "=infeas=", "an infeasible solution file has an objective"); vf_reach("sol infeasible"); }
            continue;
        }
        size_t p = line.rfind(' ');
        got[line.substr(0, p)] = num(line.substr(p + 1));
    }
    vf_assert(got.size() == 7 && n == 8, "lines of a solution file");
    for (int i = 0; i < 7; i++) vf_assert(got.count(V[i]->name()) && got[V[i]->name()] == v[i], "value in a solution file");
    for (int i = 0; i < 3; i++) vf_assert(nv.count(V[i]->name()) && nv[V[i]->name()] == v[i], "value read from a solution file");
    for (int i = 3; i < 7; i++) nv[V[i]->name()] = v[i];
    for (int i = 0; i < 7; i++) if (!V[i]->is_fixed()) *V[i] = 1;
    m.import_solution(nv);
    for (int i = 0; i < 7; i++) vf_assert(V[i]->value() == v[i], "values taken from a solution file");
    vf_reach("read back");
}
