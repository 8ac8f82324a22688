/*META
{"bounds": ["models with 3 variables (array element, a scalar, and one in no row; bounds finite, half-infinite or free, finite bounds in [-2,1] (thorough [-3,2]), any variable fixed) and 2 rows of every sense, coefficients and constants including 1234567, 0.1, 1e-7 and 123456.75, 4 right-hand sides (thorough: any in [-2,2]), minimise and maximise with a constant; written as MPS, read and imported again; every integer point in [-2,3]^3 (thorough [-5,5]^3) as adversary", "the same models written as JSON and read by the library's reader"],
 "assumptions": ["numbers are formatted by libstdc++ and parsed by the C library"],
 "reach": ["mps","json","maximise","free","half","fixed","unused","wide"]}
*/
#include "lib.h"
#include <unistd.h>
extern "C" void vf_setup() {}
using utility::json::JsonObject; using utility::json::JsonArray;
static double numv(const std::any& a) { return a.type() == typeid(int) ? (double)std::any_cast<int>(a) : std::any_cast<double>(a); }
extern "C" void vf_harness() {
    int js = vf_concrete(vf_int("json", 0, 1)), cs = vf_concrete(vf_int("coefficients", 0, 3)), bk = vf_concrete(vf_int("bounds", 0, 5)), mx = vf_concrete(vf_int("maximise", 0, 1)), s0 = vf_concrete(vf_int("sense", 0, 2));
    int s1 = (s0 + 1 + mx) % 3;
    static const double C[4][4] = {{1, -1, 2, 0.5}, {1234567, 0.1, -1, 3}, {1e-7, -123456.75, 1, 1}, {0, 1, -2.5, 7}};   // r0: x0 x1, r1: x1, objective: x0
    double k0 = TQ((cs + s0) % 3 - 1 - 0.5 * mx, vf_concrete(vf_int("k0", -2, 2))), oc = cs == 0 ? 0 : cs == 1 ? 1234567.25 : cs == 2 ? -3 : 0.1;
    int b0 = vf_concrete(vf_int("b0", -3 + TQ(1, 0), 0)), b1 = vf_concrete(vf_int("b1", 0, TQ(1, 2)));
    if (cs) vf_reach("wide");
    IPModel m(mx ? "" : "my model");
    auto& x = m.create_variables("x", 2, -5, 5);
    auto& y = m.create_variable("y", b0, b1);
    int lo = -5, hi = 5;
    switch (bk) {
        case 0: x(0).set_bound(constant::INT_HALF_MIN, constant::INT_HALF_MAX); vf_reach("free"); break;
        case 1: x(0).set_bound(constant::INT_HALF_MIN, b1); hi = b1; vf_reach("half"); break;
        case 2: x(0).set_bound(b0, constant::INT_HALF_MAX); lo = b0; vf_reach("half"); break;
        case 3: x(0).set_bound(b0, b1); lo = b0; hi = b1; break;
        case 4: x(0).set_bound(0, 1); lo = 0; hi = 1; break;
        case 5: x(0).fix_by(b0); lo = hi = b0; vf_reach("fixed"); break;
    }
    auto& g = m.create_constraint("g", vf_cons(C[cs][0] * x[0] + C[cs][1] * x[1] + k0, s0));
    auto& h = m.create_constraint("h", vf_cons(C[cs][2] * x[1] + 1.5, s1));
    IPExpr e = C[cs][3] * x[0] + oc;
    if (mx) { m.maximize(e); vf_reach("maximise"); } else m.minimize(e);
    RefModel R; R.n = 3;
    R.rows.push_back({{C[cs][0], C[cs][1], 0}, k0, s0});
    R.rows.push_back({{0, C[cs][2], 0}, 1.5, s1});
    R.obj = {C[cs][3], 0, 0}; R.obj0 = oc;
    std::string fn = "w" + std::to_string(getpid());
    struct Rm { std::string n; ~Rm() { unlink(n.c_str()); } } rm{fn};
    std::vector<int> p(3);
    static const char* PN[3] = {"p0", "p1", "p2"};
    for (int j = 0; j < 3; j++) p[j] = vf_int(PN[j], TQ(-2, -5), TQ(3, 5));
    int ok = vf_sat_ref(R, p) & (lo <= p[0]) & (p[0] <= hi) & (b0 <= p[2]) & (p[2] <= b1);
    vf_reach("unused");
    if (!js) {
        m.write_mps(fn);
        mps::MPS mp(fn);
        IPModel n("n");
        n.import_mps(mp, false);
        std::unordered_map<const IPVar*, int> at;
        auto& vs = n.variable_proxies()[0];
        vf_assert(vs.number_of_elements() == 3, "number of variables of the file");
        for (int j = 0; j < 3; j++) at[&vs.flat_indexed_variables(j)] = p[j];
        int acc = vf_sat_model(n, at);
        vf_assert(!acc | ok, "the written file accepts a point the model excludes");
        vf_assert(!ok | acc, "the written file excludes a point the model accepts");
        double ob = R.objective(p);
        vf_assert(vf_eval_at(n.objective().expression().sensitivities(), n.objective().expression().constant_value(), at) == (mx ? -ob : ob), "the objective of the written file");
        vf_reach("mps");
        return;
    }
    m.write_json(fn);
    auto o = utility::json::read_json_object(fn);
    vf_reach("json");
    vf_assert(o.get<std::string>("name") == (mx ? "untitled" : "mymodel"), "name in the JSON file");
    vf_assert(o.get<bool>("is_minimization") == !mx, "sense in the JSON file");
    auto va = o.get<JsonArray>("variables");
    vf_assert(va.body.size() == 3, "variables in the JSON file");
    std::unordered_map<std::string, int> ix;
    int acc = 1;
    for (int j = 0; j < 3; j++) {
        auto v = va.get<JsonObject>(j);
        ix[v.get<std::string>("name")] = j;
        vf_assert(v.get<std::string>("name") == m.variable_proxies()[j / 2].flat_indexed_variables(j % 2).name(), "variable name in the JSON file");
        if (v.get<bool>("is_fixed")) acc &= v.get<int>("value") == p[j];
        else acc &= (v.get<int>("lower_bound") <= p[j]) & (p[j] <= v.get<int>("upper_bound"));
        int vl = j == 0 ? lo : j == 1 ? -5 : b0, vu = j == 0 ? hi : j == 1 ? 5 : b1;
        if (bk != 5 || j) {   // [0,0] and [1,1] may be called either way
            if (vl == 0 && vu == 1) vf_assert(v.get<std::string>("sense") == "Binary", "variable sense in the JSON file");
            if (vl < 0 || vu > 1) vf_assert(v.get<std::string>("sense") == "Integer", "variable sense in the JSON file");
        }
    }
    auto ev = [&](const JsonArray& a, double k) { double v = k; for (auto& t : a.body) { auto q = std::any_cast<JsonObject>(t); v += numv(q.at("coefficient")) * p[ix.at(q.get<std::string>("variable"))]; } return v; };
    auto ca = o.get<JsonArray>("constraints");
    vf_assert(ca.body.size() == 2, "constraints in the JSON file");
    for (int i = 0; i < 2; i++) {
        auto c = ca.get<JsonObject>(i);
        auto s = c.get<std::string>("sense");
        vf_assert(c.get<bool>("is_enabled"), "constraint enabled in the JSON file");
        acc &= vf_rel(ev(c.get<JsonArray>("sensitivities"), -numv(c.at("rhs"))), s == "<=" ? 0 : s == "=" ? 1 : 2);
    }
    vf_assert((acc != 0) == (ok != 0), "the JSON file describes other solutions");
    auto jo = o.get<JsonObject>("objective");
    vf_assert(ev(jo.get<JsonArray>("sensitivities"), numv(jo.at("constant"))) == R.objective(p), "the objective of the JSON file");
}
