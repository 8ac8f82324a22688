/*META
{"bounds": ["whole runs of the command-line solver on a 6-variable MPS model (2 integers, 3 binaries with a sum-to-one row, a column that is continuous or integer): any order of two flags and the model file; files of fixed values, mutable variables, initial values (values in [-1,5] written as integers, decimals and with exponent, blank lines, unknown names, repeated names, extra columns, tabs), selection constraints, variable pairs, options; --accept-continuous, --export-json-instance, --include-mps-loading-time, --extract-flippable-variable-pairs with -c; -m with -f; up to 4 outer and 6 inner iterations; every input is enumerated by forking, the point that is compared with the exported instance and the reported solutions is symbolic"],
 "assumptions": ["the clock stands still"],
 "reach": ["initial","fixed","mutable","continuous","continuous rejected","selection","pairs","both rejected","extracted","instance","feasible","infeasible","stored","missing file"]}
*/
#define _PRINTEMPS_MPS_SOLVER
#include "text.h"
#include "lib.h"
#include "helper/helper.h"
#include "solver/solver.h"
#include "standalone/standalone.h"
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
extern "C" void vf_setup() {}
typedef std::string S;
static S slurp(const S& f, bool* ok = nullptr) { std::ifstream i(f); if (ok) *ok = i.good(); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const S& f, const S& t) { std::ofstream o(f); o << t; }
static S scalar(const S& t, const S& key, size_t from = 0) {   // text of a scalar member, independent of the JSON code under test
    size_t p = t.find("\"" + key + "\"", from);
    if (p == S::npos) return "";
    p = t.find(':', p) + 1;
    size_t e = t.find_first_of(",}\n", p);
    S r = t.substr(p, e - p);
    while (!r.empty() && r[0] == ' ') r.erase(0, 1);
    while (!r.empty() && (r.back() == ' ')) r.pop_back();
    return r;
}
static std::map<S, double> section(const S& t, const S& key, size_t from = 0) {
    std::map<S, double> m;
    size_t p = t.find("\"" + key + "\"", from);
    if (p == S::npos) return m;
    p = t.find('{', p);
    size_t end = t.find('}', p);
    for (size_t q = p; (q = t.find('"', q)) < end;) {
        size_t r = t.find('"', q + 1);
        m[t.substr(q + 1, r - q - 1)] = std::strtod(t.c_str() + t.find(':', r) + 1, nullptr);
        q = r + 1;
    }
    return m;
}
static const S NM[6] = {"x", "y", "b1", "b2", "b3", "z"};
static const int UB[6] = {3, 3, 1, 1, 1, 2};
struct Row { const char* name; int c[6]; char sense; int rhs; };
static const Row ROW[3] = {{"c1", {1, 1, 0, 0, 0, 1}, 'L', 4}, {"sel", {0, 0, 1, 1, 1, 0}, 'E', 1}, {"c2", {1, 0, 0, -1, 0, 0}, 'G', 0}};
static int OBJ[6] = {1, -2, 1, 2, 3, -1};
static int lhs(const Row& r, const int* p) { int a = 0; for (int i = 0; i < 6; i++) a += r.c[i] * p[i]; return a; }
static bool sat(const Row& r, const int* p) { int a = lhs(r, p); return r.sense == 'L' ? a <= r.rhs : r.sense == 'G' ? a >= r.rhs : a == r.rhs; }
static int obj(const int* p) { int a = 0; for (int i = 0; i < 6; i++) a += OBJ[i] * p[i]; return a; }
static bool inbox(const int* p) { bool b = true; for (int i = 0; i < 6; i++) b = b && p[i] >= 0 && p[i] <= UB[i]; return b; }
static S mpstext(bool cont) {
    std::ostringstream f;
    f << "NAME T\nROWS\n N obj\n L c1\n E sel\n G c2\nCOLUMNS\n    M1 'MARKER' 'INTORG'\n";
    for (int i = 0; i < 6; i++) {
        if (i == 5 && cont) f << "    M2 'MARKER' 'INTEND'\n";
        f << "    " << NM[i] << " obj " << OBJ[i] << "\n";
        for (auto& r : ROW) if (r.c[i]) f << "    " << NM[i] << "  " << r.name << "  " << r.c[i] << "\n";
        if (i == 5 && !cont) f << "    M2 'MARKER' 'INTEND'\n";
    }
    f << "RHS\n";
    for (auto& r : ROW) f << "    RHS " << r.name << " " << r.rhs << "\n";
    f << "BOUNDS\n UP B x 3\n UP B y 3\n BV B b1\n BV B b2\n BV B b3\n UP B z 2\nENDATA\n";
    return f.str();
}
static S number(int v, int form) {
    char b[32];
    if (form == 0) snprintf(b, sizeof b, "%d", v);
    if (form == 1) snprintf(b, sizeof b, "%.1f", v - 0.4);
    if (form == 2) snprintf(b, sizeof b, "%d.4", v), v < 0 ? (void)snprintf(b, sizeof b, "%d.0", v) : (void)0;
    if (form == 3) snprintf(b, sizeof b, "%.1fe1", v * 0.1);
    if (form == 4) snprintf(b, sizeof b, "%.4f", v * 1.0);
    return b;
}
static char dirname_[64];
static void cleanup() {
    for (const char* f : {"t.mps", "o.json", "i.txt", "f.txt", "m.txt", "s.txt", "x.txt", "incumbent.json", "incumbent.sol", "status.json", "feasible.json", "t.json", "flip.txt"}) unlink(f);
    if (chdir("..")) {}
    rmdir(dirname_);
}
static bool run(std::vector<S> args) {   // false: rejected
    args.insert(args.begin(), "mps_solver");
    std::vector<char*> a;
    for (auto& s : args) a.push_back(&s[0]);
    a.push_back(nullptr);
    try { standalone::MPSSolver(args.size(), a.data()).run(); } catch (std::logic_error&) { return false; } catch (std::runtime_error&) { return false; }
    return true;
}
static void results(const int* fix, bool instance, bool store) {   // everything the files say is true
    S j = slurp("incumbent.json"), s = slurp("incumbent.sol"), st = slurp("status.json");
    auto v = section(j, "variables"), c = section(j, "constraints"), w = section(j, "violations");
    int p[6];
    vf_assert(v.size() == 6 && c.size() == 3 && w.size() == 3, "the number of entries of a solution file");
    for (int i = 0; i < 6; i++) {
        vf_assert(v.count(NM[i]), "a variable is missing in the solution file");
        p[i] = (int)v[NM[i]];
        vf_assert(p[i] == v[NM[i]] && p[i] >= 0 && p[i] <= UB[i], "a reported value is outside its bounds");
        vf_assert(fix[i] == -99 || p[i] == fix[i], "a fixed variable has another value");
    }
    bool f = true;
    double tv = 0;
    for (auto& r : ROW) {
        vf_assert(c[r.name] == lhs(r, p) - r.rhs, "a reported constraint value");
        f = f && sat(r, p);
        vf_assert((w[r.name] > 0.5) == !sat(r, p), "a reported violation");
        tv += w[r.name];
    }
    vf_reach(f ? "feasible" : "infeasible");
    vf_assert(scalar(j, "is_found_feasible_solution") == (f ? "true" : "false") && scalar(st, "is_found_feasible_solution") == (f ? "true" : "false"), "the reported feasibility is wrong");
    vf_assert(std::strtod(scalar(j, "objective").c_str(), nullptr) == obj(p), "the reported objective is wrong");
    vf_assert(std::strtod(scalar(j, "total_violation").c_str(), nullptr) == tv, "the reported violation is wrong");
    vf_assert(scalar(j, "number_of_variables") == "6" && scalar(j, "number_of_constraints") == "3", "the reported size");
    std::istringstream ss(s);
    S a, b;
    int n = 0;
    ss >> a;
    if (f) { ss >> b; vf_assert(a == "=obj=" && std::strtod(b.c_str(), nullptr) == obj(p), "the objective in the .sol file"); }
    else vf_assert(a == "=infeas=", "the feasibility in the .sol file");
    for (; ss >> a >> b; n++) vf_assert(v.count(a) && v[a] == std::strtod(b.c_str(), nullptr), "a value in the .sol file");
    vf_assert(n == 6, "the number of values in the .sol file");
    if (store) {
        S g = slurp("feasible.json");
        double best = 1e9;
        int k = 0;
        for (size_t q = 0; (q = g.find("\"is_feasible\"", q)) != S::npos; q++, k++) {
            auto t = section(g, "variables", q);
            int u[6];
            for (int i = 0; i < 6; i++) u[i] = t.count(NM[i]) ? (int)t[NM[i]] : 0;
            bool ok = inbox(u);
            for (auto& r : ROW) ok = ok && sat(r, u);
            vf_assert(ok, "a stored solution is not feasible");
            double o = std::strtod(scalar(g, "objective", q).c_str(), nullptr);
            vf_assert(o == obj(u), "the objective of a stored solution");
            best = std::min(best, o);
            vf_reach("stored");
        }
        vf_assert(f ? best >= obj(p) : k == 0, "a stored solution is better than the reported one");
    }
    if (instance) {   // the exported instance has the solutions of the model
        bool ok;
        S g = slurp("t.json", &ok);
        vf_assert(ok, "no instance is exported");
        int q[6];
        static const char* QN[6] = {"q0", "q1", "q2", "q3", "q4", "q5"};
        for (int i = 0; i < 6; i++) q[i] = vf_int(QN[i], 0, UB[i]);
        bool want = true;
        for (auto& r : ROW) want = want & sat(r, q);
        bool got = true;
        size_t vs = g.find("\"variables\""), cs = g.find("\"constraints\"");
        for (int i = 0; i < 6; i++) {
            size_t at = g.find("\"" + NM[i] + "\"", vs);
            vf_assert(at != S::npos, "a variable is missing in the instance");
            int lo = atoi(scalar(g, "lower_bound", at).c_str()), hi = atoi(scalar(g, "upper_bound", at).c_str());
            bool fx = scalar(g, "is_fixed", at) == "true";
            int val = atoi(scalar(g, "value", at).c_str());
            got = got & (q[i] >= lo) & (q[i] <= hi) & (!fx | (q[i] == val));
            if (fix[i] != -99) want = want & (q[i] == fix[i]);
        }
        for (auto& r : ROW) {
            size_t at = g.find("\"" + S(r.name) + "\"", cs);
            vf_assert(cs != S::npos && at != S::npos && scalar(g, "is_enabled", at) == "true", "a constraint is missing in the instance");
            size_t end = g.find("\"is_enabled\"", at);
            end = g.find("\"is_enabled\"", end + 5);
            double a = 0, rhs = std::strtod(scalar(g, "rhs", at).c_str(), nullptr);
            for (size_t k = at; (k = g.find("\"variable\"", k + 1)) < end;)
                for (int i = 0; i < 6; i++) if (scalar(g, "variable", k) == "\"" + NM[i] + "\"") a += std::strtod(scalar(g, "coefficient", k).c_str(), nullptr) * q[i];
            S se = scalar(g, "sense", at);
            got = got & (se == "\"<=\"" ? a <= rhs : se == "\">=\"" ? a >= rhs : a == rhs);
        }
        vf_assert(want == got, "the exported instance has other solutions than the model");
        vf_assert(!want | got, "the exported instance excludes a solution");
        vf_reach("instance");
    }
}
extern "C" void vf_harness() {
    vf_opaque_text();
    vf_fix_time(1000);
    int sc = vf_scn(8);
    snprintf(dirname_, sizeof dirname_, "cli.%d", (int)getpid());
    mkdir(dirname_, 0700);
    if (chdir(dirname_)) vf_skip();
    bool cont = sc == 3;
    put("t.mps", mpstext(cont));
    int it = vf_concrete(vf_int("iterations", 0, 1)) ? 4 : 0;
    bool pre = vf_concrete(vf_int("presolve", 0, 1)), store = sc != 4;
    bool moves = it > 0 && sc > 0;
    S o = S("{\"general\": {\"iteration_max\": ") + (moves ? "4" : "0") + "}, \"output\": {\"verbose\": \"Off\", \"is_enabled_store_feasible_solutions\": " + (store ? "true" : "false") + "}, \"tabu_search\": {\"iteration_max\": 6}, \"local_search\": {\"is_enabled\": " + (moves ? "true" : "false") + "}, \"preprocess\": {\"is_enabled_presolve\": " + (pre ? "true" : "false") + "}, \"neighborhood\": {\"selection_mode\": \"" + (sc == 4 ? "UserDefined" : "Off") + "\", \"is_enabled_two_flip_move\": false}}";
    put("o.json", o);
    int form = vf_concrete(vf_int("form", 0, 4)), order = vf_concrete(vf_int("order", 0, 1));
    int fix[6] = {-99, -99, -99, -99, -99, -99};
    auto args = [&](std::vector<S> extra) {
        std::vector<S> a = {"-p", "o.json"};
        if (order == 0) { a.insert(a.end(), extra.begin(), extra.end()); a.push_back("t.mps"); }
        else { std::vector<S> b = {"t.mps"}; b.insert(b.end(), extra.begin(), extra.end()); b.insert(b.end(), a.begin(), a.end()); a = b; }
        return a;
    };
    if (sc == 0) {   // initial values are those of the file, out-of-bounds ones corrected
        int x = vf_concrete(vf_int("x", -1, 5)), y = vf_concrete(vf_int("y", 0, 3)), b = vf_concrete(vf_int("b", 0, 3));
        std::ostringstream f;
        f << "=obj= 1.5\n\nx\t" << number(x, form) << " junk\n  y   " << number(y, (form + 2) % 5) << "\nunknown 4\nsingle\nb3 7\nb3 " << (b == 3 ? 1 : 0) << "\n";
        if (b == 1) f << "b1 1\n";
        if (b == 2) f << "b2 1.0\n";
        put("i.txt", f.str());
        bool ok = run(args({"-i", "i.txt"}));
        vf_assert(ok, "usable files are rejected");
        if (ok && !pre) {
            auto v = section(slurp("incumbent.json"), "variables");
            vf_assert(v["x"] == std::min(3, std::max(0, x)) && v["y"] == y && v["z"] == 0, "an initial value of the file is not used");
            vf_assert(v["b1"] == (b == 1) && v["b2"] == (b == 2) && v["b3"] == (b == 3), "an initial value of the file is not used");
        }
        if (ok) results(fix, false, store);
        vf_reach("initial");
    } else if (sc == 1) {   // fixed values
        int k = vf_concrete(vf_int("which", 0, 5)), v = vf_concrete(vf_int("value", 0, UB[k])), inst = vf_concrete(vf_int("instance", 0, 1));
        fix[k] = v;
        put("f.txt", "\n" + NM[k] + " 9\nnothing 1\n" + NM[k] + " " + number(v, form) + "\n");
        bool ok = run(args(inst ? std::vector<S>{"-f", "f.txt", "--export-json-instance"} : std::vector<S>{"-f", "f.txt"}));
        vf_assert(ok, "usable files are rejected");
        if (ok) results(fix, inst, store);
        vf_reach("fixed");
    } else if (sc == 2) {   // only the listed variables change
        S f;
        for (int i = 0; i < 6; i++) { static const char* MN[6] = {"m0", "m1", "m2", "m3", "m4", "m5"}; if (vf_concrete(vf_int(MN[i], 0, 1))) f += (i % 2 ? " " : "") + NM[i] + (i % 3 ? "\n" : " 5\n"); else fix[i] = 0; }
        put("m.txt", f + "\nnobody\n");
        if (form > 0) { cleanup(); vf_skip(); }
        bool none = true;
        for (int i = 2; i < 5; i++) none = none && fix[i] == 0;
        bool ok = run(args({"-m", "m.txt", "--include-mps-loading-time"}));
        vf_assert(ok || (none && pre), "usable files are rejected");
        if (ok) results(fix, false, store);
        vf_reach("mutable");
    } else if (sc == 3) {
        bool acc = vf_concrete(vf_int("accept", 0, 1));
        if (form > 0) { cleanup(); vf_skip(); }
        bool ok = run(args(acc ? std::vector<S>{"--accept-continuous", "--export-json-instance"} : std::vector<S>{}));
        vf_assert(ok == acc, "continuous variables are accepted exactly if asked for");
        if (ok) { results(fix, true, store); vf_reach("continuous"); } else vf_reach("continuous rejected");
    } else if (sc == 4) {   // selection constraints named by the user
        put("s.txt", vf_concrete(vf_int("name", 0, 1)) ? "sel\n" : "other\n\n");
        if (form > 0) { cleanup(); vf_skip(); }
        bool ok = run(args({"-s", "s.txt"}));
        vf_assert(ok, "usable files are rejected");
        if (ok) results(fix, false, store);
        vf_reach("selection");
    } else if (sc == 5) {   // pairs
        put("x.txt", form == 0 ? "b1 b2\n" : form == 1 ? "b1 b2 junk\n\nb3\nb2 b3\n" : form == 2 ? "b1 nobody\n" : form == 3 ? "\tb3   b1\n" : "");
        bool ok = run(args({"-x", "x.txt"}));
        vf_assert(ok, "usable files are rejected");
        if (ok) results(fix, false, store);
        vf_reach("pairs");
    } else if (sc == 6) {
        if (form > 0) { cleanup(); vf_skip(); }
        put("f.txt", "x 1\n");
        put("m.txt", "x\n");
        vf_assert(!run(args({"-m", "m.txt", "-f", "f.txt"})), "-m and -f together are accepted");
        vf_reach("both rejected");
        vf_assert(!run(args({"-f", "none.txt"})) && !run(args({"-m", "none.txt"})) && !run(args({"-i", "none.txt"})) && !run(args({"-s", "none.txt"})) && !run(args({"-x", "none.txt"})), "a missing file is ignored");
        vf_reach("missing file");
    } else {   // pairs of binaries which share c rows or more
        int c = vf_concrete(vf_int("common", 1, 2));
        if (form > 0) { cleanup(); vf_skip(); }
        vf_assert(run(args({"--extract-flippable-variable-pairs", "-c", c == 1 ? "1" : "2"})), "usable files are rejected");
        bool ok;
        S t = slurp("flip.txt", &ok);
        vf_assert(ok && slurp("incumbent.json").empty(), "pairs are written instead of a solution");
        std::istringstream ss(t);
        S line;
        int n = 0;
        while (std::getline(ss, line)) {
            std::istringstream l(line);
            S a, b;
            l >> a >> b;
            vf_assert(a != b && a[0] == 'b' && b[0] == 'b' && a.size() == 2 && b.size() == 2, "a pair of variables");
            n++;
        }
        if (!pre) vf_assert(n == (c == 1 ? 3 : 0), "the number of pairs");
        vf_reach("extracted");
    }
    cleanup();
}
