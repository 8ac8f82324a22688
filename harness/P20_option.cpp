/*META
{"bounds": ["each of the 130 options given alone or together with another one in an option file: integers of up to 3 digits and sign, floating point numbers (4 digits, with point, exponent or as integer), booleans, modes by name and by number; blanks and order; options of a section left out, sections left out", "every option set to a value of its own, written to JSON and read back", "one option changed to any value of its kind, the others at their defaults"],
 "assumptions": ["numbers are formatted by libstdc++ and parsed by the C library"],
 "reach": ["integer","number","boolean","mode name","mode number","pair","round trip","absent"]}
*/
#include "alltext.h"
#include "lib.h"
#include <fstream>
#include <cstring>
#include <unistd.h>
extern "C" void vf_setup() {}
using option::Option;
#define B(s, n) F(s, n)
#define I(s, n) F(s, n)
#define D(s, n) F(s, n)
#define E(s, n, ns, t) F(s, n)
enum {
#define F(s, n) ID_##s##_##n,
#include "options.inc"
#undef F
    COUNT };
static const char* SEC[] = {
#define F(s, n) #s,
#include "options.inc"
#undef F
};
static const char* NAME[] = {
#define F(s, n) #n,
#include "options.inc"
#undef F
};
#undef B
#undef I
#undef D
#undef E
static const char KIND[] = {
#define B(s, n) 'b',
#define I(s, n) 'i',
#define D(s, n) 'd',
#define E(s, n, ns, t) 'e',
#include "options.inc"
#undef B
#undef I
#undef D
#undef E
};
static double get(const Option& o, int id) {
    switch (id) {
#define B(s, n) F(s, n)
#define I(s, n) F(s, n)
#define D(s, n) F(s, n)
#define E(s, n, ns, t) F(s, n)
#define F(s, n) case ID_##s##_##n: return o.s.n;
#include "options.inc"
#undef F
#undef B
#undef I
#undef D
#undef E
    }
    return 0;
}
static void put(Option& o, int id, double v) {
    switch (id) {
#define B(s, n) case ID_##s##_##n: o.s.n = (long)v % 2 != 0; break;
#define I(s, n) case ID_##s##_##n: o.s.n = v; break;
#define D(s, n) case ID_##s##_##n: o.s.n = v; break;
#define E(s, n, ns, t) case ID_##s##_##n: o.s.n = (option::ns::t)((long)v % option::ns::t##InverseMap.size()); break;
#include "options.inc"
#undef B
#undef I
#undef D
#undef E
    }
}
static std::string modename(int id, int v, bool& ok) {
    switch (id) {
#define B(s, n)
#define I(s, n)
#define D(s, n)
#define E(s, n, ns, t) case ID_##s##_##n: { auto it = option::ns::t##InverseMap.find((option::ns::t)v); ok = it != option::ns::t##InverseMap.end(); return ok ? it->second : ""; }
#include "options.inc"
#undef B
#undef I
#undef D
#undef E
    }
    ok = false;
    return "";
}
static std::string modetext(int id, int v) {   // the names as documented, not as tabulated in the code
    static const char *SM[] = {"Off", "Defined", "Smaller", "Larger", "Independent", "UserDefined"}, *VB[] = {"Off", "Warning", "Outer", "Inner", "Full", "Debug"}, *IS[] = {"Off", "Soft", "Aggressive", "Intensive", "Automatic"}, *RM[] = {"Simple", "Smart"}, *TM[] = {"All", "Any"}, *CM[] = {"OverlapRate", "Shuffle"};
    std::string n = NAME[id];
    if (n == "selection_mode") return v < 6 ? SM[v] : "";
    if (n == "verbose") return v < 6 ? VB[v] : "";
    if (n == "improvability_screening_mode") return v < 5 ? IS[v] : "";
    if (n == "restart_mode") return v < 2 ? RM[v] : "";
    if (n == "tabu_mode") return v < 2 ? TM[v] : "";
    return v < 2 ? CM[v] : "";
}
static std::string num(int id, const char* const* N, double& v, int file) {   // any value of the option's kind as text
    std::string t;
    v = 0;
    if (KIND[id] == 'b') { int b = vf_concrete(vf_int(N[0], 0, 1)); v = b; vf_reach("boolean"); return b ? "true" : "false"; }
    if (KIND[id] == 'e') {
        int k = vf_concrete(vf_int(N[0], 0, 5)), as = vf_concrete(vf_int(N[1], 0, 1));
        t = modetext(id, k);
        if (t.empty()) vf_skip();
        v = k;
        vf_reach(as ? "mode name" : "mode number");
        return as ? "\"" + t + "\"" : std::string(1, (char)('0' + k));
    }
    int d0 = vf_int(N[0], 1, 9), d1 = vf_int(N[1], 0, 9);
    if (file) { d0 = vf_concrete(1 + d0 % 2); d1 = vf_concrete(d1 % 2 ? 5 : 0); }   // files hold concrete text only
    int form = vf_concrete(vf_int(N[2], 0, KIND[id] == 'd' ? 4 : 2));
    if (KIND[id] == 'i') {
        vf_reach("integer");
        if (form == 0) { t += (char)('0' + d0); t += (char)('0' + d1); t += '7'; v = 100 * d0 + 10 * d1 + 7; }
        if (form == 1) { t += '-'; t += (char)('0' + d0); t += (char)('0' + d1); v = -10 * d0 - d1; }
        if (form == 2) { t += (char)('0' + d1); v = d1; }
        return t;
    }
    // the digits of floating point numbers are concrete (the C library parses them)
    vf_reach("number");
    d0 = vf_concrete(1 + d0 % 3); d1 = vf_concrete(d1 % 2 ? 5 : 0);
    std::string a(1, (char)('0' + d0)), b(1, (char)('0' + d1));
    if (form == 0) { t = a + "." + b + "25"; v = d0 + d1 * 0.1 + 0.025; }
    if (form == 1) { t = "-" + a + "." + b; v = -(d0 + d1 * 0.1); }
    if (form == 2) { t = a + b; v = 10 * d0 + d1; }
    if (form == 3) { t = a + "." + b + "e-3"; }
    if (form == 4) { t = "-" + a + "E+2"; v = -100.0 * d0; }
    v = std::stod(t);
    return t;
}
extern "C" void vf_harness() {
    int sc = vf_scn(3);
    Option def;
    char fn[64];
    snprintf(fn, sizeof fn, "opt.%d.json", (int)getpid());
    static const char *N0[3] = {"a0", "a1", "a2"}, *N1[3] = {"b0", "b1", "b2"};
    if (sc < 2) {
        int id = vf_concrete(vf_int("option", 0, COUNT - 1)), other = -1;
        double v = 0, w = 0;
        std::string t = num(id, N0, v, sc), u;
        if (sc == 1) {   // two options at once, in the same or in another section
            int step = vf_concrete(vf_int("step", 0, 2));
            other = step == 0 ? (id + 1) % COUNT : step == 1 ? (id + 17) % COUNT : (id + 60) % COUNT;
            if (KIND[other] == 'd') { u = "0.25"; w = 0.25; } else if (KIND[other] == 'b') { w = !get(def, other); u = w ? "true" : "false"; } else if (KIND[other] == 'e') { w = 1; u = "1"; } else { w = 4; u = "4"; }
            vf_reach("pair");
        }
        std::ostringstream f;
        f << "{\n";
        if (other < 0) f << "  \"" << SEC[id] << "\" : { \"" << NAME[id] << "\" :" << t << " }\n";
        else if (!strcmp(SEC[id], SEC[other])) f << "\"" << SEC[id] << "\": {\"" << NAME[other] << "\": " << u << ",\n    \"" << NAME[id] << "\": " << t << "}";
        else f << "\"" << SEC[other] << "\": {\"" << NAME[other] << "\": " << u << "},\n  \"unknown\": {},  \"" << SEC[id] << "\": {\"" << NAME[id] << "\": " << t << "}";
        f << "\n}\n";
        Option o;
        bool thrown = false;
        if (sc == 0) {   // from text
            std::string flat;
            for (char c : f.str()) if (c != '\n') flat += c;
            try {
                auto j = utility::json::parse_json_object(flat);
                vf_assert(j.body.size() == 1 && j.body[0].first == SEC[id], "the section of an option");
                auto q = j.get<utility::json::JsonObject>(SEC[id]);
#define SECTION(n, T) if (!strcmp(SEC[id], #n)) o.n = option::T(q);
                SECTION(general, GeneralOption) SECTION(penalty, PenaltyOption) SECTION(parallel, ParallelOption) SECTION(preprocess, PreprocessOption) SECTION(restart, RestartOption) SECTION(neighborhood, NeighborhoodOption)
                SECTION(output, OutputOption) SECTION(pdlp, PDLPOption) SECTION(lagrange_dual, LagrangeDualOption) SECTION(local_search, LocalSearchOption) SECTION(tabu_search, TabuSearchOption)
            } catch (...) { thrown = true; }
        } else {
            std::ofstream w2(fn);
            w2 << f.str();
            w2.close();
            try { o = Option(fn); } catch (...) { thrown = true; }
            unlink(fn);
        }
        vf_assert(!thrown, "an option file is rejected");
        if (thrown) return;
        for (int i = 0; i < COUNT; i++) {
            if (i == id) vf_assert(get(o, i) == v || (i == ID_parallel_number_of_threads_move_update && !vf_known() && get(o, i) == get(def, i)) /* known finding */, "an option is not read as given");
            else if (i == other) vf_assert(get(o, i) == w || (i == ID_parallel_number_of_threads_move_update && !vf_known() && get(o, i) == get(def, i)) /* known finding */, "the other option is not read as given");
            else { vf_assert(get(o, i) == get(def, i), "an option that is not given is changed"); vf_reach("absent"); }
        }
        return;
    }
    // written and read back
    int base = vf_concrete(vf_int("base", 0, TQ(11, 59))), all = vf_concrete(vf_int("all", 0, 1));
    Option o;
    for (int i = 0; i < COUNT; i++) if (all || i % 12 == base) {
        double v = 3 + (i * 7 + base * 5) % 90;
        if (KIND[i] == 'd') v = (i + base) % 3 == 0 ? v : (i + base) % 3 == 1 ? v / 8 : -v * 1.1e-7;
        if (KIND[i] == 'i' && (i + base) % 5 == 0) v = -v;
        if (KIND[i] == 'b' || KIND[i] == 'e') v = (i + base) % 6;
        put(o, i, v);
    }
    utility::json::write_json_object(o.to_json(), fn);
    Option r;
    bool thrown = false;
    try { r = Option(fn); } catch (...) { thrown = true; }
    unlink(fn);
    vf_assert(!thrown, "a written option file is rejected");
    if (thrown) return;
    for (int i = 0; i < COUNT; i++) {
        vf_assert(get(r, i) == get(o, i) || (i == ID_parallel_number_of_threads_move_update && !vf_known() && get(r, i) == get(def, i)) /* known finding */, "an option differs after writing and reading");
        if (KIND[i] == 'e') { bool ok; std::string n = modename(i, (int)get(o, i), ok); vf_assert(ok && n == modetext(i, (int)get(o, i)), "the name of a mode"); }
    }
    vf_reach("round trip");
}
