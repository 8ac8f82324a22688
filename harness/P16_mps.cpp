/*META
{"bounds": ["MPS files with 3 columns (integer or continuous), an objective and 2 rows of every sense, coefficients from concrete tables (zero, negative and fractional ones, one or two entries per line), any right-hand sides (also of the objective) and ranges in [-3,3] in halves (of one row, or of both on one line), 15 combinations of bound records (UP LO UI LI FX BV MI PL FR, none, 1e30) with any values in [-4,4] in halves, sections in standard order, comments and blank lines; every integer point in [-6,6]^3 as adversary"],
 "assumptions": ["the numbers in the file are parsed by strtod/atof of the C library", "MI without a later UP record, negative UP without a lower bound and fractional FX are left out: readers of MPS files differ"],
 "reach": ["L","G","E","range","two ranges","objective constant","fixed","free","default integer","continuous","accepted","rejected","unlimited","empty bounds"]}
*/
#include "text.h"
#include "lib.h"
#include <unistd.h>
extern "C" void vf_setup() {}
static std::string num(int id, double v) { vf_num_token(id, v); return std::to_string(88000000 + id); }
#undef to_string
extern "C" void vf_harness() {
    vf_opaque_text();
    static const char* SN[3] = {"L", "E", "G"};
    static const double C[4][3][3] = {{{1, 2, -1}, {1, 1, 1}, {2, -3, 0}}, {{-1, 0, 0.5}, {0, 1, -1}, {1, 0, 4}}, {{0, 0, 1}, {3, 0, 0}, {0, -1, 2.5}}, {{1, -1, 0}, {-2, 1, 1}, {1, 1, 1}}};
    int pat = vf_concrete(vf_int("pattern", 0, 3)), s0 = vf_concrete(vf_int("sense", 0, 2)), bk = vf_concrete(vf_int("bound", 0, 14)), rg = vf_concrete(vf_int("ranges", 0, 3));
    int s1 = (s0 + pat + bk) % 3, integer = TQ((bk + pat + s0) % 2, vf_concrete(vf_int("integer", 0, 1)));
    double rhs0 = vf_half("rhs0", 6), rhs1 = vf_half("rhs1", 6), oc = vf_half("objrhs", 6), r = vf_half("range", 6), b0 = vf_half("b0", 8), b1 = vf_half("b1", 8);
    std::string t = "* a comment\nNAME test\nROWS\n N obj\n " + std::string(SN[s0]) + " r0\n " + SN[s1] + " r1\nCOLUMNS\n";
    static const char* V[3] = {"a", "b", "c"}; static const char* RW[3] = {"obj", "r0", "r1"}; static const char* TX[9] = {"-3", "-2", "-1", "0", "1", "2", "3", "4", "5"};
    auto cf = [&](double v) { return v == 0.5 ? std::string("0.5") : v == 2.5 ? std::string("2.5e0") : std::string(TX[(int)v + 3]); };
    if (integer) t += " M1 'MARKER' 'INTORG'\n";
    for (int j = 0; j < 3; j++) {
        if (integer && j == 2 && pat == 1) t += " M2 'MARKER' 'INTEND'\n";
        if (pat % 2) for (int i = 0; i < 3; i++) { if (C[pat][i][j] != 0 || i == 0) t += std::string(" ") + V[j] + " " + RW[i] + " " + cf(C[pat][i][j]) + "\n"; }
        else t += std::string(" ") + V[j] + " obj " + cf(C[pat][0][j]) + " r0 " + cf(C[pat][1][j]) + "\n " + V[j] + " r1 " + cf(C[pat][2][j]) + "\n";
    }
    if (integer && pat != 1) t += " M2 'MARKER' 'INTEND'\n";
    bool inta = integer, intc = integer && pat != 1;
    t += "RHS\n rhs r0 " + num(1, rhs0) + " r1 " + num(2, rhs1) + "\n";
    if (pat != 2) t += " rhs obj " + num(3, oc) + "\n"; else oc = 0;
    double rr[2] = {r, r};
    if (rg == 3) { rr[0] = pat % 2 ? -1.5 : 1.5; t += std::string("RANGES\n rng r0 ") + (pat % 2 ? "-1.5" : "1.5") + " r1 " + num(4, r) + "\n"; vf_reach("two ranges"); }
    else if (rg) t += std::string("RANGES\n rng ") + (rg == 1 ? "r0 " : "r1 ") + num(4, r) + "\n";
    t += "\nBOUNDS\n";
    // bounds of a; b and c keep fixed ones unless stated
    double lo[3] = {0, 0, 0}, hi[3] = {1e9, 1e9, 1e9};
    auto rec = [&](const char* k, const char* v, std::string n) { t += std::string(" ") + k + " bnd " + v + (n.empty() ? "" : " " + n) + "\n"; };
    switch (bk) {
        case 0: if (inta) { hi[0] = 1; vf_reach("default integer"); } else vf_reach("continuous"); break;
        case 1: vf_assume(b1 >= 0); rec("UP", "a", num(6, b1)); hi[0] = b1; break;
        case 2: rec("LO", "a", num(5, b0)); rec("UP", "a", num(6, b1)); lo[0] = b0; hi[0] = b1; break;
        case 3: rec("LO", "a", num(5, b0)); lo[0] = b0; break;
        case 4: { int k = vf_int("fx", -4, 4); rec("FX", "a", num(5, k)); lo[0] = hi[0] = k; vf_reach("fixed"); break; }
        case 5: rec("BV", "a", ""); hi[0] = 1; break;
        case 6: rec("MI", "a", ""); rec("UP", "a", num(6, b1)); lo[0] = -1e9; hi[0] = b1; break;
        case 7: rec("PL", "a", ""); break;
        case 8: rec("FR", "a", ""); lo[0] = -1e9; vf_reach("free"); break;
        case 9: rec("LO", "a", num(5, b0)); rec("PL", "a", ""); lo[0] = b0; break;
        case 10: rec("LI", "a", num(5, b0)); rec("UI", "a", num(6, b1)); lo[0] = b0; hi[0] = b1; break;
        case 11: rec("UP", "a", num(6, b1)); rec("LO", "a", num(5, b0)); lo[0] = b0; hi[0] = b1; break;
        case 12: rec("LO", "a", "-1e30"); rec("UP", "a", "1e30"); lo[0] = -1e9; vf_reach("unlimited"); break;
        case 13: rec("UP", "a", "1e30"); vf_reach("unlimited"); break;
        case 14: rec("LO", "a", "-3000000000"); rec("UP", "a", num(6, b1)); lo[0] = -1e9; hi[0] = b1; break;
    }
    rec("LO", "b", "-5"); rec("UP", "b", "5"); lo[1] = -5; hi[1] = 5;
    if (bk % 2) { rec("FR", "c", ""); lo[2] = -1e9; } else if (intc) hi[2] = 1;
    t += "ENDATA\n";
    std::string fn = "f" + std::to_string(getpid()) + ".mps";
    FILE* f = fopen(fn.c_str(), "w"); fputs(t.c_str(), f); fclose(f);
    IPModel m("m");
    struct Rm { std::string n; ~Rm() { unlink(n.c_str()); } } rm{fn};
    mps::MPS mp(fn);
    vf_assert(mp.number_of_variables == 3 && mp.variables.size() == 3, "number of variables");
    if (lo[0] > hi[0]) vf_reach("empty bounds");
    bool thrown = false;
    try { m.import_mps(mp, true); } catch (std::logic_error&) { thrown = true; }
    if (thrown) { int k = 0; for (int v = -6; v <= 6; v++) k |= (lo[0] <= v) & (v <= hi[0]); vf_assert(!k, "a file with integer values within the bounds is rejected"); return; }
    static const char* PN[3] = {"p0", "p1", "p2"};
    std::vector<int> p(3);
    std::unordered_map<const IPVar*, int> at;
    auto& vs = m.variable_proxies()[0];
    vf_assert(vs.number_of_elements() == 3, "number of variables of the model");
    for (int j = 0; j < 3; j++) {
        p[j] = vf_int(PN[j], -6, 6);
        vf_assert(vs.flat_indexed_variables(j).name() == V[j], "the name of a variable");
        at[&vs.flat_indexed_variables(j)] = p[j];
    }
    RefModel R; R.n = 3;
    R.rows.push_back({{C[pat][1][0], C[pat][1][1], C[pat][1][2]}, -rhs0, s0});
    R.rows.push_back({{C[pat][2][0], C[pat][2][1], C[pat][2][2]}, -rhs1, s1});
    int ok = 1;
    for (int j = 0; j < 3; j++) ok &= (lo[j] <= p[j]) & (p[j] <= hi[j]);
    for (int i = 0; i < 2; i++) {
        double v = R.row(i, p); int s = R.rows[i].s;
        vf_reach(SN[s]);
        if (rg == i + 1 || rg == 3) {
            double r = rr[i];
            vf_reach("range");
            double w = r < 0 ? -r : r;
            double l = s == 0 ? -w : s == 2 ? 0 : r < 0 ? -w : 0, u = s == 0 ? 0 : s == 2 ? w : r < 0 ? 0 : w;
            ok &= (l <= v) & (v <= u);
        } else ok &= vf_rel(v, s);
    }
    int acc = vf_sat_model(m, at);
    vf_assert(!acc | ok, "the model accepts a point the file excludes");
    vf_assert(!ok | acc, "the model excludes a point the file allows");
    if (ok) vf_reach("accepted"); else vf_reach("rejected");
    vf_assert(m.is_minimization(), "sense of the objective");
    double ob = -oc;
    for (int j = 0; j < 3; j++) ob += C[pat][0][j] * p[j];
    if (pat != 2) vf_reach("objective constant");
    vf_assert(vf_eval_at(m.objective().expression().sensitivities(), m.objective().expression().constant_value(), at) == ob, "the objective of the model");
}
