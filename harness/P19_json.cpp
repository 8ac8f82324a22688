/*META
{"bounds": ["strings of up to 3 characters (4 in the thorough tier), each any printable character except the quotation mark and the backslash, as key and value in objects, nested objects and arrays; integers, floating point values (10 critical ones), booleans and null; empty and nested containers; written to text and parsed; tokens separated by any blanks"],
 "assumptions": ["strings contain no quotation marks, backslashes and control characters (the writer does not escape them)", "numbers are formatted by libstdc++ and parsed by the C library"],
 "reach": ["string","number","nested","special","spaces"]}
*/
#include "alltext.h"
#include "lib.h"
extern "C" void vf_setup() {}
using utility::json::JsonObject; using utility::json::JsonArray;
extern "C" void vf_harness() {
    int scn = vf_scn(3);
    if (scn == 0) {   // strings
        static const char* CN[4] = {"c0", "c1", "c2", "c3"};
        int n = vf_concrete(vf_int("length", 0, TQ(3, 4))), where = vf_concrete(vf_int("where", 0, 3));
        std::string s;
        int sp = 0;
        for (int i = 0; i < n; i++) {
            int c = vf_int(CN[i], 32, 126);
            vf_assume((c != '"') & (c != '\\'));
            sp |= (c == ',') | (c == ':') | (c == '{') | (c == ']') | (c == ' ');
            s += (char)c;
        }
        JsonObject o;
        if (where == 0) o.emplace_back("k", s);
        if (where == 1) { JsonArray a; a.emplace_back(1); a.emplace_back(s); o.emplace_back("k", a); }
        if (where == 2) { JsonObject q; q.emplace_back("q", s); o.emplace_back("k", q); }
        if (where == 3) o.emplace_back("p" + s, 5);
        o.emplace_back("z", 7);
        std::ostringstream os;
        os << o;
        std::string text = os.str();
        std::string flat;
        for (char c : text) if (c != '\n') flat += c;
        JsonObject r = utility::json::parse_json_object(flat);
        vf_assert(r.body.size() == 2 && r.get<int>("z") == 7, "the value after a string");
        std::string t;
        if (where == 0) t = r.get<std::string>("k");
        if (where == 1) { auto a = r.get<JsonArray>("k"); vf_assert(a.body.size() == 2 && a.get<int>(0) == 1, "array around a string"); t = a.get<std::string>(1); }
        if (where == 2) t = r.get<JsonObject>("k").get<std::string>("q");
        if (where == 3) { t = r.body[0].first.substr(1); vf_assert(r.body[0].first[0] == 'p', "key"); }
        vf_assert(t.size() == s.size(), "length of a string");
        int eq = 1;
        for (size_t i = 0; i < t.size() && i < s.size(); i++) eq &= t[i] == s[i];
        vf_assert(eq, "a string is read back differently");
        vf_reach("string");
        if (sp) vf_reach("special");
        return;
    }
    if (scn == 1) {   // numbers, booleans, null
        static const double D[10] = {0, 1, -2.5, 0.1, 1234567.25, 1e-9, -9007199254740993.0, 1e300, 3.0000000000000004, -1e-300};
        double d = D[vf_concrete(vf_int("d", 0, 9))];
        int k = vf_concrete(vf_int("i", -3, 3)) * 700000000 / 2, b = vf_concrete(vf_int("b", 0, 1));
        JsonObject o;
        o.emplace_back("d", d); o.emplace_back("i", k); o.emplace_back("b", b != 0); o.emplace_back("n", nullptr); o.emplace_back("l", (long)k); o.emplace_back("u", (unsigned long long)7); o.emplace_back("f", (float)0.5);
        JsonArray a;
        a.emplace_back(d); a.emplace_back(k); a.emplace_back(b != 0); a.emplace_back(nullptr); a.emplace_back((long long)k); a.emplace_back((unsigned long long)8); a.emplace_back((short)3);
        o.emplace_back("a", a);
        std::ostringstream os;
        os << o;
        std::string flat;
        for (char c : os.str()) if (c != '\n') flat += c;
        JsonObject r = utility::json::parse_json_object(flat);
        vf_assert(r.get<double>("d") == d, "a floating point value is read back differently");
        vf_assert(r.get<int>("i") == k && r.get<int>("l") == k && r.get<int>("u") == 7, "an integer is read back differently");
        vf_assert(r.get<bool>("b") == (b != 0), "a boolean is read back differently");
        vf_assert(r.get<double>("f") == 0.5, "a float is read back differently");
        (void)r.get<std::nullptr_t>("n");
        auto q = r.get<JsonArray>("a");
        vf_assert(q.body.size() == 7, "number of elements of an array");
        vf_assert(q.get<double>(0) == d && q.get<int>(1) == k && q.get<bool>(2) == (b != 0) && q.get<int>(4) == k && q.get<int>(5) == 8 && q.get<int>(6) == 3, "an element of an array is read back differently");
        (void)q.get<std::nullptr_t>(3);
        vf_reach("number");
        return;
    }
    // nesting with any blanks between the tokens
    static const char* W[4] = {"w0", "w1", "w2", "w3"};
    static const char* T[] = {"{", "\"a\"", ":", "[", "1", ",", "[", "]", ",", "{", "\"b c\"", ":", "{", "}", ",", "\"d\"", ":", "-2", "}", ",", "true", "]", ",", "\"e\"", ":", "{", "\"f\"", ":", "0.5", "}", "}"};
    std::string t;
    int z = vf_concrete(vf_int("place", 0, 7)), i = 0;
    for (auto s : T) {
        t += s;
        if (s[0] == ',') t += ' ';
        if (i++ / 4 == z) { int c = vf_int(W[i % 4], 0, 2); static const double B[3] = {' ', '\t', '\r'}; t += (char)(int)vf_table(c, B, 3); }
    }
    JsonObject r = utility::json::parse_json_object(t);
    vf_reach("spaces");
    auto a = r.get<JsonArray>("a");
    vf_assert(r.body.size() == 2 && a.body.size() == 4, "number of elements");
    vf_assert(a.get<int>(0) == 1 && a.get<JsonArray>(1).body.empty() && a.get<bool>(3) == true, "elements of an array");
    auto b = a.get<JsonObject>(2);
    vf_assert(b.body.size() == 2 && b.get<JsonObject>("b c").body.empty() && b.get<int>("d") == -2, "nested object");
    vf_assert(r.get<JsonObject>("e").get<double>("f") == 0.5, "nested number");
    vf_assert(r.find("a") && !r.find("b"), "find");
    vf_reach("nested");
}
