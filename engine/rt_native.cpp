// Native counterpart of the runtime: replays one concrete input on the
// uninstrumented build. usage: prog FILE, one line per input vector.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <ctime>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include "vf.h"
static std::vector<long long> g_v; static size_t g_i; static bool g_verbose;
static std::map<int, double>* g_tok;
static double g_time;
extern "C" {
int vf_int(const char* name, int lo, int hi) { long long v = g_i < g_v.size() ? g_v[g_i] : (lo <= 0 && hi >= 0 ? 0 : lo); g_i++; if (v < lo || v > hi) { printf("INPUT-RANGE %s\n", name); _exit(9); } if (g_verbose) printf("  input %s = %lld\n", name, v); return (int)v; }
double vf_table(int i, const double* v, int n) { if (i < 0 || i >= n) _exit(9); return v[i]; }
void vf_assume(bool c) { if (!c) { if (g_verbose) printf("ASSUME-CUT\n"); fflush(stdout); _exit(3); } }
void vf_assert(bool c, const char* m) { if (!c) { if (g_verbose) printf("ASSERTION FAILED: %s\n", m); fflush(stdout); _exit(1); } }
void vf_reach(const char*) {}
void vf_num_token(int id, double v) { if (!g_tok) g_tok = new std::map<int, double>; (*g_tok)[id] = v; }
void vf_note(const char* k, double v) { if (g_verbose) printf("  note %s = %.17g\n", k, v); }
int vf_concrete(int v) { return v; }
int vf_known(void) { return getenv("VF_KNOWN") != nullptr; }
void vf_skip(void) { fflush(stdout); _exit(3); }
static double g_tick;
void vf_fix_time(double t) { g_time = t; }
void vf_tick(double dt) { g_tick = dt; }
double vf_time(void) { return g_time; }
void vf_opaque_text(void) {}
double __real_strtod(const char*, char**);
static bool token(const char* s, char** end, double* out) {
    while (*s == ' ') s++;
    const char* p = s; bool neg = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if (strncmp(p, "88", 2) != 0) return false;
    char* e; double v = __real_strtod(p, &e);
    if (e - p < 8 || v < 88000000 || v >= 88001000 || v != std::floor(v)) return false;
    int id = (int)v - 88000000;
    if (!g_tok || !g_tok->count(id)) return false;
    *out = neg ? -(*g_tok)[id] : (*g_tok)[id];
    if (end) *end = e;
    return true;
}
double __wrap_strtod(const char* s, char** e) { double v; if (token(s, e, &v)) return v; return __real_strtod(s, e); }
double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }
double __real___strtod_l(const char*, char**, void*);
double __wrap___strtod_l(const char* s, char** e, void* l) { double v; if (token(s, e, &v)) return v; return __real___strtod_l(s, e, l); }
clock_t clock(void) noexcept { g_time += g_tick; return (clock_t)(g_time * CLOCKS_PER_SEC); }
int clock_gettime(clockid_t, struct timespec* t) { g_time += g_tick; t->tv_sec = 1700000000 + (time_t)g_time; t->tv_nsec = (long)((g_time - std::floor(g_time)) * 1e9); return 0; }
time_t time(time_t* t) noexcept { time_t v = 1700000000; if (t) *t = v; return v; }
}
// each line: space separated values. prints one status per line: 0 ok, 1 assertion, 3 cut, else crash
int main(int argc, char** argv) {
    g_verbose = argc > 2 && !strcmp(argv[2], "-v");
    FILE* f = fopen(argv[1], "r");
    if (!f) return 9;
    vf_setup();
    std::string line; int c; int rc = 0;
    std::vector<std::string> lines;
    while ((c = fgetc(f)) != EOF) { if (c == '\n') { lines.push_back(line); line.clear(); } else line.push_back((char)c); }
    for (auto& l : lines) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            g_v.clear(); g_i = 0;
            const char* s = l.c_str(); char* e;
            while (true) { long long v = strtoll(s, &e, 10); if (e == s) break; g_v.push_back(v); s = e; }
            alarm(30);
            vf_harness();
            fflush(stdout);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        printf("RESULT %d\n", code);
        if (code) rc = 1;
    }
    return rc;
}
