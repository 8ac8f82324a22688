// Harness API (same source is compiled symbolically and natively for replay).
#pragma once
#include <cstdint>
extern "C" {
int    vf_int(const char* name, int lo, int hi);              // any value in [lo,hi]
double vf_table(int idx, const double* vals, int n);          // vals[idx], idx symbolic
void   vf_assume(bool c);
void   vf_assert(bool c, const char* msg);
void   vf_reach(const char* label);
void   vf_num_token(int id, double v);                        // text number 88000000+id parses as v
void   vf_note(const char* key, double v);                    // printed on replay
int    vf_concrete(int v);                                    // fork over the value, return it concrete
int    vf_known(void);                                        // 1 only when a listed known finding is replayed: the harness then asserts without its exemption
void   vf_skip(void);                                         // path not of interest (counted separately)
void   vf_fix_time(double t);   // what the clocks show from now on
void   vf_tick(double dt);        // each further reading of a clock advances them by dt
double vf_time(void);
void   vf_opaque_text(void);                                  // printed text decides nothing (messages, labels): formatting a number does not enumerate it
// harnesses with "omp" in their META (threads; rt_omp.cpp)
void   vf_team(int max_threads, int backwards);               // size of the teams that do not ask for one; order in which members run
int    vf_races(void);                                        // conflicting accesses seen so far
int    vf_team_sizes(void);                                   // bit n: a team of n members since the last call
int    vf_teams(void);                                        // parallel regions run so far by two members or more
}
// supplied by each harness
extern "C" void vf_setup(void);
extern "C" void vf_harness(void);
static inline bool vf_bool(const char* n) { return vf_int(n, 0, 1) != 0; }
