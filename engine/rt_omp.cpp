// OpenMP for the checker: the members of a team run one after another, in the
// order the harness chose, and every access of theirs to memory that another
// member could touch is recorded (the compiler's -fsanitize=thread calls end up
// here). Two members accessing a location in the same phase, one of them
// writing, without a common lock, is a race. Without races every interleaving of
// the members gives the same result as this one. Used by both builds of a
// harness: -DSYM adds the shadow state of the symbolic build.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <unordered_map>
typedef long long i64;
extern "C" {
#ifdef SYM
void __s_pinmem(void*, i64);
void __s_clear(void*, i64);
extern void (*__s_malloc_hook)(void*, size_t);
#else
static void __s_pinmem(void*, i64) {}
static void __s_clear(void*, i64) {}
#endif
}
namespace {
int g_max = 1, g_order = 0, g_push = 0, g_team = 1, g_me = 0, g_lock = 0, g_races = 0, g_regions = 0, g_teams = 0, g_sizes = 0;
bool g_in = false, g_single = false, g_verbose = false, g_on = false;
long g_phase = 0, g_disp_lo, g_disp_hi, g_disp_st, g_disp_at;
bool g_busy = false;
char* g_frame = nullptr;
struct Cell { uint8_t w[8], r[8], wl[8], rl[8]; };   // members that wrote, read; the same while holding a lock
typedef std::unordered_map<uintptr_t, Cell> Map;
Map* g_map = nullptr;
thread_local bool t_program = false;   // the solver has threads of its own, which allocate memory
void access(uintptr_t a, size_t n, bool write, void* pc) {
    if (!g_in || g_team < 2 || g_busy) return;
    if (a < (uintptr_t)g_frame && a > (uintptr_t)g_frame - (64u << 20)) return;   // a member's own stack
    g_busy = true;
    uint8_t me = (uint8_t)(1 << (g_me & 7)), others = (uint8_t)~me;
    for (size_t i = 0; i < n; i++) {
        Cell& c = (*g_map)[((a + i) >> 3) ^ ((uintptr_t)g_phase << 50)];
        unsigned b = (a + i) & 7;
        uint8_t bad = write ? (c.w[b] | c.r[b]) : c.w[b];
        if (!g_lock) bad |= write ? (c.wl[b] | c.rl[b]) : c.wl[b];
        if (bad & others) {
            if (g_races++ == 0 && g_verbose) printf("  race: member %d %s %p, also used by another member (at %p)\n", g_me, write ? "writes" : "reads", (void*)(a + i), pc);
            break;
        }
        (g_lock ? (write ? c.wl[b] : c.rl[b]) : (write ? c.w[b] : c.r[b])) |= me;
    }
    g_busy = false;
}
void forget(void* p, size_t n) {
    if (!t_program || !g_in || g_busy || !g_map || !p) return;
    g_busy = true;
    for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n) >> 3; k++) g_map->erase(k ^ ((uintptr_t)g_phase << 50));
    g_busy = false;
}
}
extern "C" {
// harness API
void vf_team(int max_threads, int backwards) {
    g_max = max_threads; g_order = backwards; t_program = true;
#ifdef SYM
    __s_malloc_hook = forget;
#endif
    g_verbose = getenv("VF_RACE_VERBOSE") != nullptr;
}
int vf_team_sizes(void) { int s = g_sizes; g_sizes = 0; return s; }   // bit n: a team of n members since the last call
int vf_races(void) { return g_races; }
int vf_teams(void) { return g_teams; }     // regions that ran with two members or more

int omp_get_max_threads(void) { return g_max; }
int omp_get_num_procs(void) { return g_max; }
int omp_get_thread_num(void) { return g_in ? g_me : 0; }
int omp_get_num_threads(void) { return g_in ? g_team : 1; }
int omp_in_parallel(void) { return g_in && g_team > 1; }
void omp_set_num_threads(int n) { g_max = n; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)(t.tv_sec - 1700000000) + 1e-9 * (double)t.tv_nsec; }

int __kmpc_global_thread_num(void*) { return g_in ? g_me : 0; }
void __kmpc_push_num_threads(void*, int, int n) { g_push = n; }
int g_depth = 0;
void __kmpc_serialized_parallel(void*, int) { g_push = 0; }
void __kmpc_end_serialized_parallel(void*, int) {}
typedef void (*F0)(int*, int*);
static void invoke(void* f, int* t, int n, void** a) {
    switch (n) {
#define P(i) a[i]
        case 0: ((void (*)(int*, int*))f)(t, t); break;
        case 1: ((void (*)(int*, int*, void*))f)(t, t, P(0)); break;
        case 2: ((void (*)(int*, int*, void*, void*))f)(t, t, P(0), P(1)); break;
        case 3: ((void (*)(int*, int*, void*, void*, void*))f)(t, t, P(0), P(1), P(2)); break;
        case 4: ((void (*)(int*, int*, void*, void*, void*, void*))f)(t, t, P(0), P(1), P(2), P(3)); break;
        default: {
            void* b[24] = {0};
            if (n > 24) abort();
            memcpy(b, a, sizeof(void*) * n);
            ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(t, t, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17], b[18], b[19], b[20], b[21], b[22], b[23]);
        }
    }
}
void __kmpc_fork_call(void*, int n, void* f, ...) {
    void* a[64];
    va_list ap; va_start(ap, f);
    for (int i = 0; i < n && i < 64; i++) a[i] = va_arg(ap, void*);
    va_end(ap);
    int team = g_push > 0 ? g_push : g_max;
    g_push = 0;
    int id = 0;
    if (g_in) { invoke(f, &id, n, a); return; }   // nested regions get a team of one
    if (team > 8) team = 8;
    g_in = true; g_team = team; g_frame = (char*)__builtin_frame_address(0); g_single = false; g_regions++;
    if (team > 1) g_teams++;
    g_sizes |= 1 << team;
    Map map; g_map = &map;
    for (int k = 0; k < team; k++) {
        g_me = g_order ? team - 1 - k : k; g_phase = 0; g_lock = 0;
        int me = g_me;
        __s_clear(&me, sizeof me);
        invoke(f, &me, n, a);
    }
    g_in = false; g_team = 1; g_me = 0; g_map = nullptr;
}
#define STATIC_INIT(NAME, T)                                                                                        \
    void NAME(void*, int, int sched, int* last, T* lo, T* up, T* stride, T incr, T chunk) {                          \
        __s_pinmem(lo, sizeof *lo); __s_pinmem(up, sizeof *up);                                                        \
        __s_clear(lo, sizeof *lo); __s_clear(up, sizeof *up); __s_clear(last, sizeof *last); __s_clear(stride, sizeof *stride); \
        i64 team = g_in ? g_team : 1, me = g_in ? g_me : 0;                                                            \
        i64 L = (i64)*lo, U = (i64)*up, inc = (i64)incr;                                                               \
        i64 trip = inc > 0 ? (U - L) / inc + 1 : (L - U) / (-inc) + 1;                                                  \
        if (inc > 0 ? U < L : L < U) trip = 0;                                                                         \
        if (sched == 33 && chunk > 0) {   /* static with a chunk: the caller strides */                                  \
            *stride = (T)(chunk * inc * team); *lo = (T)(L + chunk * inc * me); *up = (T)(*lo + chunk * inc - inc);       \
            *last = trip > 0 && ((trip - 1) / (i64)chunk) % team == me; return;                                          \
        }                                                                                                             \
        i64 q = trip / team, r = trip % team;                                                                          \
        i64 a = me * q + (me < r ? me : r), c = q + (me < r ? 1 : 0);                                                   \
        *stride = (T)(trip ? trip : 1);                                                                                \
        if (c == 0) { *lo = (T)(U + inc); *up = (T)U; *last = 0; if (inc > 0 && U < L) { *lo = (T)(L + 1); *up = (T)L; } return; } \
        *lo = (T)(L + a * inc); *up = (T)(L + (a + c - 1) * inc); *last = a + c == trip;                                \
    }
STATIC_INIT(__kmpc_for_static_init_4, int)
STATIC_INIT(__kmpc_for_static_init_4u, unsigned)
STATIC_INIT(__kmpc_for_static_init_8, long long)
STATIC_INIT(__kmpc_for_static_init_8u, unsigned long long)
void __kmpc_for_static_fini(void*, int) {}
// dynamic and guided schedules: iterations are dealt out in turn
#define DISPATCH(S, T)                                                                                                \
    void __kmpc_dispatch_init_##S(void*, int, int, T lo, T up, T st, T) { g_disp_lo = (long)lo; g_disp_hi = (long)up; g_disp_st = (long)st; g_disp_at = (g_in ? g_me : 0); } \
    int __kmpc_dispatch_next_##S(void*, int, int* last, T* lo, T* up, T* st) {                                          \
        long n = (g_disp_hi - g_disp_lo) / g_disp_st + 1;                                                              \
        if (g_disp_st > 0 ? g_disp_hi < g_disp_lo : g_disp_lo < g_disp_hi) n = 0;                                       \
        if (g_disp_at >= n) return 0;                                                                                 \
        __s_clear(lo, sizeof *lo); __s_clear(up, sizeof *up); __s_clear(last, sizeof *last); __s_clear(st, sizeof *st);   \
        *lo = *up = (T)(g_disp_lo + g_disp_at * g_disp_st); *st = (T)g_disp_st; *last = g_disp_at == n - 1;               \
        g_disp_at += g_in ? g_team : 1;                                                                               \
        return 1;                                                                                                     \
    }                                                                                                                 \
    void __kmpc_dispatch_fini_##S(void*, int) {}
DISPATCH(4, int)
DISPATCH(4u, unsigned)
DISPATCH(8, long long)
DISPATCH(8u, unsigned long long)
int __kmpc_single(void*, int) { if (!g_in || g_team < 2) return 1; if (g_single) return 0; g_single = true; return 1; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return !g_in || g_me == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int f) { return !g_in || g_me == f; }
void __kmpc_end_masked(void*, int) {}
void __kmpc_barrier(void*, int) { g_phase++; }
void __kmpc_flush(void*) {}
void __kmpc_critical(void*, int, void*) { g_lock++; }
void __kmpc_critical_with_hint(void*, int, void*, unsigned) { g_lock++; }
void __kmpc_end_critical(void*, int, void*) { g_lock--; }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void*, void*) { g_lock++; return 1; }
void __kmpc_end_reduce_nowait(void*, int, void*) { g_lock--; }
int __kmpc_reduce(void*, int, int, size_t, void*, void*, void*) { g_lock++; return 1; }
void __kmpc_end_reduce(void*, int, void*) { g_lock--; g_phase++; }

void __tsan_init(void) {}
#define ACC(N)                                                                                         \
    void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, __builtin_return_address(0)); }          \
    void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, __builtin_return_address(0)); }          \
    void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, __builtin_return_address(0)); } \
    void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, __builtin_return_address(0)); } \
    void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, __builtin_return_address(0)); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, __builtin_return_address(0)); return memset(d, c, n); }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
#ifndef SYM
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
