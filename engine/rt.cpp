// Runtime of the solver-based checker: symbolic expressions next to the
// natively executing program, path exploration, and the z3 queries.
#include <z3.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"
typedef __int128 i128;
typedef int64_t i64;

// ------------------------------------------------------------------ nodes
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, ITE, WRAP, SDIV, SREM, UDIV, UREM, BAND, BOR, BXOR, SHL, LSHR, ASHR, EXTR, CONCAT, UEXT, TABI,
                    BCONST, LT, LE, EQ, ULT, AND, OR, NOT, BITE, INSET, BEQ, BIT0,
                    DEXACT, DEXACTD, DTAB };
enum Sort : uint8_t { SI, SB, SD };
struct Tab { std::vector<i64> iv; std::vector<double> dv; std::vector<std::pair<i64, i64>> set; };
struct Node {
    Op op; Sort sort; uint8_t w; uint8_t leafc; uint8_t pinned;   // w: llvm width for SI; leafc: ITE tree with const leaves
    i64 lo, hi;
    Node *a, *b, *c;
    i64 k;          // const value / scale / shift
    double d;       // delta for DEXACTD
    Tab* tab;
    struct Poly* poly; uint8_t polyTried;
    i64 cv; double cd;   // concrete value under the current input
    Z3_ast z; int zw;
    Z3_ast l; uint8_t lTried;   // integer-arithmetic translation, when there is one
    uint32_t id;
};
static const i64 IMIN = INT64_MIN, IMAX = INT64_MAX;
static const int TABLIM = 4096, TABLIM2 = 65536;

struct Key { Op op; uint8_t w; uint32_t a, b, c; i64 k; bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct KeyH { size_t operator()(const Key& x) const { size_t h = x.op * 1315423911u + x.w; auto m = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); }; m(x.a); m(x.b); m(x.c); m(x.k); return h; } };
static std::unordered_map<Key, Node*, KeyH>* g_cons;
static uint32_t g_nid = 1;
static char* g_pool; static size_t g_poolLeft;
static uint64_t st_nodes;
static Node* alloc() {
    if (g_poolLeft < sizeof(Node)) { g_poolLeft = 1 << 20; g_pool = (char*)malloc(g_poolLeft); }
    Node* n = (Node*)g_pool; g_pool += sizeof(Node); g_poolLeft -= sizeof(Node);
    memset(n, 0, sizeof(Node)); n->id = g_nid++; st_nodes++;
    return n;
}
static inline uint32_t nid(Node* n) { return n ? n->id : 0; }
static i64 smin(int w) { return w >= 64 ? IMIN : -((i64)1 << (w - 1)); }
static i64 smax(int w) { return w >= 64 ? IMAX : ((i64)1 << (w - 1)) - 1; }
static i64 wrapv(i128 v, int w) {
    uint64_t u = (uint64_t)v;
    if (w >= 64) return (i64)u;
    u &= (1ULL << w) - 1;
    if (u >> (w - 1)) u |= ~((1ULL << w) - 1);
    return (i64)u;
}
static Node* mk(Op op, Sort s, int w, Node* a, Node* b, Node* c, i64 k, i64 lo, i64 hi, i64 cv, Tab* t = nullptr) {
    Key key{op, (uint8_t)w, nid(a), nid(b), nid(c), k};
    if (!t) { auto it = g_cons->find(key); if (it != g_cons->end()) return it->second; }
    Node* n = alloc();
    n->op = op; n->sort = s; n->w = w; n->a = a; n->b = b; n->c = c; n->k = k; n->lo = lo; n->hi = hi; n->cv = cv; n->tab = t;
    if (!t) (*g_cons)[key] = n;
    return n;
}
static Node* kI(i64 v, int w = 64) { Node* n = mk(CONST, SI, 64, 0, 0, 0, v, v, v, v); n->leafc = 1; return n; }
static Node* kB(bool v) { return mk(BCONST, SB, 1, 0, 0, 0, v, v, v, v); }
static inline bool isC(Node* n) { return n->op == CONST; }
static inline bool isBC(Node* n) { return n->op == BCONST; }

static void die(const char* f, ...) { va_list ap; va_start(ap, f); fprintf(stderr, "ENGINE: "); vfprintf(stderr, f, ap); fprintf(stderr, "\n"); _exit(70); }

// booleans
static Node* bNot(Node* a) {
    if (isBC(a)) return kB(!a->k);
    if (a->op == NOT) return a->a;
    return mk(NOT, SB, 1, a, 0, 0, 0, 0, 1, !a->cv);
}
static Node* bAnd(Node* a, Node* b) {
    if (isBC(a)) return a->k ? b : a;
    if (isBC(b)) return b->k ? a : b;
    if (a == b) return a;
    if ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a)) return kB(false);
    if (a->id > b->id) std::swap(a, b);
    return mk(AND, SB, 1, a, b, 0, 0, 0, 1, a->cv && b->cv);
}
static Node* bOr(Node* a, Node* b) {
    if (isBC(a)) return a->k ? a : b;
    if (isBC(b)) return b->k ? b : a;
    if (a == b) return a;
    if ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a)) return kB(true);
    if (a->id > b->id) std::swap(a, b);
    return mk(OR, SB, 1, a, b, 0, 0, 0, 1, a->cv || b->cv);
}
static Node* bIte(Node* c, Node* a, Node* b) {
    if (isBC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (isBC(a)) return a->k ? bOr(c, b) : bAnd(bNot(c), b);
    if (isBC(b)) return b->k ? bOr(bNot(c), a) : bAnd(c, a);
    return mk(BITE, SB, 1, c, a, b, 0, 0, 1, c->cv ? a->cv : b->cv);
}
static Node* bEq(Node* a, Node* b) {
    if (isBC(a)) return a->k ? b : bNot(b);
    if (isBC(b)) return b->k ? a : bNot(a);
    if (a == b) return kB(true);
    return mk(BEQ, SB, 1, a, b, 0, 0, 0, 1, a->cv == b->cv);
}
// INSET(base, intervals of values)
static Node* bInset(Node* base, std::vector<std::pair<i64, i64>> iv) {
    if (iv.empty()) return kB(false);
    if (iv.size() == 1 && iv[0].first <= base->lo && iv[0].second >= base->hi) return kB(true);
    bool cv = false;
    for (auto& p : iv) if (base->cv >= p.first && base->cv <= p.second) cv = true;
    // single intervals become comparisons
    Tab* t = new Tab; t->set = std::move(iv);
    // hash-cons by scanning a small cache
    static std::map<std::pair<uint32_t, std::vector<std::pair<i64, i64>>>, Node*>* cache = nullptr;
    if (!cache) cache = new std::map<std::pair<uint32_t, std::vector<std::pair<i64, i64>>>, Node*>;
    auto key = std::make_pair(base->id, t->set);
    auto it = cache->find(key);
    if (it != cache->end()) { delete t; return it->second; }
    Node* n = mk(INSET, SB, 1, base, 0, 0, 0, 0, 1, cv, t);
    (*cache)[key] = n;
    return n;
}
// ints
static bool fits(i128 lo, i128 hi) { return lo >= -((i128)1 << 62) && hi <= ((i128)1 << 62); }
static Node* iWrapRes(Op op, Node* a, Node* b, int w, i128 lo, i128 hi, i128 cv) {
    // result of arithmetic op at llvm width w
    if (lo >= smin(w) && hi <= smax(w)) return mk(op, SI, 0, a, b, 0, 0, (i64)lo, (i64)hi, (i64)cv);
    return mk(op, SI, w, a, b, 0, 0, smin(w), smax(w), wrapv(cv, w));   // w != 0: modular
}
static Node* iAdd(Node* a, Node* b, int w) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return kI(wrapv((i128)a->k + b->k, w));
        if (b->k == 0) return a;
        if (a->op == ADD && a->w == 0 && isC(a->b)) {
            i128 s = (i128)a->b->k + b->k;
            if (s >= smin(w) && s <= smax(w)) return iAdd(a->a, kI((i64)s), w);
        }
    } else if (a->id > b->id) std::swap(a, b);
    return iWrapRes(ADD, a, b, w, (i128)a->lo + b->lo, (i128)a->hi + b->hi, (i128)a->cv + b->cv);
}
static Node* iSub(Node* a, Node* b, int w) {
    if (isC(b) && b->k != IMIN) return iAdd(a, kI(-b->k), w);
    if (a == b) return kI(0);
    if (isC(a) && isC(b)) return kI(wrapv((i128)a->k - b->k, w));
    return iWrapRes(SUB, a, b, w, (i128)a->lo - b->hi, (i128)a->hi - b->lo, (i128)a->cv - b->cv);
}
static Node* iMul(Node* a, Node* b, int w) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return kI(wrapv((i128)a->k * b->k, w));
        if (b->k == 0) return b;
        if (b->k == 1) return a;
    } else if (a->id > b->id) std::swap(a, b);
    i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
    i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
    if (a == b && lo < 0) lo = 0;
    return iWrapRes(MUL, a, b, w, lo, hi, (i128)a->cv * b->cv);
}
static Node* iIte(Node* c, Node* a, Node* b) {
    if (isBC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == NOT) return iIte(c->a, b, a);
    Node* n = mk(ITE, SI, 0, c, a, b, 0, std::min(a->lo, b->lo), std::max(a->hi, b->hi), c->cv ? a->cv : b->cv);
    n->leafc = a->leafc && b->leafc;
    return n;
}
static Node* bLT(Node* a, Node* b);
static Node* bLE(Node* a, Node* b);
static int leafsz(Node* n, int lim) { if (lim <= 0) return 100000; if (n->op == CONST) return 1; int s = leafsz(n->b, lim - 1); if (s > lim) return s; return s + leafsz(n->c, lim - s); }
static Node* leafMap(Node* t, int kind, Node* other, bool swap) {
    if (t->op == CONST) {
        Node *x = swap ? other : t, *y = swap ? t : other;
        if (kind == 0) return kB(x->k < y->k);
        if (kind == 1) return kB(x->k <= y->k);
        return kB(x->k == y->k);
    }
    return bIte(t->a, leafMap(t->b, kind, other, swap), leafMap(t->c, kind, other, swap));
}
template <class P> static std::vector<std::pair<i64, i64>> runs(i64 lo, size_t n, P p) {
    std::vector<std::pair<i64, i64>> r;
    for (size_t i = 0; i < n; i++) if (p(i)) { if (!r.empty() && r.back().second == lo + (i64)i - 1) r.back().second++; else r.push_back({lo + (i64)i, lo + (i64)i}); }
    return r;
}
// polynomials over non-arithmetic terms: canonical form of + - * so that algebraic identities need no solver
struct Poly { std::vector<std::pair<std::vector<Node*>, i64>> t; i64 c = 0; };   // terms sorted by monomial (node ids)
static bool monLess(const std::vector<Node*>& a, const std::vector<Node*>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    for (size_t i = 0; i < a.size(); i++) if (a[i]->id != b[i]->id) return a[i]->id < b[i]->id;
    return false;
}
static const i128 PLIM = (i128)1 << 60;
static const size_t PMAX = 160;
static bool polyAdd(const Poly& a, const Poly& b, int sg, Poly* r) {
    i128 c = (i128)a.c + sg * (i128)b.c; if (c > PLIM || c < -PLIM) return false; r->c = (i64)c;
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && monLess(a.t[i].first, b.t[j].first))) r->t.push_back(a.t[i++]);
        else if (i == a.t.size() || monLess(b.t[j].first, a.t[i].first)) { r->t.push_back({b.t[j].first, sg * b.t[j].second}); j++; }
        else { i128 k = (i128)a.t[i].second + sg * (i128)b.t[j].second; if (k > PLIM || k < -PLIM) return false; if (k) r->t.push_back({a.t[i].first, (i64)k}); i++; j++; }
    }
    return r->t.size() <= PMAX;
}
static bool polyMul(const Poly& a, const Poly& b, Poly* r) {
    if ((a.t.size() + 1) * (b.t.size() + 1) > 4 * PMAX) return false;
    std::map<std::vector<Node*>, i128, bool (*)(const std::vector<Node*>&, const std::vector<Node*>&)> m(monLess);
    auto put = [&](const std::vector<Node*>& x, const std::vector<Node*>& y, i128 k) -> bool {
        std::vector<Node*> z = x; z.insert(z.end(), y.begin(), y.end());
        if (z.size() > 6 || k > PLIM || k < -PLIM) return false;
        std::sort(z.begin(), z.end(), [](Node* p, Node* q) { return p->id < q->id; });
        i128& v = m[z]; v += k; return v <= PLIM && v >= -PLIM;
    };
    static const std::vector<Node*> one;
    for (size_t i = 0; i <= a.t.size(); i++) for (size_t j = 0; j <= b.t.size(); j++) {
        i128 ka = i < a.t.size() ? a.t[i].second : a.c, kb = j < b.t.size() ? b.t[j].second : b.c;
        if (!ka || !kb) continue;
        if (!put(i < a.t.size() ? a.t[i].first : one, j < b.t.size() ? b.t[j].first : one, ka * kb)) return false;
    }
    for (auto& kv : m) { if (!kv.second) continue; if (kv.first.empty()) r->c = (i64)kv.second; else r->t.push_back({kv.first, (i64)kv.second}); }
    return r->t.size() <= PMAX;
}
static Poly* polyOf(Node* n) {
    if (n->polyTried) return n->poly;
    n->polyTried = 1;
    Poly* r = new Poly; bool ok = true;
    if (n->op == CONST) { if (n->k > (i64)PLIM || n->k < -(i64)PLIM) ok = false; r->c = n->k; }
    else if ((n->op == ADD || n->op == SUB || n->op == MUL) && n->w == 0) {
        Poly *a = polyOf(n->a), *b = polyOf(n->b);
        ok = a && b && (n->op == MUL ? polyMul(*a, *b, r) : polyAdd(*a, *b, n->op == ADD ? 1 : -1, r));
    } else r->t.push_back({{n}, 1});
    if (!ok) { delete r; r = nullptr; }
    n->poly = r;
    return r;
}
static Node* iAdd(Node* a, Node* b, int w);
static Node* iMul(Node* a, Node* b, int w);
// sum of the terms with the given sign (absolute coefficients)
static Node* polyPart(const Poly& p, int sg, bool* ok) {
    Node* s = nullptr;
    for (auto& t : p.t) {
        if ((t.second > 0) != (sg > 0)) continue;
        Node* m = nullptr;
        for (Node* v : t.first) m = m ? iMul(m, v, 64) : v;
        if (m->w && m->op == MUL) *ok = false;
        m = iMul(m, kI(t.second > 0 ? t.second : -t.second), 64);
        if (m->w && m->op == MUL) *ok = false;
        s = s ? iAdd(s, m, 64) : m;
        if (s->w && s->op == ADD) *ok = false;
    }
    return s;
}
static bool g_inPoly = false;
static Node* bCmp(int kind, Node* a, Node* b) {   // 0 lt 1 le 2 eq
    if (kind == 0) { if (a->hi < b->lo) return kB(true); if (a->lo >= b->hi) return kB(false); }
    if (kind == 1) { if (a->hi <= b->lo) return kB(true); if (a->lo > b->hi) return kB(false); }
    if (kind == 2) { if (a->hi < b->lo || b->hi < a->lo) return kB(false); if (a == b) return kB(true); if (a->lo == a->hi && b->lo == b->hi) return kB(a->lo == b->lo); }
    if (a == b) return kB(kind == 1);
    if (isC(b) && a->op == ITE && a->leafc && leafsz(a, 16) <= 16) return leafMap(a, kind, b, false);
    if (isC(a) && b->op == ITE && b->leafc && leafsz(b, 16) <= 16) return leafMap(b, kind, a, true);
    // shift constants: x + c  cmp  k
    if (isC(b) && a->op == ADD && a->w == 0 && isC(a->b)) { i128 k = (i128)b->k - a->b->k; if (k >= IMIN && k <= IMAX) return bCmp(kind, a->a, kI((i64)k)); }
    if (isC(a) && b->op == ADD && b->w == 0 && isC(b->b)) { i128 k = (i128)a->k - b->b->k; if (k >= IMIN && k <= IMAX) return bCmp(kind, kI((i64)k), b->a); }
    auto arith = [](Node* n) { return n->op == ADD || n->op == SUB || n->op == MUL; };
    if ((arith(a) || arith(b)) && !g_inPoly) {
        Poly *pa = polyOf(a), *pb = polyOf(b);
        if (pa && pb) {
            Poly d;
            if (polyAdd(*pa, *pb, -1, &d)) {
                if (d.t.empty()) return kB(kind == 0 ? d.c < 0 : kind == 1 ? d.c <= 0 : d.c == 0);
                i64 g = 0; for (auto& t : d.t) { i64 x = t.second < 0 ? -t.second : t.second; while (x) { i64 y = g % x; g = x; x = y; } }
                if (g > 1) {   // divide by the common factor; the constant is rounded towards the side that keeps the relation
                    for (auto& t : d.t) t.second /= g;
                    // sum*g + c  rel 0   <=>  sum rel -c/g
                    if (kind == 2) { if (d.c % g) return kB(false); d.c /= g; }
                    else { i64 k = -d.c; i64 f = k / g; if (k % g && k < 0) f--; i64 c = k % g ? f + 1 : f; d.c = kind == 0 ? -c : -f; }   // sum < k/g <=> sum < ceil ; sum <= k/g <=> sum <= floor
                }
                size_t na = pa->t.size() + pb->t.size();
                if (g > 1 || d.t.size() < na) {
                    bool ok = true;
                    Node *l = polyPart(d, 1, &ok), *r = polyPart(d, -1, &ok);
                    if (!l) l = kI(0);
                    if (!r) r = kI(0);
                    Node *L = l, *R = r;
                    if (d.c > 0) L = iAdd(l, kI(d.c), 64); else if (d.c < 0) R = iAdd(r, kI(-d.c), 64);
                    if (ok && !(L->op == ADD && L->w) && !(R->op == ADD && R->w)) { g_inPoly = true; Node* x = bCmp(kind, L, R); g_inPoly = false; return x; }
                }
            }
        }
    }
    if (isC(b) && a->op == TABI) { i64 k = b->k; auto& v = a->tab->iv; return bInset(a->a, runs(a->a->lo, v.size(), [&](size_t i) { return kind == 0 ? v[i] < k : kind == 1 ? v[i] <= k : v[i] == k; })); }
    if (isC(a) && b->op == TABI) { i64 k = a->k; auto& v = b->tab->iv; return bInset(b->a, runs(b->a->lo, v.size(), [&](size_t i) { return kind == 0 ? k < v[i] : kind == 1 ? k <= v[i] : v[i] == k; })); }
    if (kind == 2) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); return mk(EQ, SB, 1, a, b, 0, 0, 0, 1, a->cv == b->cv); }
    if (kind == 1) return bNot(bCmp(0, b, a));
    // canonical: const on the right as x < k
    if (isC(a)) return bNot(bCmp(0, b, kI(a->k + 1)));
    return mk(LT, SB, 1, a, b, 0, 0, 0, 1, a->cv < b->cv);
}
static Node* bLT(Node* a, Node* b) { return bCmp(0, a, b); }
static Node* bLE(Node* a, Node* b) { return bCmp(1, a, b); }
static Node* iEQ(Node* a, Node* b) { return bCmp(2, a, b); }
static Node* iTab(Node* base, std::vector<i64> v) {
    i64 lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
    if (lo == hi) return kI(lo);
    bool lin = true;
    i64 d = v.size() > 1 ? v[1] - v[0] : 0;
    for (size_t i = 1; i < v.size() && lin; i++) if (v[i] - v[i - 1] != d) lin = false;
    if (lin && fits((i128)base->lo * d, (i128)base->hi * d)) return iAdd(iMul(base, kI(d), 64), kI(v[0] - base->lo * d), 64);
    Tab* t = new Tab; t->iv = std::move(v);
    return mk(TABI, SI, 0, base, 0, 0, 0, lo, hi, t->iv[base->cv - base->lo], t);
}
static Node* asInt(Node* n) {   // BOOL node used as i1 int value: 1 -> -1 (signed i1)
    if (n->sort == SB) return iIte(n, kI(-1), kI(0));
    return n;
}
// doubles
static bool dyadic(double v, i64* k, int* s) {
    if (!std::isfinite(v)) return false;
    int sc = 0;
    double x = v;
    while (x != std::floor(x) && sc < 24) { x *= 2; sc++; }
    if (x != std::floor(x) || std::fabs(x) > 9007199254740992.0) return false;
    *k = (i64)x; *s = sc;
    return true;
}
static double scaled(i64 v, int s) { return std::ldexp((double)v, -s); }
static const i64 EXL = (i64)1 << 53;
static Node* dExact(Node* a, int s) {
    if (isC(a)) s = s;  // keep
    Node* n = mk(DEXACT, SD, 64, a, 0, 0, s, 0, 0, 0);
    n->cd = scaled(a->cv, s);
    return n;
}
static Node* dExactD(Node* a, int s, double delta) {
    i64 k; memcpy(&k, &delta, 8);
    Node* n = mk(DEXACTD, SD, (uint8_t)s, a, 0, 0, k, 0, 0, 0);
    n->d = delta; n->cd = scaled(a->cv, s) + delta;
    return n;
}
static int scaleOf(Node* n) { return n->op == DEXACT ? (int)n->k : (int)n->w; }
static Node* dConst(double v) {   // may return null when not dyadic
    i64 k; int s;
    if (!dyadic(v, &k, &s)) return nullptr;
    return dExact(kI(k), s);
}
struct TV { Node* base; std::vector<double> v; };   // value = v[base - base->lo]
static bool tabView(Node* n, TV* t, int lim) {
    if (n->op == DTAB) { t->base = n->a; t->v = n->tab->dv; return (int)t->v.size() <= lim; }
    Node* a = n->a;
    int s = scaleOf(n);
    // push through int tables so that bases stay small
    if (a->op == TABI && (i128)a->hi - a->lo > (i64)a->tab->iv.size()) {
        t->base = a->a; t->v.clear();
        for (i64 x : a->tab->iv) t->v.push_back(scaled(x, s) + (n->op == DEXACTD ? n->d : 0.0));
        return (int)t->v.size() <= lim;
    }
    i128 sz = (i128)a->hi - a->lo + 1;
    if (sz > lim) return false;
    t->base = a; t->v.clear();
    for (i64 x = a->lo; x <= a->hi; x++) t->v.push_back(scaled(x, s) + (n->op == DEXACTD ? n->d : 0.0));
    return true;
}
static Node* dFromTab(Node* base, std::vector<double> v) {
    // all dyadic with small scale -> exact
    bool all = true; int ms = 0;
    std::vector<i64> ks(v.size()); std::vector<int> ss(v.size());
    for (size_t i = 0; i < v.size() && all; i++) { all = dyadic(v[i], &ks[i], &ss[i]); if (all) ms = std::max(ms, ss[i]); }
    if (all && ms <= 12) {
        for (size_t i = 0; i < v.size() && all; i++) { i128 x = (i128)ks[i] << (ms - ss[i]); if (x > EXL || x < -EXL) all = false; else ks[i] = (i64)x; }
        if (all) return dExact(iTab(base, ks), ms);
    }
    double c0 = v[0]; bool same = true;
    for (double x : v) if (x != c0) same = false;
    Tab* t = new Tab; t->dv = std::move(v);
    if (same) { base = kI(0); t->dv.resize(1); }
    Node* n = mk(DTAB, SD, 64, base, 0, 0, 0, 0, 0, 0, t);
    n->cd = t->dv[base->cv - base->lo];
    return n;
}

// ------------------------------------------------------------------ z3
static Z3_context Z; static Z3_solver Zs, Zl;   // Zs: bit vectors, Zl: linear integer arithmetic
static uint64_t st_queries, st_sat, st_unsat, st_unknown; static double st_solver;
static unsigned g_qtimeout = 20000;
static double now() { struct timespec t; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int bitsFor(i64 lo, i64 hi) { int w = 1; while (w < 64 && (lo < smin(w) || hi > smax(w))) w++; return w; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zBV(i64 v, int w) { return keep(Z3_mk_int64(Z, v, Z3_mk_bv_sort(Z, w))); }
static Z3_ast zext_to(Z3_ast a, int from, int to) {   // sign extend or truncate
    if (from == to) return a;
    if (from < to) return keep(Z3_mk_sign_ext(Z, to - from, a));
    return keep(Z3_mk_extract(Z, to - 1, 0, a));
}
static Z3_ast tz(Node* n);
static Z3_ast tzw(Node* n, int w) {
    if (n->op == CONST) return zBV(n->k, w);
    Z3_ast a = tz(n);
    return zext_to(a, n->zw, w);
}
static Z3_ast zAnd2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_and(Z, 2, x)); }
static Z3_ast zOr2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_or(Z, 2, x)); }
static Z3_ast tz(Node* n) {
    if (n->z) return n->z;
    Z3_ast r = nullptr; int w = 0;
    switch (n->op) {
        case CONST: w = bitsFor(n->lo, n->hi); r = zBV(n->k, w); break;
        case VAR: die("untranslated var"); break;
        case ADD: case SUB: case MUL: {
            if (n->w) w = n->w;
            else { w = bitsFor(n->lo, n->hi); }
            // arithmetic modulo 2^w is exact because the result fits in w bits
            Z3_ast a = tzw(n->a, w), b = tzw(n->b, w);
            r = n->op == ADD ? Z3_mk_bvadd(Z, a, b) : n->op == SUB ? Z3_mk_bvsub(Z, a, b) : Z3_mk_bvmul(Z, a, b);
            break;
        }
        case ITE: {
            w = bitsFor(n->lo, n->hi);
            Z3_ast c = tz(n->a), a = tzw(n->b, w), b = tzw(n->c, w);
            r = Z3_mk_ite(Z, c, a, b);
            break;
        }
        case WRAP: { w = n->w; r = tzw(n->a, w); break; }
        case SDIV: case SREM: case UDIV: case UREM: case BAND: case BOR: case BXOR: case SHL: case LSHR: case ASHR: {
            w = n->w;
            Z3_ast a = tzw(n->a, w), b = tzw(n->b, w);
            switch (n->op) {
                case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
                case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
                case UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
                case UREM: r = Z3_mk_bvurem(Z, a, b); break;
                case BAND: r = Z3_mk_bvand(Z, a, b); break;
                case BOR: r = Z3_mk_bvor(Z, a, b); break;
                case BXOR: r = Z3_mk_bvxor(Z, a, b); break;
                case SHL: r = Z3_mk_bvshl(Z, a, b); break;
                case LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
                default: r = Z3_mk_bvashr(Z, a, b); break;
            }
            break;
        }
        case EXTR: {   // bits [k, k+w) of a (a taken at width >= k+w, sign extended)
            w = n->w;
            int need = (int)n->k + w;
            Z3_ast a = tzw(n->a, std::max(need, 1));
            r = Z3_mk_extract(Z, need - 1, (unsigned)n->k, a);
            break;
        }
        case CONCAT: {   // a: high part, b: low part with n->k low bits
            int lw = (int)n->k; w = n->w;
            Z3_ast a = tzw(n->a, w - lw), b = tzw(n->b, lw);
            r = Z3_mk_concat(Z, a, b);
            break;
        }
        case UEXT: {   // unsigned value of the low n->k bits
            w = (int)n->k + 1;
            Z3_ast a = tzw(n->a, (int)n->k);
            r = Z3_mk_zero_ext(Z, 1, a);
            break;
        }
        case TABI: {
            w = bitsFor(n->lo, n->hi);
            auto& v = n->tab->iv;
            // run-length if-then-else chain, balanced by binary search on base
            std::vector<std::pair<i64, i64>> rl;   // (last base value, table value)
            for (size_t i = 0; i < v.size(); i++) { if (!rl.empty() && rl.back().second == v[i]) rl.back().first = n->a->lo + (i64)i; else rl.push_back({n->a->lo + (i64)i, v[i]}); }
            int bw = bitsFor(n->a->lo, n->a->hi);
            Z3_ast base = tzw(n->a, bw);
            std::vector<Z3_ast> cur;
            struct R { static Z3_ast go(const std::vector<std::pair<i64, i64>>& rl, size_t lo, size_t hi, Z3_ast base, int bw, int w) {
                if (lo == hi) return zBV(rl[lo].second, w);
                size_t mid = (lo + hi) / 2;
                Z3_ast c = keep(Z3_mk_bvsle(Z, base, zBV(rl[mid].first, bw)));
                return keep(Z3_mk_ite(Z, c, go(rl, lo, mid, base, bw, w), go(rl, mid + 1, hi, base, bw, w)));
            } };
            r = R::go(rl, 0, rl.size() - 1, base, bw, w);
            break;
        }
        case BCONST: r = n->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
        case LT: case EQ: {
            int x = std::max(bitsFor(n->a->lo, n->a->hi), bitsFor(n->b->lo, n->b->hi));
            Z3_ast a = tzw(n->a, x), b = tzw(n->b, x);
            r = n->op == LT ? Z3_mk_bvslt(Z, a, b) : Z3_mk_eq(Z, a, b);
            break;
        }
        case ULT: { int x = (int)n->k; r = Z3_mk_bvult(Z, tzw(n->a, x), tzw(n->b, x)); break; }
        case AND: r = zAnd2(tz(n->a), tz(n->b)); break;
        case OR: r = zOr2(tz(n->a), tz(n->b)); break;
        case NOT: r = Z3_mk_not(Z, tz(n->a)); break;
        case BEQ: r = Z3_mk_iff(Z, tz(n->a), tz(n->b)); break;
        case BITE: r = Z3_mk_ite(Z, tz(n->a), tz(n->b), tz(n->c)); break;
        case BIT0: r = Z3_mk_eq(Z, keep(Z3_mk_extract(Z, 0, 0, tz(n->a))), zBV(1 - 2, 1)); break;
        case INSET: {
            int bw = bitsFor(n->a->lo, n->a->hi);
            Z3_ast base = tzw(n->a, bw);
            r = Z3_mk_false(Z); keep(r);
            for (auto& p : n->tab->set) {
                Z3_ast c;
                if (p.first == p.second) c = keep(Z3_mk_eq(Z, base, zBV(p.first, bw)));
                else {
                    bool lo = p.first > n->a->lo, hi = p.second < n->a->hi;
                    Z3_ast cl = lo ? keep(Z3_mk_bvsge(Z, base, zBV(p.first, bw))) : nullptr, ch = hi ? keep(Z3_mk_bvsle(Z, base, zBV(p.second, bw))) : nullptr;
                    c = cl && ch ? zAnd2(cl, ch) : cl ? cl : ch ? ch : keep(Z3_mk_true(Z));
                }
                r = zOr2(r, c);
            }
            break;
        }
        default: die("translate op %d", n->op);
    }
    n->z = keep(r); n->zw = w;
    return n->z;
}

// translation to linear integer arithmetic; null when the term is not linear
static Z3_ast zInt(i64 v) { return keep(Z3_mk_int64(Z, v, Z3_mk_int_sort(Z))); }
static Z3_ast tl(Node* n);
static Z3_ast tl0(Node* n) {
    switch (n->op) {
        case CONST: return zInt(n->k);
        case VAR: return n->l;
        case ADD: case SUB: {
            if (n->w) return nullptr;
            Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr;
            if (!b) return nullptr;
            Z3_ast x[2] = {a, b};
            return n->op == ADD ? Z3_mk_add(Z, 2, x) : Z3_mk_sub(Z, 2, x);
        }
        case MUL: {
            if (n->w || (!isC(n->a) && !isC(n->b))) return nullptr;
            Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr;
            if (!b) return nullptr;
            Z3_ast x[2] = {a, b};
            return Z3_mk_mul(Z, 2, x);
        }
        case ITE: case BITE: {
            Z3_ast c = tl(n->a), a = c ? tl(n->b) : nullptr, b = a ? tl(n->c) : nullptr;
            return b ? Z3_mk_ite(Z, c, a, b) : nullptr;
        }
        case TABI: {
            Z3_ast base = tl(n->a);
            if (!base || n->tab->iv.size() > 256) return nullptr;
            auto& v = n->tab->iv;
            std::vector<std::pair<i64, i64>> rl;
            for (size_t i = 0; i < v.size(); i++) { if (!rl.empty() && rl.back().second == v[i]) rl.back().first = n->a->lo + (i64)i; else rl.push_back({n->a->lo + (i64)i, v[i]}); }
            struct R { static Z3_ast go(const std::vector<std::pair<i64, i64>>& rl, size_t lo, size_t hi, Z3_ast base) {
                if (lo == hi) return zInt(rl[lo].second);
                size_t mid = (lo + hi) / 2;
                Z3_ast c = keep(Z3_mk_le(Z, base, zInt(rl[mid].first)));
                return keep(Z3_mk_ite(Z, c, go(rl, lo, mid, base), go(rl, mid + 1, hi, base)));
            } };
            return R::go(rl, 0, rl.size() - 1, base);
        }
        case BCONST: return n->k ? Z3_mk_true(Z) : Z3_mk_false(Z);
        case LT: case EQ: {
            Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr;
            if (!b) return nullptr;
            return n->op == LT ? Z3_mk_lt(Z, a, b) : Z3_mk_eq(Z, a, b);
        }
        case AND: { Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr; return b ? zAnd2(a, b) : nullptr; }
        case OR: { Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr; return b ? zOr2(a, b) : nullptr; }
        case NOT: { Z3_ast a = tl(n->a); return a ? Z3_mk_not(Z, a) : nullptr; }
        case BEQ: { Z3_ast a = tl(n->a), b = a ? tl(n->b) : nullptr; return b ? Z3_mk_iff(Z, a, b) : nullptr; }
        case INSET: {
            Z3_ast base = tl(n->a);
            if (!base || n->tab->set.size() > 64) return nullptr;
            Z3_ast r = keep(Z3_mk_false(Z));
            for (auto& p : n->tab->set) r = zOr2(r, zAnd2(keep(Z3_mk_ge(Z, base, zInt(p.first))), keep(Z3_mk_le(Z, base, zInt(p.second)))));
            return r;
        }
        default: return nullptr;
    }
}
static Z3_ast tl(Node* n) {
    if (n->lTried) return n->l;
    Z3_ast r = tl0(n);
    n->lTried = 1;
    n->l = r ? keep(r) : nullptr;
    return n->l;
}

// ------------------------------------------------------------------ run state
struct Input { std::string name; int lo, hi; i64 val; Node* node; };
static std::vector<Input>* g_in;
static std::vector<i64>* g_given;
static size_t g_depth; static uint64_t g_expectHash, g_hash = 1469598103934665603ULL;
static size_t g_nrec; static size_t g_asserted;
// path constraints: kind 0 boolean n is v, 1 n == v, 2 range of an input, 3 n != v
struct PCI { int kind; Node* n; i64 v; };
static std::vector<PCI>* g_pc;
static size_t g_assertedL; static bool g_nonlin; static uint64_t st_lia;
static std::unordered_map<uint32_t, bool>* g_known;
static int g_out = -1;                     // pipe to master
static bool g_active = false;              // inside vf_harness in a worker
static bool g_hashChecked = false;
static uint64_t st_asserts, st_assertq, st_pins, st_branches;
static std::set<std::string>* g_reach; static std::set<std::string>* g_assertmsgs;
static std::map<std::string, uint64_t>* g_pinwhy;
extern "C" { void* __s_args[64]; void* __s_tag; void* __s_ret[16]; uint8_t __s_fnflags[65536]; extern const char* const __s_fnnames[]; extern const int __s_nfn; }
static void* zeroArgs[64];

static void wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(g_out, c, n); if (k < 0) { if (errno == EINTR) continue; _exit(71); } c += k; n -= k; } }
static void wrs(const std::string& s) { uint32_t n = s.size(); wr(&n, 4); wr(s.data(), n); }
static void send(char type, const std::string& payload) { wr(&type, 1); wrs(payload); }
static std::string ser(const std::vector<i64>& v, size_t depth, uint64_t h) { std::string s; s.append((char*)&depth, 8); s.append((char*)&h, 8); s.append((char*)v.data(), v.size() * 8); return s; }

static void assertPC(PCI a) { g_pc->push_back(a); }
static Z3_ast bvOf(const PCI& p) {
    Z3_ast z = tz(p.n);
    switch (p.kind) {
        case 0: return p.v ? z : keep(Z3_mk_not(Z, z));
        case 1: return keep(Z3_mk_eq(Z, z, zBV(p.v, p.n->zw)));
        case 3: return keep(Z3_mk_not(Z, keep(Z3_mk_eq(Z, z, zBV(p.v, p.n->zw)))));
        default: {
            Z3_ast r = keep(Z3_mk_true(Z));
            if (p.n->lo != smin(p.n->zw)) r = zAnd2(r, keep(Z3_mk_bvsge(Z, z, zBV(p.n->lo, p.n->zw))));
            if (p.n->hi != smax(p.n->zw)) r = zAnd2(r, keep(Z3_mk_bvsle(Z, z, zBV(p.n->hi, p.n->zw))));
            return r;
        }
    }
}
static Z3_ast liaOf(const PCI& p) {
    Z3_ast z = tl(p.n);
    if (!z) return nullptr;
    switch (p.kind) {
        case 0: return p.v ? z : keep(Z3_mk_not(Z, z));
        case 1: return keep(Z3_mk_eq(Z, z, zInt(p.v)));
        case 3: return keep(Z3_mk_not(Z, keep(Z3_mk_eq(Z, z, zInt(p.v)))));
        default: return zAnd2(keep(Z3_mk_ge(Z, z, zInt(p.n->lo))), keep(Z3_mk_le(Z, z, zInt(p.n->hi))));
    }
}
static void flushPC() { while (g_asserted < g_pc->size()) Z3_solver_assert(Z, Zs, bvOf((*g_pc)[g_asserted++])); }
static void flushL() { while (g_assertedL < g_pc->size()) { Z3_ast l = liaOf((*g_pc)[g_assertedL++]); if (l) Z3_solver_assert(Z, Zl, l); else g_nonlin = true; } }
static void fetch(Z3_solver S, bool lia, std::vector<i64>* model, Node* val, i64* vout) {
    Z3_model m = Z3_solver_get_model(Z, S);
    Z3_model_inc_ref(Z, m);
    model->clear();
    auto ev = [&](Node* n) -> i64 {
        Z3_ast out;
        if (!Z3_model_eval(Z, m, lia ? n->l : n->z, true, &out)) die("model eval");
        Z3_inc_ref(Z, out);
        if (lia) { int64_t v = 0; if (!Z3_get_numeral_int64(Z, out, &v)) die("model numeral"); return v; }
        uint64_t u = 0;
        if (!Z3_get_numeral_uint64(Z, out, &u)) die("model numeral");
        return wrapv((i128)u, n->zw);
    };
    for (auto& in : *g_in) model->push_back(isC(in.node) ? in.val : ev(in.node));
    if (val) *vout = ev(val);
    Z3_model_dec_ref(Z, m);
}
// satisfiability of the path constraints and extra: 1 sat (model filled in), 0 unsat, -1 unknown.
// Linear integer arithmetic first: its unsat is final because it asserts a subset
// of the constraints, its sat only when it asserts all of them.
static int query(const std::vector<PCI>& extra, std::vector<i64>* model, Node* val = nullptr, i64* vout = nullptr) {
    double t = now();
    st_queries++;
    int res = -2;
    std::vector<Z3_ast> le;
    bool part = false;
    for (auto& p : extra) { Z3_ast l = liaOf(p); if (l) le.push_back(l); else part = true; }
    if (!part || !le.empty()) {
        flushL();
        Z3_solver_push(Z, Zl);
        for (auto l : le) Z3_solver_assert(Z, Zl, l);
        Z3_lbool r = Z3_solver_check(Z, Zl);
        if (r == Z3_L_FALSE) { res = 0; st_lia++; }
        else if (r == Z3_L_TRUE && !part && !g_nonlin) { res = 1; st_lia++; fetch(Zl, true, model, val, vout); }
        Z3_solver_pop(Z, Zl, 1);
    }
    if (res == -2) {
        flushPC();
        Z3_solver_push(Z, Zs);
        for (auto& p : extra) Z3_solver_assert(Z, Zs, bvOf(p));
        Z3_lbool r = Z3_solver_check(Z, Zs);
        res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1) fetch(Zs, false, model, val, vout);
        Z3_solver_pop(Z, Zs, 1);
    }
    st_solver += now() - t;
    if (res == 1) st_sat++; else if (res == 0) st_unsat++; else st_unknown++;
    return res;
}
static void mix(uint64_t v) { g_hash ^= v; g_hash *= 1099511628211ULL; }
static void finish(const char* how);
// record a condition with its concrete outcome; explore the other side
static void record(Node* c, bool taken, bool flip) {
    if (!g_active) return;
    if (isBC(c)) return;
    if ((bool)c->cv != taken) die("concrete/symbolic mismatch on a condition (op %d)", c->op);
    Node* base = c; bool pos = taken;
    if (c->op == NOT) { base = c->a; pos = !taken; }
    auto it = g_known->find(base->id);
    if (it != g_known->end()) return;   // already decided on this path
    (*g_known)[base->id] = pos;
    if (pos && base->op == EQ && isC(base->b)) base->a->pinned = 1;
    st_branches++;
    size_t idx = g_nrec++;
    uint64_t before = g_hash;
    mix(base->id * 2 + pos);
    if (idx + 1 == g_depth) {
        if (g_hash != g_expectHash) die("path divergence at %zu", idx);
        g_hashChecked = true;
    }
    if (flip && idx >= g_depth) {
        std::vector<i64> m;
        int r = query({{0, base, !pos}}, &m);
        if (r == 1) {
            uint64_t h = before; h ^= base->id * 2 + !pos; h *= 1099511628211ULL;
            send('N', ser(m, idx + 1, h));
        } else if (r < 0) send('U', "branch");
    }
    assertPC({0, base, pos});
}
// fix an integer term to its concrete value on this path; every other value the
// path condition allows becomes a path of its own
static void pinInt(Node* n) {
    if (!g_active || n->pinned) return;
    n->pinned = 1;
    if (n->lo == n->hi) return;
    st_branches++;
    size_t idx = g_nrec++;
    uint64_t before = g_hash;
    auto hv = [&](uint64_t h, i64 v) { h ^= 0x5bd1e995ULL + n->id; h *= 1099511628211ULL; h ^= (uint64_t)v; h *= 1099511628211ULL; return h; };
    g_hash = hv(before, n->cv);
    if (idx + 1 == g_depth) { if (g_hash != g_expectHash) die("path divergence at %zu", idx); g_hashChecked = true; }
    if (idx >= g_depth) {
        std::vector<PCI> ne{{3, n, n->cv}};
        while (true) {
            std::vector<i64> m; i64 v;
            int r = query(ne, &m, n, &v);
            if (r == 1) { send('N', ser(m, idx + 1, hv(before, v))); ne.push_back({3, n, v}); }
            else { if (r < 0) send('U', "pin"); break; }
        }
    }
    assertPC({1, n, n->cv});
}
extern "C" void __s_pin_i(Node* n, i64 v);
static void pinNode(Node* n, const char* why) {
    if (n->sort == SB) { record(n, n->cv, true); return; }
    st_pins++; (*g_pinwhy)[why]++;
    if (n->sort == SI) { if (!isC(n)) pinInt(n); return; }
    pinNode(n->a, why);
}

// ------------------------------------------------------------------ shadow memory
static const size_t NPG = 1 << 20;
static uint8_t g_dirty[NPG];
struct SB1 { Node* n; uint8_t off, size; };
struct Page { SB1 b[4096]; };
static std::unordered_map<uintptr_t, Page*>* g_pages;
static Page* page(uintptr_t a, bool create) {
    uintptr_t p = a >> 12;
    if (!g_dirty[p & (NPG - 1)] && !create) return nullptr;
    auto it = g_pages->find(p);
    if (it != g_pages->end()) return it->second;
    if (!create) return nullptr;
    g_dirty[p & (NPG - 1)] = 1;
    Page* x = (Page*)calloc(1, sizeof(Page));
    (*g_pages)[p] = x;
    return x;
}
static inline bool maybeDirty(uintptr_t a, size_t n) {
    for (uintptr_t p = a >> 12; p <= (a + n - 1) >> 12; p++) if (g_dirty[p & (NPG - 1)]) return true;
    return false;
}
static SB1 getB(uintptr_t a) { Page* p = page(a, false); return p ? p->b[a & 4095] : SB1{nullptr, 0, 0}; }
static void setB(uintptr_t a, SB1 b) {
    if (!b.n) { Page* p = page(a, false); if (p) p->b[a & 4095].n = nullptr; return; }
    page(a, true)->b[a & 4095] = b;
}
static Node* nn(Node* n) { return n && (n->op == CONST || n->op == BCONST) ? nullptr : n; }
static Node* partOf(SB1 x, int nbytes);   // bytes [off, off+nbytes) of x.n

extern "C" {
void** __s_enter(void* f) { if (__s_tag == f) { __s_tag = nullptr; return __s_args; } return zeroArgs; }
void __s_clear(void* p, i64 n) {
    uintptr_t a = (uintptr_t)p;
    if (n <= 0) return;
    if (n > (1 << 26)) return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t pe = std::min(e, (a | 4095) + 1);
        if (g_dirty[(a >> 12) & (NPG - 1)]) { Page* pg = page(a, false); if (pg) for (uintptr_t x = a; x < pe; x++) pg->b[x & 4095].n = nullptr; }
        a = pe;
    }
}
void __s_memcpy(void* d, void* s, i64 n) {
    if (n <= 0) return;
    uintptr_t da = (uintptr_t)d, sa = (uintptr_t)s;
    if (!maybeDirty(da, n) && !maybeDirty(sa, n)) return;
    if (da <= sa) for (i64 i = 0; i < n; i++) setB(da + i, getB(sa + i));
    else for (i64 i = n - 1; i >= 0; i--) setB(da + i, getB(sa + i));
}
void __s_byval(void* d, void* s, i64 n) { if (s) __s_memcpy(d, s, n); }
void __s_store(void* p, int size, Node* e) {
    uintptr_t a = (uintptr_t)p;
    if (!e) { if (maybeDirty(a, size)) for (int i = 0; i < size; i++) setB(a + i, SB1{nullptr, 0, 0}); return; }
    for (int i = 0; i < size; i++) setB(a + i, SB1{e, (uint8_t)i, (uint8_t)size});
}
Node* __s_load(void* p, int size, int isd, i64 bits, int w) {
    uintptr_t a = (uintptr_t)p;
    if (!maybeDirty(a, size)) return nullptr;
    SB1 f = getB(a);
    bool whole = f.n && f.off == 0 && f.size == size;
    bool any = false;
    for (int i = 0; i < size; i++) { SB1 x = getB(a + i); if (x.n) any = true; if (!x.n || x.n != f.n || x.off != i) whole = false; }
    if (!any) return nullptr;
    if (whole) {
        Node* n = f.n;
        if (n->sort == SD) {
            double d; memcpy(&d, &bits, 8);
            if (d != n->cd) { (*g_pinwhy)["stale double shadow dropped"]++; __s_store(p, size, nullptr); return nullptr; }
        } else {
            i64 v = bits;
            i64 c = n->sort == SB ? (n->cv ? (w == 1 ? -1 : 1) : 0) : n->cv;
            if (n->sort == SB && w > 1) { n = iIte(n, kI(1), kI(0)); }
            if (c != v) { (*g_pinwhy)["stale int shadow dropped"]++; __s_store(p, size, nullptr); return nullptr; }
            if (w == 1 && n->sort == SI) { n = iEQ(n, kI(1)); }   // i1 stored as byte
            if (isd) { pinNode(n, "int bytes read as double"); return nullptr; }
        }
        if (n->sort == SI && n->pinned) return nullptr;
        return nn(n);
    }
    // piecewise
    if (isd) { for (int i = 0; i < size; i++) { SB1 x = getB(a + i); if (x.n) pinNode(x.n, "partial bytes read as double"); } return nullptr; }
    // assemble from low to high
    Node* acc = nullptr; int accw = 0;
    int i = 0;
    while (i < size) {
        SB1 x = getB(a + i);
        Node* part; int nb;
        if (!x.n) { nb = 1; while (i + nb < size && !getB(a + i + nb).n) nb++; uint64_t v = (uint64_t)bits >> (8 * i); part = kI(wrapv((i128)v, 8 * nb)); }
        else {
            if (x.n->sort == SD) { pinNode(x.n, "double read as partial int"); nb = 1; while (i + nb < size && getB(a + i + nb).n == x.n) nb++; uint64_t v = (uint64_t)bits >> (8 * i); part = kI(wrapv((i128)v, 8 * nb)); }
            else { nb = 1; while (i + nb < size) { SB1 y = getB(a + i + nb); if (y.n == x.n && y.off == x.off + nb) nb++; else break; } part = partOf(x, nb); }
        }
        int pw = 8 * nb;
        if (!acc) { acc = part; accw = pw; }
        else {
            i64 cv = wrapv(((i128)part->cv << accw) | (i128)(uint64_t)(acc->cv & ((accw == 64) ? -1 : (((i64)1 << accw) - 1))), accw + pw);
            acc = mk(CONCAT, SI, accw + pw, part, acc, 0, accw, smin(accw + pw), smax(accw + pw), cv);
            accw += pw;
        }
        i += nb;
    }
    if (acc->cv != bits && wrapv(bits, accw) != acc->cv) { (*g_pinwhy)["stale int shadow dropped"]++; __s_store(p, size, nullptr); return nullptr; }
    if (isC(acc)) return nullptr;
    if (w == 1) return iEQ(mk(EXTR, SI, 1, acc, 0, 0, 0, -1, 0, (acc->cv & 1) ? -1 : 0), kI(-1));
    return acc;
}
void __s_pinmem(void* p, i64 n) {
    uintptr_t a = (uintptr_t)p;
    if (n <= 0 || !maybeDirty(a, n)) return;
    Node* last = nullptr;
    for (i64 i = 0; i < n; i++) { SB1 x = getB(a + i); if (x.n && x.n != last) { last = x.n; pinNode(x.n, "memory handed to unmodelled code"); } }
}
void __s_pinstr(const char* p) { __s_pinmem((void*)p, (i64)strlen(p) + 1); }
}
static Node* partOf(SB1 x, int nb) {
    Node* n = x.n;
    if (n->sort == SB) n = iIte(n, kI(1), kI(0));
    int w = 8 * nb, off = 8 * x.off;
    if (off == 0 && n->lo >= smin(w) && n->hi <= smax(w)) return n;
    if (n->op == CONCAT) {
        int lw = (int)n->k;
        if (off + w <= lw) return partOf(SB1{n->b, x.off, 0}, nb);
        if (off >= lw) return partOf(SB1{n->a, (uint8_t)(x.off - lw / 8), 0}, nb);
    }
    i64 cv = wrapv((i128)(n->cv >> (off > 63 ? 63 : off)), w);
    return mk(EXTR, SI, w, n, 0, 0, off, smin(w), smax(w), cv);
}

// ------------------------------------------------------------------ operations
enum { LAdd = 13, LFAdd, LSub, LFSub, LMul, LFMul, LUDiv, LSDiv, LFDiv, LURem, LSRem, LFRem, LShl, LLShr, LAShr, LAnd, LOr, LXor };   // llvm opcodes
static Node* I(Node* e, i64 c) { if (!e || (e->sort == SI && e->pinned)) return kI(c); if (e->sort == SD) { pinNode(e, "double bits used as integer"); return kI(c); } return asInt(e); }

static Node* D(Node* e, double c) { if (e && e->sort == SD && e->a && e->a->pinned) return nullptr; if (e) { if (e->sort != SD) { pinNode(e, "integer bits used as double"); } else return e; } return dConst(c); }
static Node* uns(Node* a, int w) { if (a->lo >= 0) return a; if (isC(a)) return w >= 64 ? a : kI((i64)((uint64_t)a->k & ((1ULL << w) - 1))); return mk(UEXT, SI, 0, a, 0, 0, w, 0, w >= 63 ? IMAX : ((i64)1 << w) - 1, (i64)(w >= 64 ? (uint64_t)a->cv : ((uint64_t)a->cv & ((1ULL << w) - 1)))); }
static i64 pow2ceil(i64 v) { i64 p = 1; while (p <= v && p < ((i64)1 << 61)) p <<= 1; return p; }

extern "C" {
Node* __s_bin(int op, Node* ea, Node* eb, i64 ca, i64 cb, int w) {
    if (!ea && !eb) return nullptr;
    if (w == 1) {
        auto B = [&](Node* e, i64 c) -> Node* { if (!e) return kB(c != 0); if (e->sort == SB) return e; return bNot(iEQ(I(e, c), kI(0))); };
        Node *a = B(ea, ca), *b = B(eb, cb);
        switch (op) { case LAnd: case LMul: return nn(bAnd(a, b)); case LOr: return nn(bOr(a, b)); case LXor: case LAdd: case LSub: return nn(bNot(bEq(a, b))); }
        pinNode(a, "i1 op"); pinNode(b, "i1 op"); return nullptr;
    }
    Node *a = I(ea, ca), *b = I(eb, cb);
    if (isC(a) && isC(b)) return nullptr;
    switch (op) {
        case LAdd: return nn(iAdd(a, b, w));
        case LSub: return nn(iSub(a, b, w));
        case LMul: return nn(iMul(a, b, w));
        case LAnd: {
            // i1-like masks
            if (isC(a)) std::swap(a, b);
            if (isC(b)) {
                if (b->k == 0) return nullptr;
                if (b->k == -1) return nn(a);
                if (b->k > 0 && ((b->k + 1) & b->k) == 0 && a->lo >= 0 && a->hi <= b->k) return nn(a);
                if (a->op == ITE && a->leafc && leafsz(a, 16) <= 16) {
                    struct R { static Node* go(Node* t, i64 k) { return t->op == CONST ? kI(t->k & k) : iIte(t->a, go(t->b, k), go(t->c, k)); } };
                    return nn(R::go(a, b->k));
                }
            }
            i64 lo = smin(w), hi = smax(w);
            if (isC(b) && b->k >= 0) { lo = 0; hi = b->k; }
            else if (a->lo >= 0 || b->lo >= 0) { lo = 0; hi = a->lo >= 0 ? (b->lo >= 0 ? std::min(a->hi, b->hi) : a->hi) : b->hi; }
            return nn(mk(BAND, SI, w, a, b, 0, 0, lo, hi, a->cv & b->cv));
        }
        case LOr: {
            if (isC(a)) std::swap(a, b);
            if (isC(b) && b->k == 0) return nn(a);
            if (isC(b) && a->op == ITE && a->leafc && leafsz(a, 16) <= 16) {
                struct R { static Node* go(Node* t, i64 k) { return t->op == CONST ? kI(t->k | k) : iIte(t->a, go(t->b, k), go(t->c, k)); } };
                return nn(R::go(a, b->k));
            }
            i64 lo = smin(w), hi = smax(w);
            if (a->lo >= 0 && b->lo >= 0) { lo = 0; hi = std::min(hi, pow2ceil(std::max(a->hi, b->hi)) - 1); }
            return nn(mk(BOR, SI, w, a, b, 0, 0, lo, hi, a->cv | b->cv));
        }
        case LXor: {
            if (isC(a)) std::swap(a, b);
            if (isC(b) && b->k == 0) return nn(a);
            if (isC(b) && b->k == -1) return nn(iSub(kI(-1), a, w));
            if (isC(b) && a->op == ITE && a->leafc && leafsz(a, 16) <= 16) {
                struct R { static Node* go(Node* t, i64 k) { return t->op == CONST ? kI(t->k ^ k) : iIte(t->a, go(t->b, k), go(t->c, k)); } };
                return nn(R::go(a, b->k));
            }
            i64 lo = smin(w), hi = smax(w);
            if (a->lo >= 0 && b->lo >= 0) { lo = 0; hi = std::min(hi, pow2ceil(std::max(a->hi, b->hi)) - 1); }
            return nn(mk(BXOR, SI, w, a, b, 0, 0, lo, hi, a->cv ^ b->cv));
        }
        case LShl:
            if (isC(b) && b->k >= 0 && b->k < std::min(w, 62)) return nn(iMul(a, kI((i64)1 << b->k), w));
            if (isC(b) && b->k >= 0 && b->k < w) return nn(mk(SHL, SI, w, a, b, 0, 0, smin(w), smax(w), wrapv((i128)a->cv << b->k, w)));
            pinNode(b, "shift amount"); return __s_bin(op, ea, nullptr, ca, cb, w);
        case LLShr: case LAShr: {
            if (!isC(b)) { pinNode(b, "shift amount"); return __s_bin(op, ea, nullptr, ca, cb, w); }
            if (b->k < 0 || b->k >= w) { pinNode(a, "shift"); return nullptr; }
            if (b->k == 0) return nn(a);
            if (op == LAShr || a->lo >= 0) return nn(mk(ASHR, SI, w, a, b, 0, 0, a->lo >> b->k, a->hi >> b->k, a->cv >> b->k));
            uint64_t m = w >= 64 ? ~0ULL : (1ULL << w) - 1;
            return nn(mk(LSHR, SI, w, a, b, 0, 0, 0, (i64)(m >> b->k), (i64)(((uint64_t)a->cv & m) >> b->k)));
        }
        case LSDiv: case LSRem: case LUDiv: case LURem: {
            if (b->lo <= 0 && b->hi >= 0) { record(iEQ(b, kI(0)), b->cv == 0, true); if (b->cv == 0) return nullptr; }
            bool sg = op == LSDiv || op == LSRem;
            if (!sg && (a->lo < 0 || b->lo < 0)) {
                i64 cv; uint64_t m = w >= 64 ? ~0ULL : (1ULL << w) - 1; uint64_t x = (uint64_t)a->cv & m, y = (uint64_t)b->cv & m;
                cv = wrapv((i128)(op == LUDiv ? x / y : x % y), w);
                return nn(mk(op == LUDiv ? UDIV : UREM, SI, w, a, b, 0, 0, smin(w), smax(w), cv));
            }
            if (a->cv == IMIN && b->cv == -1) { pinNode(a, "div overflow"); pinNode(b, "div overflow"); return nullptr; }
            bool dv = op == LSDiv || op == LUDiv;
            i64 lo, hi;
            i64 am = std::max(a->hi, a->lo == IMIN ? IMAX : -a->lo);
            if (dv) { lo = -am; hi = am; if (a->lo >= 0 && b->lo >= 0) lo = 0; }
            else { i64 bm = std::max(b->hi, b->lo == IMIN ? IMAX : -b->lo) - 1; hi = a->hi < 0 ? 0 : std::min(am, bm); lo = a->lo >= 0 ? 0 : -std::min(am, bm); }
            return nn(mk(dv ? SDIV : SREM, SI, w, a, b, 0, 0, std::max(lo, smin(w)), std::min(hi, smax(w)), dv ? a->cv / b->cv : a->cv % b->cv));
        }
    }
    pinNode(a, "int op"); pinNode(b, "int op");
    return nullptr;
}
Node* __s_icmp(int pred, Node* ea, Node* eb, i64 ca, i64 cb, int w) {
    if (!ea && !eb) return nullptr;
    if (w == 1 && ((ea && ea->sort == SB) || (eb && eb->sort == SB))) {
        auto B = [&](Node* e, i64 c) -> Node* { if (!e) return kB(c != 0); if (e->sort == SB) return e; return bNot(iEQ(I(e, c), kI(0))); };
        Node *a = B(ea, ca), *b = B(eb, cb);
        if (pred == 32) return nn(bEq(a, b));
        if (pred == 33) return nn(bNot(bEq(a, b)));
        switch (pred) {   // as unsigned: false<true ; signed: true(-1)<false(0)
            case 34: case 40: { return nn(pred == 34 ? bAnd(a, bNot(b)) : bAnd(a, bNot(b))); }   // ugt ; slt
            case 35: case 41: { return nn(pred == 35 ? bOr(a, bNot(b)) : bOr(a, bNot(b))); }     // uge ; sle
            case 36: case 38: return nn(bAnd(bNot(a), b));                                        // ult ; sgt
            case 37: case 39: return nn(bOr(bNot(a), b));                                         // ule ; sge
        }
    }
    if (ea && eb && ea == eb && ea->sort == SD) return nullptr;
    Node *a = I(ea, ca), *b = I(eb, cb);
    if (isC(a) && isC(b)) return nullptr;
    auto ult = [&](Node* x, Node* y) -> Node* {
        if (x->lo >= 0 && y->lo >= 0) return bLT(x, y);
        if (w < 62) return bLT(uns(x, w), uns(y, w));
        uint64_t m = w >= 64 ? ~0ULL : (1ULL << w) - 1;
        return mk(ULT, SB, 1, x, y, 0, w, 0, 1, ((uint64_t)x->cv & m) < ((uint64_t)y->cv & m));
    };
    switch (pred) {
        case 32: return nn(iEQ(a, b));
        case 33: return nn(bNot(iEQ(a, b)));
        case 34: return nn(ult(b, a));
        case 35: return nn(bNot(ult(a, b)));
        case 36: return nn(ult(a, b));
        case 37: return nn(bNot(ult(b, a)));
        case 38: return nn(bLT(b, a));
        case 39: return nn(bLE(b, a));
        case 40: return nn(bLT(a, b));
        case 41: return nn(bLE(a, b));
    }
    die("icmp pred"); return nullptr;
}
Node* __s_sel_i(Node* c, uint8_t cc, Node* ea, Node* eb, i64 ca, i64 cb, int w) {
    if (!c) return cc ? ea : eb;
    if ((ea && ea->sort == SD) || (eb && eb->sort == SD)) { record(c, cc, true); return cc ? ea : eb; }
    if (w == 1) {
        auto B = [&](Node* e, i64 v) -> Node* { if (!e) return kB(v != 0); if (e->sort == SB) return e; return bNot(iEQ(e, kI(0))); };
        return nn(bIte(c, B(ea, ca), B(eb, cb)));
    }
    return nn(iIte(c, I(ea, ca), I(eb, cb)));
}
Node* __s_minmax(int pred, Node* ea, Node* eb, i64 ca, i64 cb, int w) {
    Node* c = __s_icmp(pred, ea, eb, ca, cb, w);
    bool cc;
    uint64_t m = w >= 64 ? ~0ULL : (1ULL << w) - 1;
    switch (pred) { case 40: cc = ca < cb; break; case 38: cc = ca > cb; break; case 36: cc = ((uint64_t)ca & m) < ((uint64_t)cb & m); break; default: cc = ((uint64_t)ca & m) > ((uint64_t)cb & m); }
    Node* r = __s_sel_i(c, cc, ea, eb, ca, cb, w);
    if (!r || r->op != ITE) return r;
    // tighten the interval
    if (pred == 40 || pred == 38) {
        Node *a = I(ea, ca), *b = I(eb, cb);
        i64 lo = pred == 40 ? std::min(a->lo, b->lo) : std::max(a->lo, b->lo), hi = pred == 40 ? std::min(a->hi, b->hi) : std::max(a->hi, b->hi);
        if (lo > r->lo || hi < r->hi) { Node* n = mk(WRAP, SI, bitsFor(lo, hi), r, 0, 0, 0, lo, hi, r->cv); return n; }
    }
    return r;
}
Node* __s_iabs(Node* e, i64 c, int w) {
    Node* a = I(e, c);
    return nn(iIte(bLT(a, kI(0)), iSub(kI(0), a, w), a));
}
Node* __s_cast(int op, Node* e, i64 c, int fw, int tw) {
    if (!e) return nullptr;
    if (e->sort == SD) { pinNode(e, "double bits cast"); return nullptr; }
    if (op == 38) {   // trunc
        if (e->sort == SB) return e;
        if (tw == 1) {
            if (e->lo >= 0 && e->hi <= 1) return nn(iEQ(e, kI(1)));
            if (e->op == ITE && e->leafc && leafsz(e, 16) <= 16) { struct R { static Node* go(Node* t) { return t->op == CONST ? kB(t->k & 1) : bIte(t->a, go(t->b), go(t->c)); } }; return nn(R::go(e)); }
            return nn(mk(BIT0, SB, 1, e, 0, 0, 0, 0, 1, e->cv & 1));
        }
        if (e->lo >= smin(tw) && e->hi <= smax(tw)) return e;
        if (e->op == CONCAT && (int)e->k >= tw) return __s_cast(38, nn(e->b), e->b->cv, (int)e->k, tw);
        return nn(mk(WRAP, SI, tw, e, 0, 0, 0, smin(tw), smax(tw), wrapv(e->cv, tw)));
    }
    if (op == 39) {   // zext
        if (e->sort == SB) return nn(iIte(e, kI(1), kI(0)));
        if (e->op == ITE && e->leafc && leafsz(e, 16) <= 16) { uint64_t m = (1ULL << fw) - 1; struct R { static Node* go(Node* t, uint64_t m) { return t->op == CONST ? kI((i64)((uint64_t)t->k & m)) : iIte(t->a, go(t->b, m), go(t->c, m)); } }; return nn(R::go(e, m)); }
        return nn(uns(e, fw));
    }
    if (e->sort == SB) return nn(iIte(e, kI(-1), kI(0)));
    return e;   // sext
}
Node* __s_itof(int sg, Node* e, i64 c, int w) {
    if (!e) return nullptr;
    if (e->sort == SD) { pinNode(e, "itof of double bits"); return nullptr; }
    Node* a = e->sort == SB ? (sg ? iIte(e, kI(-1), kI(0)) : iIte(e, kI(1), kI(0))) : e;
    if (!sg) a = uns(a, w);
    if (a->lo < -EXL || a->hi > EXL) { pinNode(a, "int too large for an exact double"); return nullptr; }
    return isC(a) ? nullptr : dExact(a, 0);
}
static Node* floorDiv(Node* a, int s) { if (s == 0) return a; return mk(ASHR, SI, 64, a, kI(s), 0, 0, a->lo >> s, a->hi >> s, a->cv >> s); }
Node* __s_fbin(int op, Node* ea, Node* eb, double ca, double cb);
static Node* dCheck(Node* n, double c) { return n; }
static Node* fun1(double (*f)(double), Node* e, const char* nm) {
    TV t;
    if (!tabView(e, &t, TABLIM)) { pinNode(e, nm); return nullptr; }
    for (auto& x : t.v) { x = f(x); if (std::isnan(x)) { pinNode(e, nm); return nullptr; } }
    return dFromTab(t.base, t.v);
}
static Node* dnn(Node* n) { return n && n->sort == SD && n->a && isC(n->a) ? nullptr : n; }
Node* __s_ftoi(int sg, Node* e, double c, int w) {
    if (!e) return nullptr;
    Node* d = D(e, c); if (!d || d != e) return nullptr;
    if (d->op == DEXACT) {
        int s = (int)d->k;
        Node* a = d->a; Node* r = a;
        if (s) r = iIte(bLT(a, kI(0)), iSub(kI(0), floorDiv(iSub(kI(0), a, 64), s), 64), floorDiv(a, s));
        if (r->lo >= smin(w) && r->hi <= (sg ? smax(w) : (w >= 63 ? IMAX : ((i64)1 << w) - 1)) && (sg || r->lo >= 0)) {
            if (!sg && r->hi > smax(w)) { pinNode(d, "fptoui range"); return nullptr; }
            return nn(r);
        }
        pinNode(d, "fptosi out of range"); return nullptr;
    }
    TV t;
    if (!tabView(d, &t, TABLIM)) { pinNode(d, "fptosi"); return nullptr; }
    std::vector<i64> v;
    for (double x : t.v) { double y = std::trunc(x); if (!(y >= (double)smin(w) && y <= (double)smax(w)) || (!sg && y < 0)) { pinNode(d, "fptosi out of range"); return nullptr; } v.push_back((i64)y); }
    return nn(iTab(t.base, v));
}
Node* __s_fneg(Node* e, double c) {
    if (!e) return nullptr;
    Node* d = D(e, c); if (!d || d != e) return nullptr;
    if (d->op == DEXACT) return dnn(dExact(iSub(kI(0), d->a, 64), (int)d->k));
    if (d->op == DEXACTD) return dExactD(iSub(kI(0), d->a, 64), d->w, -d->d);
    return dnn(fun1([](double x) { return -x; }, d, "fneg"));
}
static double roundHalf(double x) { return std::round(x); }
Node* __s_fun1(int f, Node* e, double c) {
    if (!e) return nullptr;
    Node* d = D(e, c); if (!d || d != e) return nullptr;
    if (d->op == DEXACT) {
        int s = (int)d->k; Node* a = d->a;
        if (f == 1) return dnn(dExact(floorDiv(a, s), 0));
        if (f == 2) return dnn(dExact(iSub(kI(0), floorDiv(iSub(kI(0), a, 64), s), 64), 0));
        if (f == 3) return dnn(dExact(iIte(bLT(a, kI(0)), iSub(kI(0), a, 64), a), s));
        if ((f >= 5 && f <= 8) && s == 0) return d;
    }
    if (f == 3 && d->op == DEXACTD) {
        // |v + delta|: sign is the sign of v when |delta| is below one grid step, delta otherwise at v == 0
        int s = d->w; double g = std::ldexp(1.0, -s);
        if (std::fabs(d->d) < g * 0.5) {
            TV t; if (!tabView(d, &t, TABLIM)) { pinNode(d, "fabs"); return nullptr; }
        }
    }
    double (*fp)(double) = nullptr;
    switch (f) { case 1: fp = std::floor; break; case 2: fp = std::ceil; break; case 3: fp = std::fabs; break; case 4: fp = std::sqrt; break; case 5: fp = std::trunc; break; case 6: fp = roundHalf; break; case 7: fp = std::rint; break; case 8: fp = std::nearbyint; break; case 9: fp = std::exp; break; case 10: fp = std::log; break; case 11: fp = std::log2; break; case 12: fp = std::log10; break; case 13: fp = std::sin; break; case 14: fp = std::cos; break; case 15: fp = std::exp2; break; case 16: fp = std::log1p; break; case 17: fp = std::expm1; break; case 18: fp = std::cbrt; break; case 19: fp = std::tanh; break; }
    if (!fp) { pinNode(d, "fun1"); return nullptr; }
    return dnn(fun1(fp, d, "libm"));
}
static double fop(int op, double a, double b) {
    switch (op) { case LFAdd: return a + b; case LFSub: return a - b; case LFMul: return a * b; case LFDiv: return a / b; case LFRem: return std::fmod(a, b); case 101: return std::pow(a, b); case 102: return std::fmod(a, b); case 103: return std::fmin(a, b); case 104: return std::fmax(a, b); case 105: return std::hypot(a, b); case 106: return std::atan2(a, b); case 107: return std::copysign(a, b); }
    return NAN;
}
// generic exact fallback: tabulate with the native IEEE operation
static Node* tab2(int op, Node* ea, Node* eb, double ca, double cb) {
    TV ta, tb;
    bool oka = ea && ea->sort == SD && !(ea->a && isC(ea->a)), okb = eb && eb->sort == SD && !(eb->a && isC(eb->a));
    if (oka && !okb) {
        if (!tabView(ea, &ta, TABLIM)) { pinNode(ea, "table too large"); return nullptr; }
        for (auto& x : ta.v) { if (op == LFDiv && cb == 0) { pinNode(ea, "div by zero"); return nullptr; } x = fop(op, x, cb); if (std::isnan(x)) { pinNode(ea, "nan"); return nullptr; } }
        return dFromTab(ta.base, ta.v);
    }
    if (okb && !oka) {
        if (!tabView(eb, &tb, TABLIM)) { pinNode(eb, "table too large"); return nullptr; }
        for (auto& x : tb.v) { if (op == LFDiv && x == 0) { pinNode(tb.base, "div by zero"); return nullptr; } x = fop(op, ca, x); if (std::isnan(x)) { pinNode(eb, "nan"); return nullptr; } }
        return dFromTab(tb.base, tb.v);
    }
    if (!oka && !okb) return nullptr;
    bool va = tabView(ea, &ta, TABLIM), vb = tabView(eb, &tb, TABLIM);
    if (va && vb && ta.base == tb.base) {
        for (size_t i = 0; i < ta.v.size(); i++) { if (op == LFDiv && tb.v[i] == 0) { pinNode(eb, "div by zero"); return nullptr; } ta.v[i] = fop(op, ta.v[i], tb.v[i]); if (std::isnan(ta.v[i])) { pinNode(ea, "nan"); return nullptr; } }
        return dFromTab(ta.base, ta.v);
    }
    if (va && vb && ta.v.size() * tb.v.size() <= (size_t)TABLIM) {
        if (op == LFDiv) for (double x : tb.v) if (x == 0) { pinNode(eb, "div by zero"); return tab2(op, ea, nullptr, ca, cb); }
        std::vector<double> v;
        for (double x : ta.v) for (double y : tb.v) { double r = fop(op, x, y); if (std::isnan(r)) { pinNode(ea, "nan"); pinNode(eb, "nan"); return nullptr; } v.push_back(r); }
        Node* base = iAdd(iMul(iSub(ta.base, kI(ta.base->lo), 64), kI(tb.v.size()), 64), iSub(tb.base, kI(tb.base->lo), 64), 64);
        return dFromTab(base, v);
    }
    // concretise the operand with the smaller domain and try again
    size_t na = va ? ta.v.size() : 1u << 30, nb = vb ? tb.v.size() : 1u << 30;
    if (na <= nb) { pinNode(ea, "table product too large"); return tab2(op, nullptr, eb, ca, cb); }
    pinNode(eb, "table product too large");
    return tab2(op, ea, nullptr, ca, cb);
}
Node* __s_fbin(int op, Node* ea, Node* eb, double ca, double cb) {
    if (!ea && !eb) return nullptr;
    if (ea && ea->sort != SD) { pinNode(ea, "int bits as double"); ea = nullptr; }
    if (eb && eb->sort != SD) { pinNode(eb, "int bits as double"); eb = nullptr; }
    if (ea && ea->a && ea->a->pinned) ea = nullptr;
    if (eb && eb->a && eb->a->pinned) eb = nullptr;
    if (!ea && !eb) return nullptr;
    Node *a = ea ? ea : dConst(ca), *b = eb ? eb : dConst(cb);
    if (a && b && a->op == DEXACT && b->op == DEXACT) {
        int s1 = (int)a->k, s2 = (int)b->k, s = std::max(s1, s2);
        Node* r = nullptr; int rs = s;
        if (op == LFAdd || op == LFSub) {
            i128 m = (i128)1 << 40;
            if (s - s1 < 40 && s - s2 < 40) {
                Node *x = iMul(a->a, kI((i64)1 << (s - s1)), 64), *y = iMul(b->a, kI((i64)1 << (s - s2)), 64);
                if (x->lo >= -EXL && x->hi <= EXL && y->lo >= -EXL && y->hi <= EXL) r = op == LFAdd ? iAdd(x, y, 64) : iSub(x, y, 64);
            }
        } else if (op == LFMul) {
            i128 ma = std::max((i128)a->a->hi, -(i128)a->a->lo), mb = std::max((i128)b->a->hi, -(i128)b->a->lo);
            if (ma * mb <= EXL && s1 + s2 <= 40) { r = iMul(a->a, b->a, 64); rs = s1 + s2; }
        } else if (op == LFDiv && isC(b->a) && b->a->k != 0) {
            i64 k = b->a->k; i64 ab = k < 0 ? -k : k;
            if ((ab & (ab - 1)) == 0) {   // divide by a power of two
                int sh = __builtin_ctzll(ab);
                Node* x = k < 0 ? iSub(kI(0), a->a, 64) : a->a;
                int ns = s1 + sh - s2;
                if (ns >= 0 && ns <= 40) { r = x; rs = ns; }
                else if (ns < 0 && ns > -40) { r = iMul(x, kI((i64)1 << -ns), 64); rs = 0; }
            }
        }
        if (r && r->lo >= -EXL && r->hi <= EXL) {
            // drop common powers of two of ITE/const results
            if (isC(r)) return nullptr;
            return dExact(r, rs);
        }
    }
    // finite + infinity
    if ((op == LFAdd || op == LFSub) && ((!ea && std::isinf(ca)) || (!eb && std::isinf(cb)))) {
        Node* e = ea ? ea : eb;
        if (e->op != DTAB) return nullptr;
        for (double x : e->tab->dv) if (std::isinf(x)) { pinNode(e, "inf"); return nullptr; }
        return nullptr;
    }
    // exact + small offset
    if ((op == LFAdd || op == LFSub)) {
        if (ea && !eb && ea->op == DEXACT) { double dl = op == LFAdd ? cb : -cb; if (std::fabs(dl) < 1048576.0 && dl != 0 && !dConst(dl) && ea->a->lo >= -((i64)1 << (28 + ea->k)) && ea->a->hi <= ((i64)1 << (28 + ea->k))) return dExactD(ea->a, (int)ea->k, dl); }
        if (eb && !ea && eb->op == DEXACT) { Node* y = op == LFSub ? dExact(iSub(kI(0), eb->a, 64), (int)eb->k) : eb; if (std::fabs(ca) < 1048576.0 && ca != 0 && !dConst(ca) && y->a->lo >= -((i64)1 << (28 + y->k)) && y->a->hi <= ((i64)1 << (28 + y->k))) return dExactD(y->a, (int)y->k, ca); }
    }
    return dnn(tab2(op, ea, eb, ca, cb));
}
Node* __s_fun2(int f, Node* ea, Node* eb, double ca, double cb) {
    if (ea && ea->sort != SD) { pinNode(ea, "x"); ea = nullptr; }
    if (eb && eb->sort != SD) { pinNode(eb, "x"); eb = nullptr; }
    if (!ea && !eb) return nullptr;
    return dnn(tab2(100 + f, ea, eb, ca, cb));
}
static Node* fcmpExact(int rel, Node* a, Node* b) {   // 0 lt 1 le 2 eq on DEXACT
    int s1 = (int)a->k, s2 = (int)b->k, s = std::max(s1, s2);
    Node *x = iMul(a->a, kI((i64)1 << (s - s1)), 64), *y = iMul(b->a, kI((i64)1 << (s - s2)), 64);
    return bCmp(rel, x, y);
}
// a: DEXACT-like, compare against a finite non-dyadic constant: v*2^-s rel c
static Node* fcmpConst(int rel, Node* a, double c, bool swap) {
    // v*2^-s < c  <=>  v < c*2^s (c*2^s exact)
    double t = std::ldexp(c, (int)a->k);
    double fl = std::floor(t), ce = std::ceil(t);
    if (std::fabs(t) > 4e18) { bool big = t > 0; if (rel == 2) return kB(false); return kB(swap ? !big : big); }
    i64 F = (i64)fl, Cc = (i64)ce;
    if (rel == 2) return fl == t ? iEQ(a->a, kI(F)) : kB(false);
    if (!swap) { // v rel t
        if (rel == 0) return bLT(a->a, kI(Cc));        // v < t  <=> v < ceil(t)
        return bLE(a->a, kI(F));                        // v <= t <=> v <= floor(t)
    }
    if (rel == 0) return bLT(kI(F), a->a);             // t < v  <=> v > floor(t)
    return bLE(kI(Cc), a->a);                           // t <= v <=> v >= ceil(t)
}
static Node* fcmp2(int rel, Node* ea, Node* eb, double ca, double cb) {
    // value comparison, no NaN anywhere
    Node *a = ea ? ea : dConst(ca), *b = eb ? eb : dConst(cb);
    if (a && b && a->op == DEXACT && b->op == DEXACT && std::max(a->k, b->k) - std::min(a->k, b->k) < 10) return fcmpExact(rel, a, b);
    if (ea && !eb && ea->op == DEXACT) { if (std::isinf(cb)) return rel == 2 ? kB(false) : kB(cb > 0); return fcmpConst(rel, ea, cb, false); }
    if (eb && !ea && eb->op == DEXACT) { if (std::isinf(ca)) return rel == 2 ? kB(false) : kB(ca < 0); return fcmpConst(rel, eb, ca, true); }
    // (v + delta) against exact
    auto offs = [&](Node* x, Node* y, bool xLeft) -> Node* {   // x: DEXACTD, y: DEXACT
        int s = std::max((int)x->w, (int)y->k);
        double g = std::ldexp(1.0, -s);
        double q = x->d / g, fq = std::floor(q), fr = q - fq;
        double lim = std::ldexp(1.0, 28);
        auto mag = [&](Node* n, int sc) { return std::max(std::fabs(scaled(n->lo, sc)), std::fabs(scaled(n->hi, sc))); };
        double m = std::max(mag(x->a, x->w), mag(y->a, (int)y->k)) + std::fabs(x->d) + 1;
        double ulp = std::ldexp(m, -50);
        if (m > lim || !(fr * g > 8 * ulp && (1 - fr) * g > 8 * ulp)) return nullptr;
        Node *v = iMul(x->a, kI((i64)1 << (s - x->w)), 64), *u = iMul(y->a, kI((i64)1 << (s - (int)y->k)), 64);
        // v + fq + fr  vs u with 0<fr<1: never equal
        if (rel == 2) return kB(false);
        Node* vv = iAdd(v, kI((i64)fq), 64);
        return xLeft ? bLT(vv, u) : bLE(u, vv);
    };
    if (a && b && a->op == DEXACTD && b->op == DEXACT) { if (Node* r = offs(a, b, true)) return r; }
    if (a && b && a->op == DEXACT && b->op == DEXACTD) { if (Node* r = offs(b, a, false)) return r; }
    if (ea && !eb && a->op == DEXACTD && std::isinf(cb)) return rel == 2 ? kB(false) : kB(cb > 0);
    if (eb && !ea && b->op == DEXACTD && std::isinf(ca)) return rel == 2 ? kB(false) : kB(ca < 0);
    auto P = [&](double x, double y) { return rel == 0 ? x < y : rel == 1 ? x <= y : x == y; };
    TV ta, tb;
    if (ea && !eb) { if (!tabView(ea, &ta, TABLIM)) { pinNode(ea, "compare"); return kB(P(ca, cb)); } return bInset(ta.base, runs(ta.base->lo, ta.v.size(), [&](size_t i) { return P(ta.v[i], cb); })); }
    if (eb && !ea) { if (!tabView(eb, &tb, TABLIM)) { pinNode(eb, "compare"); return kB(P(ca, cb)); } return bInset(tb.base, runs(tb.base->lo, tb.v.size(), [&](size_t i) { return P(ca, tb.v[i]); })); }
    bool va = tabView(ea, &ta, TABLIM), vb = tabView(eb, &tb, TABLIM);
    if (va && vb && ta.base == tb.base) return bInset(ta.base, runs(ta.base->lo, ta.v.size(), [&](size_t i) { return P(ta.v[i], tb.v[i]); }));
    if (va && vb && ta.v.size() * tb.v.size() <= (size_t)TABLIM2) {
        Node* r = kB(false);
        // group rows with the same set
        std::map<std::vector<std::pair<i64, i64>>, std::vector<std::pair<i64, i64>>> rows;
        for (size_t i = 0; i < ta.v.size(); i++) {
            auto s = runs(tb.base->lo, tb.v.size(), [&](size_t j) { return P(ta.v[i], tb.v[j]); });
            auto& g = rows[s]; i64 x = ta.base->lo + (i64)i;
            if (!g.empty() && g.back().second == x - 1) g.back().second = x; else g.push_back({x, x});
        }
        for (auto& kv : rows) r = bOr(r, bAnd(bInset(ta.base, kv.second), bInset(tb.base, kv.first)));
        return r;
    }
    size_t na = va ? ta.v.size() : 1u << 30, nb = vb ? tb.v.size() : 1u << 30;
    if (na <= nb) { pinNode(ea, "compare product too large"); return fcmp2(rel, nullptr, eb, ca, cb); }
    pinNode(eb, "compare product too large"); return fcmp2(rel, ea, nullptr, ca, cb);
}
Node* __s_fcmp(int pred, Node* ea, Node* eb, double ca, double cb) {
    if (!ea && !eb) return nullptr;
    if (ea && ea->sort != SD) { pinNode(ea, "x"); ea = nullptr; }
    if (eb && eb->sort != SD) { pinNode(eb, "x"); eb = nullptr; }
    if (ea && ea->a && (isC(ea->a) || ea->a->pinned)) ea = nullptr;
    if (eb && eb->a && (isC(eb->a) || eb->a->pinned)) eb = nullptr;
    if (!ea && !eb) return nullptr;
    if (std::isnan(ca) || std::isnan(cb)) return nullptr;   // symbolic side is never NaN; other is a NaN constant
    int p = pred & 7;   // drop unordered bit: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord/true
    switch (p) {
        case 0: return nullptr;
        case 1: return nn(fcmp2(2, ea, eb, ca, cb));
        case 2: return nn(fcmp2(0, eb, ea, cb, ca));
        case 3: return nn(fcmp2(1, eb, ea, cb, ca));
        case 4: return nn(fcmp2(0, ea, eb, ca, cb));
        case 5: return nn(fcmp2(1, ea, eb, ca, cb));
        case 6: return nn(bNot(fcmp2(2, ea, eb, ca, cb)));
        default: return nullptr;
    }
}
Node* __s_sel_d(Node* c, uint8_t cc, Node* ea, Node* eb, double ca, double cb) {
    if (!c) return cc ? ea : eb;
    if (isBC(c)) return cc ? ea : eb;
    if (ea && ea->sort != SD) { record(c, cc, true); return cc ? ea : eb; }
    if (eb && eb->sort != SD) { record(c, cc, true); return cc ? ea : eb; }
    if (ea == eb && ea) return ea;
    if (!ea && !eb && ca == cb) return nullptr;
    Node *a = ea ? ea : dConst(ca), *b = eb ? eb : dConst(cb);
    if (a && b && a->op == DEXACT && b->op == DEXACT && std::max(a->k, b->k) - std::min(a->k, b->k) < 20) {
        int s = (int)std::max(a->k, b->k);
        Node *x = iMul(a->a, kI((i64)1 << (s - a->k)), 64), *y = iMul(b->a, kI((i64)1 << (s - b->k)), 64);
        if (x->lo >= -EXL && x->hi <= EXL && y->lo >= -EXL && y->hi <= EXL) return dExact(iIte(c, x, y), s);
    }
    // one table over  c ? ia : na + ib
    TV ta, tb; bool va = true, vb = true;
    if (ea) va = tabView(ea, &ta, TABLIM); else { ta.base = kI(0); ta.v = {ca}; }
    if (eb) vb = tabView(eb, &tb, TABLIM); else { tb.base = kI(0); tb.v = {cb}; }
    if (std::isnan(ca) || std::isnan(cb) || !va || !vb || ta.v.size() + tb.v.size() > (size_t)TABLIM) { record(c, cc, true); return cc ? ea : eb; }
    if (ta.base == tb.base || ta.v.size() + tb.v.size() < 100000) {
        Node* base = iIte(c, iSub(ta.base, kI(ta.base->lo), 64), iAdd(tb.base, kI((i64)ta.v.size() - tb.base->lo), 64));
        // the interval of base must be [0, n)
        std::vector<double> v = ta.v; v.insert(v.end(), tb.v.begin(), tb.v.end());
        std::vector<double> u(v.begin() + base->lo, v.begin() + base->hi + 1);
        return dnn(dFromTab(base, u));
    }
    return nullptr;
}
void __s_branch(Node* c, uint8_t taken) {
    if (!c) return;
    if (c->sort == SI) { c = bNot(iEQ(c, kI(0))); }
    record(c, taken != 0, true);
}
bool g_opaqueText = false;
void __s_tpin_i(Node* n, i64 v) { if (n && !g_opaqueText) pinNode(n, "number formatted as text"); }
void __s_tpin_d(Node* n, double v) { if (n && !g_opaqueText) pinNode(n, "number formatted as text"); }
void __s_pin_i(Node* n, i64 v) { if (n) pinNode(n, "address, size or argument of unmodelled code"); }
void __s_pin_d(Node* n, double v) { if (n) pinNode(n, "argument of unmodelled code"); }

// ------------------------------------------------------------------ program heap
static char *g_ar, *g_arEnd, *g_arTop; static void* g_free[64];
static const size_t ARENA = (size_t)3 << 30;
static inline bool inArena(void* p) { return (char*)p >= g_ar && (char*)p < g_arEnd; }
void (*__s_malloc_hook)(void*, size_t);
void* __s_malloc(size_t n) {
    size_t asked = n;
    if (!g_ar) { g_ar = (char*)mmap((void*)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_ar == MAP_FAILED) die("arena"); g_arTop = g_ar; g_arEnd = g_ar + ARENA; }
    if (n < 16) n = 16;
    int c = 64 - __builtin_clzll(n + 16 - 1);   // block of 2^c bytes, 16 byte header
    if (c >= 40) throw std::bad_alloc();
    void* b = g_free[c];
    if (b) g_free[c] = *(void**)((char*)b + 16);
    else { if (g_arTop + ((size_t)1 << c) > g_arEnd) throw std::bad_alloc(); b = g_arTop; g_arTop += (size_t)1 << c; }
    *(uint64_t*)b = 0xA11C000000000000ULL | c;
    if (__s_malloc_hook) __s_malloc_hook((char*)b + 16, asked);
    return (char*)b + 16;
}
void __s_free(void* p) {
    if (!p) return;
    if (!inArena(p)) { free(p); return; }
    void* b = (char*)p - 16; uint64_t h = *(uint64_t*)b;
    if ((h >> 48) != 0xA11C || (h & 0xff) >= 64) { fprintf(stderr, "PROGRAM: invalid or double free\n"); abort(); }
    int c = h & 0xff;
    *(uint64_t*)b = 0xDEAD000000000000ULL | c;
    *(void**)p = g_free[c]; g_free[c] = b;
}
void __s_free2(void* p, size_t) { __s_free(p); }
}
void operator delete(void* p) noexcept { __s_free(p); }
void operator delete[](void* p) noexcept { __s_free(p); }
void operator delete(void* p, size_t) noexcept { __s_free(p); }
void operator delete[](void* p, size_t) noexcept { __s_free(p); }
extern "C" {
// ------------------------------------------------------------------ number tokens in text
static std::map<int, std::pair<double, Node*>>* g_tok;
static bool token(const char* s, char** end, double* out, Node** n) {
    while (*s == ' ') s++;
    const char* p = s; bool neg = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if (strncmp(p, "88", 2) != 0) return false;
    char* e; double v = strtod(p, &e);
    if (e - p < 8 || v < 88000000 || v >= 88001000 || v != std::floor(v)) return false;
    int id = (int)v - 88000000;
    if (!g_tok || !g_tok->count(id)) return false;
    auto& t = (*g_tok)[id];
    *out = neg ? -t.first : t.first; *n = t.second;
    if (neg && t.second) *n = __s_fneg(t.second, t.first);
    if (end) *end = e;
    return true;
}
long __s_strtol(const char* s, char** e, int b) { __s_pinstr(s); __s_ret[0] = nullptr; return strtol(s, e, b); }
unsigned long __s_strtoul(const char* s, char** e, int b) { __s_pinstr(s); __s_ret[0] = nullptr; return strtoul(s, e, b); }
double __s_strtod2(const char* s, char** e) { double v; Node* n; __s_pinstr(s); if (token(s, e, &v, &n)) { __s_ret[0] = n; return v; } __s_ret[0] = nullptr; return strtod(s, e); }
double __s_strtod3(const char* s, char** e, void*) { return __s_strtod2(s, e); }
double __s_atof(const char* s) { return __s_strtod2(s, nullptr); }

// ------------------------------------------------------------------ harness API
int vf_int(const char* name, int lo, int hi) {
    if (!g_active) die("vf_int outside harness");
    size_t i = g_in->size();
    i64 v = i < g_given->size() ? (*g_given)[i] : (lo <= 0 && hi >= 0 ? 0 : lo);
    if (v < lo || v > hi) die("input %s out of range", name);
    Node* n = nullptr;
    if (lo != hi) {
        n = alloc(); n->op = VAR; n->sort = SI; n->lo = lo; n->hi = hi; n->cv = v;
        n->zw = bitsFor(lo, hi);
        char nm[32]; snprintf(nm, sizeof nm, "i%zu", i);
        n->z = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, n->zw)));
        snprintf(nm, sizeof nm, "l%zu", i);
        n->l = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_int_sort(Z))); n->lTried = 1;
        assertPC({2, n, 0});
        g_in->push_back({name, lo, hi, v, n});
    } else { Node* k = kI(lo); g_in->push_back({name, lo, hi, v, k}); }
    __s_ret[0] = n;
    return (int)v;
}
double vf_table(int idx, const double* vals, int n) {
    Node* e = (Node*)(__s_tag == (void*)vf_table ? __s_args[0] : nullptr);
    __s_ret[0] = nullptr;
    if (e) {
        std::vector<double> v(vals + e->lo, vals + e->hi + 1);
        if (e->lo < 0 || e->hi >= n) die("vf_table range");
        __s_ret[0] = dnn(dFromTab(e, v));
    }
    return vals[idx];
}
static Node* condArg(void* self, bool c) {
    Node* e = (Node*)(__s_tag == self ? __s_args[0] : nullptr);
    if (e && e->sort == SI) e = bNot(iEQ(e, kI(0)));
    if (e && (bool)e->cv != c) die("condition mismatch");
    return e;
}
void vf_assume(bool c) {
    Node* e = condArg((void*)vf_assume, c);
    if (!e || isBC(e)) { if (!c) finish("assume"); return; }
    if (c) {
        // keep the assumption on the path without exploring its negation
        record(e, true, false);
        return;
    }
    // concretely false: find an input on this path prefix that satisfies it
    if (g_nrec >= g_depth) {
        Node* base = e; bool pos = true;
        if (e->op == NOT) { base = e->a; pos = false; }
        auto it = g_known->find(base->id);
        if (it == g_known->end()) {
            std::vector<i64> m;
            int r = query({{0, base, pos}}, &m);
            if (r == 1) { uint64_t h = g_hash; h ^= base->id * 2 + pos; h *= 1099511628211ULL; send('N', ser(m, g_nrec + 1, h)); }
            else if (r < 0) send('U', "assume");
        }
    }
    finish("assume");
}
static void violation(const char* msg, const std::vector<i64>& m) {
    std::string s = msg; s.push_back('\0');
    for (size_t i = 0; i < g_in->size(); i++) { char b[256]; snprintf(b, sizeof b, "%s=%lld;", (*g_in)[i].name.c_str(), (long long)(i < m.size() ? m[i] : 0)); s += b; }
    send('V', s);
}
static std::vector<i64> curInput() { std::vector<i64> v; for (auto& x : *g_in) v.push_back(x.val); return v; }
void vf_assert(bool c, const char* msg) {
    Node* e = condArg((void*)vf_assert, c);
    st_asserts++; g_assertmsgs->insert(msg);
    if (!c) { violation(msg, curInput()); finish("violation"); }
    if (!e || isBC(e)) return;
    Node* base = e; bool pos = true;
    if (e->op == NOT) { base = e->a; pos = false; }
    auto it = g_known->find(base->id);
    if (it != g_known->end()) return;
    if (g_nrec >= g_depth) {
        std::vector<i64> m;
        st_assertq++;
        int r = query({{0, base, !pos}}, &m);
        if (r == 1) { violation(msg, m); }
        else if (r < 0) send('U', msg);
        else (*g_known)[base->id] = pos;   // proved on this path
    } else (*g_known)[base->id] = pos;     // inside the prefix: proved by the run that found this path
}
void vf_reach(const char* l) { g_reach->insert(l); }
void vf_num_token(int id, double v) { Node* e = (Node*)(__s_tag == (void*)vf_num_token ? __s_args[1] : nullptr); if (e && e->sort != SD) e = nullptr; if (!g_tok) g_tok = new std::map<int, std::pair<double, Node*>>; (*g_tok)[id] = {v, e}; }
void vf_note(const char*, double) {}
int vf_concrete(int v) { Node* e = (Node*)(__s_tag == (void*)vf_concrete ? __s_args[0] : nullptr); if (e) pinNode(e, "vf_concrete"); __s_ret[0] = nullptr; return v; }
int vf_known(void) { __s_ret[0] = nullptr; return 0; }
void vf_skip(void) { finish("skip"); }
static double g_time = 0;
static double g_tick;
void vf_fix_time(double t) { g_time = t; }
void vf_tick(double dt) { g_tick = dt; }
double vf_time(void) { return g_time; }
void vf_opaque_text(void) { g_opaqueText = true; }
}
static const char* g_how = "ok";
static void finish(const char* how) {
    g_active = false;
    if (g_depth && !g_hashChecked && strcmp(how, "violation")) die("run ended before its prefix (%zu of %zu)", g_nrec, g_depth);
    std::string s = how; s.push_back('\0');
    uint64_t st[] = {st_queries, st_sat, st_unsat, st_unknown, st_asserts, st_assertq, st_pins, st_branches, st_nodes, (uint64_t)(st_solver * 1e6)};
    s.append((char*)st, sizeof st);
    send('S', s);
    for (auto& r : *g_reach) send('R', r);
    for (auto& r : *g_assertmsgs) send('A', r);
    for (auto& p : *g_pinwhy) { std::string t = p.first; t.push_back('\0'); t += std::to_string(p.second); send('P', t); }
    { std::string s2; auto v = curInput(); s2.append((char*)v.data(), v.size() * 8); send('I', s2); }
    { std::string f; int n = std::min(__s_nfn, 65536); for (int i = 0; i < n; i++) if (__s_fnflags[i]) f.append((char*)&i, 4); send('F', f); }
    send('E', "");
    _exit(0);
}
// fixed clock and entropy: the outcome of a run is a function of the inputs
extern "C" clock_t clock(void) noexcept { g_time += g_tick; return (clock_t)(g_time * CLOCKS_PER_SEC); }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { g_time += g_tick; t->tv_sec = 1700000000 + (time_t)g_time; t->tv_nsec = (long)((g_time - std::floor(g_time)) * 1e9); return 0; }
extern "C" time_t time(time_t* t) noexcept { time_t v = 1700000000; if (t) *t = v; return v; }

// ------------------------------------------------------------------ master
struct Item { std::vector<i64> in; size_t depth; uint64_t hash; };
struct Child { pid_t pid; int fd; std::string buf; Item it; double start; bool done = false; };
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

int main(int argc, char** argv) {
    int jobs = 8; double tlimit = 60; uint64_t maxPaths = 1000000; const char* outFile = "/dev/stdout"; double runLimit = 60; int maxViol = 1; size_t maxInputs = 400;
    uint64_t seed = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--jobs") jobs = atoi(argv[i + 1]);
        else if (a == "--time") tlimit = atof(argv[i + 1]);
        else if (a == "--max-paths") maxPaths = atoll(argv[i + 1]);
        else if (a == "--out") outFile = argv[i + 1];
        else if (a == "--run-limit") runLimit = atof(argv[i + 1]);
        else if (a == "--max-viol") maxViol = atoi(argv[i + 1]);
        else if (a == "--query-ms") g_qtimeout = atoi(argv[i + 1]);
        else if (a == "--seed") seed = atoll(argv[i + 1]);
    }
    g_cons = new std::unordered_map<Key, Node*, KeyH>; g_in = new std::vector<Input>; g_given = new std::vector<i64>; g_pc = new std::vector<PCI>; g_known = new std::unordered_map<uint32_t, bool>;
    g_pages = new std::unordered_map<uintptr_t, Page*>; g_reach = new std::set<std::string>; g_assertmsgs = new std::set<std::string>; g_pinwhy = new std::map<std::string, uint64_t>;
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Zs = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD"));
    Z3_solver_inc_ref(Z, Zs);
    Z3_params ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps);
    Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), g_qtimeout);
    Z3_solver_set_params(Z, Zs, ps);
    Zl = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LIA"));
    Z3_solver_inc_ref(Z, Zl);
    Z3_params pl = Z3_mk_params(Z); Z3_params_inc_ref(Z, pl);
    Z3_params_set_uint(Z, pl, Z3_mk_string_symbol(Z, "timeout"), 4000);
    Z3_solver_set_params(Z, Zl, pl);
    vf_setup();
    memset(__s_fnflags, 0, sizeof __s_fnflags);
    double t0 = now();
    std::vector<Item> queue; queue.push_back({{}, 0, 0});
    std::vector<Child*> kids;
    uint64_t paths = 0, assumeCut = 0, skips = 0, started = 0, unknown = 0, crashes = 0, timeouts = 0, viols = 0, tot[10] = {0};
    std::set<std::string> reach, asserts; std::map<std::string, uint64_t> reachN, pins; std::set<int> fns; std::vector<std::string> violMsgs; std::vector<std::vector<i64>> inputs, crashInputs; std::vector<std::string> errs; std::vector<std::string> crashKinds;
    bool complete = true; uint64_t rng = seed * 0x9e3779b97f4a7c15ULL + 1;
    while (!queue.empty() || !kids.empty()) {
        bool over = now() - t0 > tlimit || started >= maxPaths || (maxViol > 0 && (int)violMsgs.size() >= maxViol) || crashInputs.size() >= 3;
        if (over && !queue.empty()) { complete = false; queue.clear(); }
        while (!over && (int)kids.size() < jobs && !queue.empty()) {
            Item it = std::move(queue.back()); queue.pop_back();
            int fd[2];
            if (pipe(fd)) die("pipe");
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]); g_out = fd[1];
                for (auto* k : kids) close(k->fd);
                *g_given = it.in; g_depth = it.depth; g_expectHash = it.hash;
                struct rlimit rl = {(rlim_t)8 << 30, (rlim_t)8 << 30}; setrlimit(RLIMIT_AS, &rl);
                struct rlimit cl = {0, 0}; setrlimit(RLIMIT_CORE, &cl);
                g_active = true;
                vf_harness();
                finish("ok");
            }
            close(fd[1]);
            fcntl(fd[0], F_SETFL, O_NONBLOCK);
            fcntl(fd[0], F_SETPIPE_SZ, 1 << 20);
            Child* c = new Child; c->pid = pid; c->fd = fd[0]; c->it = std::move(it); c->start = now();
            kids.push_back(c); started++;
        }
        std::vector<struct pollfd> pf;
        for (auto* k : kids) pf.push_back({k->fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (size_t i = 0; i < kids.size();) {
            Child* k = kids[i];
            bool eof = false; char b[65536];
            while (true) { ssize_t n = read(k->fd, b, sizeof b); if (n > 0) k->buf.append(b, n); else { if (n == 0) eof = true; break; } }
            bool timedOut = !eof && now() - k->start > runLimit;
            if (timedOut) { kill(k->pid, SIGKILL); eof = true; }
            if (!eof) { i++; continue; }
            int st = 0; waitpid(k->pid, &st, 0); close(k->fd);
            // parse messages
            size_t p = 0; bool ended = false; std::string how; std::vector<i64> inp = k->it.in;
            while (p + 5 <= k->buf.size()) {
                char t = k->buf[p]; uint32_t n; memcpy(&n, &k->buf[p + 1], 4);
                if (p + 5 + n > k->buf.size()) break;
                std::string s = k->buf.substr(p + 5, n); p += 5 + n;
                switch (t) {
                    case 'N': { Item x; memcpy(&x.depth, &s[0], 8); memcpy(&x.hash, &s[8], 8); x.in.resize((s.size() - 16) / 8); memcpy(x.in.data(), &s[16], s.size() - 16); queue.push_back(std::move(x)); break; }
                    case 'U': unknown++; break;
                    case 'V': violMsgs.push_back(s); viols++; break;
                    case 'S': { how = s.c_str(); uint64_t v[10]; memcpy(v, &s[how.size() + 1], sizeof v); for (int j = 0; j < 10; j++) tot[j] += v[j]; break; }
                    case 'R': reach.insert(s); reachN[s]++; break;
                    case 'A': asserts.insert(s); break;
                    case 'P': { std::string w = s.c_str(); pins[w] += atoll(&s[w.size() + 1]); break; }
                    case 'I': { std::vector<i64> v(s.size() / 8); memcpy(v.data(), s.data(), s.size()); inp = v; break; }
                    case 'F': { for (size_t q = 0; q + 4 <= s.size(); q += 4) { int f; memcpy(&f, &s[q], 4); fns.insert(f); } break; }
                    case 'E': ended = true; break;
                }
            }
            if (ended) {
                if (how == "ok" || how == "violation") { paths++; rng = rng * 6364136223846793005ULL + 1442695040888963407ULL; if (inputs.size() < maxInputs) inputs.push_back(inp); else if ((rng >> 33) % paths < maxInputs) inputs[(rng >> 20) % maxInputs] = inp; }
                else if (how == "assume") assumeCut++; else skips++;
            } else if (timedOut) { timeouts++; complete = false; crashInputs.push_back(k->it.in); crashKinds.push_back("timeout"); }
            else {
                crashes++; complete = false;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) { errs.push_back("engine error"); if (errs.size() >= 3) { queue.clear(); } }
                else { crashInputs.push_back(k->it.in); crashKinds.push_back(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))); }
            }
            delete k; kids.erase(kids.begin() + i);
        }
    }
    if (unknown) complete = false;
    FILE* f = fopen(outFile, "w");
    if (!f) die("cannot write %s", outFile);
    fprintf(f, "{\n\"complete\": %s, \"paths\": %llu, \"runs\": %llu, \"assume_cut\": %llu, \"skipped\": %llu, \"unknown\": %llu, \"crashes\": %llu, \"timeouts\": %llu, \"engine_errors\": %zu,\n", complete && errs.empty() ? "true" : "false", (unsigned long long)paths, (unsigned long long)started, (unsigned long long)assumeCut, (unsigned long long)skips, (unsigned long long)unknown, (unsigned long long)crashes, (unsigned long long)timeouts, errs.size());
    fprintf(f, "\"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"asserts_reached\": %llu, \"assert_queries\": %llu, \"pins\": %llu, \"branches\": %llu, \"nodes\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f,\n", (unsigned long long)tot[0], (unsigned long long)tot[1], (unsigned long long)tot[2], (unsigned long long)tot[4], (unsigned long long)tot[5], (unsigned long long)tot[6], (unsigned long long)tot[7], (unsigned long long)tot[8], tot[9] / 1e6, now() - t0);
    fprintf(f, "\"reach\": {"); bool first = true; for (auto& r : reachN) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(f, "},\n\"asserts\": ["); first = true; for (auto& r : asserts) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(r).c_str()); first = false; }
    fprintf(f, "],\n\"pin_reasons\": {"); first = true; for (auto& r : pins) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(f, "},\n\"violations\": ["); first = true;
    for (auto& v : violMsgs) { std::string m = v.c_str(), in = v.substr(m.size() + 1); fprintf(f, "%s{\"msg\": \"%s\", \"inputs\": \"%s\"}", first ? "" : ",\n", jesc(m).c_str(), jesc(in).c_str()); first = false; }
    fprintf(f, "],\n\"crash_inputs\": ["); for (size_t i = 0; i < crashInputs.size(); i++) { fprintf(f, "%s{\"kind\": \"%s\", \"values\": [", i ? ", " : "", crashKinds[i].c_str()); for (size_t j = 0; j < crashInputs[i].size(); j++) fprintf(f, "%s%lld", j ? "," : "", (long long)crashInputs[i][j]); fprintf(f, "]}"); }
    fprintf(f, "],\n\"sample_inputs\": ["); for (size_t i = 0; i < inputs.size(); i++) { fprintf(f, "%s[", i ? ", " : ""); for (size_t j = 0; j < inputs[i].size(); j++) fprintf(f, "%s%lld", j ? "," : "", (long long)inputs[i][j]); fprintf(f, "]"); }
    fprintf(f, "],\n\"functions\": ["); first = true; for (int i : fns) { fprintf(f, "%s\"%s\"", first ? "" : ",\n", jesc(__s_fnnames[i]).c_str()); first = false; }
    fprintf(f, "]\n}\n");
    fclose(f);
    return 0;
}
