/*META
{"bounds": ["hash maps over any set of keys (0 to 3 entries, thorough 4) with keys in any slots of an array of 16 objects of 24 bytes (or of 1 byte), any values in [-9,9], set up once or twice and copied, asked for every key; queues of capacity 1 to 3 with 5 pushes (7) of any values in [-8,8] in steps of one, set up twice; partitions of 5 elements with any 3 (4) unions; graphs of 4 nodes with any 4 edges (5) of any weights in [0,3] and any graph edges, self-loops and parallel edges included; sets and maps over 4 keys; ranges, minima, maxima and searches over vectors of 3 (4) values; two-way maps of 3 pairs; strings of 4 characters out of blank, letter, dot, slash, CR and LF"],
 "assumptions": ["hash map keys differ from the null pointer", "averages are compared with the exact quotient within 1e-9"],
 "reach": ["empty map","collision","copy","overflow","joined","tree","forest","cycle","common","trim","queue","range","two-way"]}
*/
#include "lib.h"
#include "utility/union_find.h"
extern "C" void vf_setup() {}
struct Obj { double a, b, c; };
static Obj pool[16];
static char bytes[16];
template <class T> static void hash(T* base, int sz) {
    const int N = TQ(3, 4);
    static const char* K[4] = {"k0", "k1", "k2", "k3"}; static const char* V[4] = {"v0", "v1", "v2", "v3"};
    int n = vf_concrete(vf_int("n", 0, N));
    int v[4], kk[4];
    std::unordered_map<T*, double> m;
    for (int i = 0; i < n; i++) {
        kk[i] = vf_concrete(vf_int(K[i], i ? kk[i - 1] + 1 : 0, 15 - (n - 1 - i)));
        if (n == N) { static const int far[6] = {0, 1, 5, 8, 9, 15}; int ok = 0; for (int f : far) ok |= f == kk[i]; if (!ok) vf_skip(); }
        v[i] = vf_int(V[i], -9, 9);
        m[base + kk[i]] = v[i];
    }
    utility::FixedSizeHashMap<T*, double> h;
    int twice = vf_concrete(vf_int("twice", 0, 1));
    if (twice) { std::unordered_map<T*, double> o; for (int i = 0; i < 16; i += 3) o[base + i] = 77; h.setup(o, sz); }
    h.setup(m, sz);
    auto c = h;
    utility::FixedSizeHashMap<T*, double> d(m, sz);
    if (n == 0) vf_reach("empty map");
    std::set<size_t> slots;
    for (int i = 0; i < n; i++) slots.insert(((size_t)(base + kk[i]) >> h.shift_size()) & (h.bucket_size() - 1));
    if ((int)slots.size() < n) vf_reach("collision");
    for (int k = 0; k < 16; k++) {
        double want = 0;
        for (int i = 0; i < n; i++) if (kk[i] == k) want = v[i];
        vf_assert(h.at(base + k) == want, "the value of a key");
        vf_assert(c.at(base + k) == want, "the value of a key in a copy");
        vf_assert(d.at(base + k) == want, "the value of a key of a map made in one step");
    }
    vf_reach("copy");
}
static void queue() {
    const int P = TQ(5, 7);
    static const char* V[7] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6"};
    int cap = vf_concrete(vf_int("cap", 1, 3)), n = vf_concrete(vf_int("n", 1, P)), twice = vf_concrete(vf_int("twice", 0, 1));
    utility::FixedSizeQueue<double> q(twice ? 2 : cap);
    if (twice) { q.push(100); q.push(-100); q.setup(cap); }
    vf_assert(q.size() == 0 && q.max_size() == cap, "a new queue");
    int v[7];
    for (int i = 0; i < n; i++) {
        v[i] = vf_int(V[i], -8, 8);
        q.push(v[i]);
        int from = std::max(0, i + 1 - cap), sum = 0, mn = v[from], mx = v[from], k = 0;
        vf_assert(q.size() == i + 1 - from, "the size of a queue");
        int ok = 1;
        for (int j = from; j <= i; j++, k++) { sum += v[j]; mn = v[j] < mn ? v[j] : mn; mx = v[j] > mx ? v[j] : mx; ok &= q.queue()[k] == v[j]; }
        vf_assert(ok, "the contents of a queue");
        if (from) vf_reach("overflow");
        vf_assert(q.min() == mn, "minimum of a queue");
        vf_assert(q.max() == mx, "maximum of a queue");
        if (i == n - 1) { double a = q.average() * k - sum; vf_assert((a < 1e-9) & (a > -1e-9), "average of a queue"); }
    }
    vf_reach("queue");
}
static void unions() {
    const int U = TQ(3, 4);
    static const char* A[4] = {"a0", "a1", "a2", "a3"}; static const char* B[4] = {"b0", "b1", "b2", "b3"};
    std::unordered_set<int> e = {0, 1, 2, 3, 4};
    utility::UnionFind<int> uf(e);
    int g[5] = {0, 1, 2, 3, 4};
    for (int i = 0; i < U; i++) {
        int a = vf_concrete(vf_int(A[i], 0, 4)), b = vf_concrete(vf_int(B[i], 0, 4));
        int joined = uf.unite(a, b);
        vf_assert(joined == (g[a] != g[b]), "joining two sets reports whether they were separate");
        int from = g[b], to = g[a];
        for (int& x : g) if (x == from) x = to;
        if (i + 1 < U) continue;
        for (int x = 0; x < 5; x++) {
            vf_assert(g[uf.root(x)] == g[x], "the representative lies in another set");
            for (int y = 0; y < 5; y++) vf_assert(uf.is_same(x, y) == (g[x] == g[y]), "two elements are in the same set exactly if joined");
        }
    }
    vf_reach("joined");
}
static int comp(int n, const std::vector<std::pair<int, int>>& es) {   // number of components
    int g[4] = {0, 1, 2, 3}, c = n;
    for (auto& e : es) { int f = g[e.first], t = g[e.second]; if (f != t) c--; for (int& x : g) if (x == f) x = t; }
    return c;
}
static void graph() {
    const int E = TQ(4, 5);
    static const char* A[5] = {"a0", "a1", "a2", "a3", "a4"}; static const char* W[5] = {"w0", "w1", "w2", "w3", "w4"};
    static const int eu[11] = {0, 0, 0, 1, 1, 2, 1, 3, 2, 2, 3}, ev[11] = {1, 2, 3, 2, 3, 3, 1, 0, 0, 1, 2};
    utility::graph::Graph<int> G;
    for (int i = 0; i < 4; i++) G.add_node(i);
    int ed[5], w[5];
    for (int i = 0; i < E; i++) {
        ed[i] = vf_concrete(vf_int(A[i], i == 0 ? 0 : (i == 1 ? 0 : ed[i - 1]), 10)); w[i] = vf_int(W[i], 0, 3);
        if (i & 1) G.add_edge(eu[ed[i]], ev[ed[i]], w[i]); else G.add_edge(utility::graph::Edge<int>(eu[ed[i]], ev[ed[i]], w[i]));
    }
    for (int i = 0; i < E; i++) for (int x : {eu[ed[i]], ev[ed[i]]}) vf_assert(G.nodes().at(x).edge_indices().count(i) == 1, "a node knows its edges");
    auto T = G.minimum_spanning_tree();
    std::vector<std::pair<int, int>> all, tr;
    for (int i = 0; i < E; i++) all.push_back({eu[ed[i]], ev[ed[i]]});
    double tw = 0;
    for (auto& e : T.edges()) {
        tr.push_back(e.node_keys()); tw = tw + e.weight();
        int in = 0;
        for (int i = 0; i < E; i++) in |= (eu[ed[i]] == e.node_keys().first) & (ev[ed[i]] == e.node_keys().second) & (w[i] == e.weight());
        vf_assert(in, "an edge of the tree is not an edge of the graph");
    }
    int c = comp(4, all);
    vf_assert(T.nodes().size() == 4, "the tree has other nodes");
    vf_assert(comp(4, tr) == c, "the tree connects what the graph connects");
    vf_assert((int)tr.size() == 4 - c, "the tree has cycles");
    vf_reach(c == 1 ? "tree" : "forest");
    if (E > 4 - c) vf_reach("cycle");
    for (int s = 0; s < (1 << E); s++) {   // any other spanning subset weighs at least as much
        std::vector<std::pair<int, int>> sub; int sw = 0, k = 0;
        for (int i = 0; i < E; i++) if (s >> i & 1) { sub.push_back(all[i]); sw += w[i]; k++; }
        if (k != 4 - c || comp(4, sub) != c) continue;
        vf_assert(tw <= sw, "the tree is not the lightest");
    }
}
static void sets() {
    static const char* A[4] = {"a0", "a1", "a2", "a3"}; static const char* B[4] = {"b0", "b1", "b2", "b3"}; static const char* C[4] = {"c0", "c1", "c2", "c3"}; static const char* D[4] = {"d0", "d1", "d2", "d3"};
    std::unordered_map<int, int> f, g; std::unordered_set<int> s, t;
    int x[4], y[4], hx[4], hy[4], l1 = 0, l0 = 0;
    for (int i = 0; i < 4; i++) {
        hx[i] = vf_concrete(vf_int(A[i], 0, 1)); hy[i] = vf_concrete(vf_int(B[i], 0, 1));
        x[i] = hx[i] ? vf_int(C[i], -3, 3) : 0; y[i] = hy[i] ? vf_int(D[i], -3, 3) : 0;
        if (hx[i]) f[i] = x[i], s.insert(i);
        if (hy[i]) g[i] = y[i], t.insert(i);
        int d = x[i] - y[i]; l1 += d < 0 ? -d : d;
        l0 += hx[i] & hy[i] ? x[i] != y[i] : hx[i] | hy[i];
        if (hx[i] & hy[i]) vf_reach("common");
    }
    vf_assert(utility::distance_l1(f, g) == l1, "distance of two sparse vectors");
    vf_assert(utility::distance_l0(f, g) == l0, "number of differences of two sparse vectors");
    auto in = utility::intersection_set(s, t), un = utility::union_set(s, t), in2 = s, un2 = s;
    utility::update_intersection_set(&in2, t); utility::update_union_set(&un2, t);
    size_t ni = 0, nu = 0;
    for (int i = 0; i < 4; i++) {
        ni += hx[i] & hy[i]; nu += hx[i] | hy[i];
        vf_assert((int)in.count(i) == (hx[i] & hy[i]) && (int)in2.count(i) == (hx[i] & hy[i]), "intersection");
        vf_assert((int)un.count(i) == (hx[i] | hy[i]) && (int)un2.count(i) == (hx[i] | hy[i]), "union");
    }
    vf_assert(in.size() == ni && in2.size() == ni && un.size() == nu && un2.size() == nu, "sizes of intersection and union");
    auto v = utility::to_vector(s); auto b = utility::from_vector(v);
    vf_assert(v.size() == s.size() && b == s, "set to vector and back");
    auto p = utility::to_vector_pair(f);
    int ok = p.first.size() == f.size() && p.second.size() == f.size();
    for (size_t i = 0; ok && i < p.first.size(); i++) ok &= x[p.first[i]] == p.second[i];
    vf_assert(ok, "map to two vectors");
}
static void ranges() {
    const int N = TQ(3, 4);
    static const char* V[4] = {"v0", "v1", "v2", "v3"};
    std::vector<int> v; utility::Range<double> r;
    int mn = 1000, mx = -1000, ma = 0;
    for (int i = 0; i < N; i++) { int a = vf_int(V[i], -4, 4); v.push_back(a); r.update(a); mn = a < mn ? a : mn; mx = a > mx ? a : mx; int b = a < 0 ? -a : a; ma = b > ma ? b : ma; }
    vf_assert((r.min() == mn) & (r.max() == mx) & (r.range() == mx - mn), "range");
    vf_assert(r.max_abs() == ma, "largest magnitude of a range");
    vf_assert((utility::min(v) == mn) & (utility::max(v) == mx) & (utility::max_abs(v) == ma), "extremes of a vector");
    int i = utility::argmin(v), j = utility::argmax(v);
    vf_assert(i >= 0 && i < N && v[i] == mn, "place of the minimum");
    vf_assert(j >= 0 && j < N && v[j] == mx, "place of the maximum");
    int c = 0, dup = 0;
    for (int k = 0; k < N; k++) { c += v[k] == v[0]; int seen = 0; for (int l = 0; l < k; l++) seen |= v[k] == v[l]; dup += seen; }
    vf_assert(utility::count(v, v[0]) == c, "count");
    vf_assert(utility::count_duplicate(v) == dup, "count of repetitions");
    int lo = vf_concrete(vf_int("lo", -2, 2)), n = vf_concrete(vf_int("n", 0, 3));
    auto s = utility::sequence(lo, lo + n), s0 = utility::sequence(n);
    vf_assert((int)s.size() == n && (int)s0.size() == n, "length of a sequence");
    for (int k = 0; k < n; k++) vf_assert(s[k] == lo + k && s0[k] == k, "sequence");
    vf_reach("range");
}
static void twoway() {
    static const char* K[3] = {"k0", "k1", "k2"}; static const char* V[3] = {"v0", "v1", "v2"};
    utility::BidirectionalMap<int, int> m;
    vf_assert(m.empty() && m.size() == 0, "a new two-way map");
    int k[3], v[3];
    for (int i = 0; i < 3; i++) {
        k[i] = vf_concrete(vf_int(K[i], 0, 3)); v[i] = vf_concrete(vf_int(V[i], 0, 3));
        for (int j = 0; j < i; j++) vf_assume((k[i] != k[j]) & (v[i] != v[j]));
        m.insert(k[i], v[i]);
    }
    vf_assert(m.size() == 3 && !m.empty() && m.forward().size() == 3 && m.reverse().size() == 3, "size of a two-way map");
    for (int i = 0; i < 3; i++) vf_assert(m.forward_at(k[i]) == v[i] && m.reverse_at(v[i]) == k[i], "two-way map");
    vf_reach("two-way");
}
static void strings() {
    static const char* C[4] = {"c0", "c1", "c2", "c3"};
    static const char T[6] = {' ', 'a', '.', '/', '\r', '\n'};
    int n = vf_concrete(vf_int("n", 0, 4));
    std::string s;
    for (int i = 0; i < n; i++) s += T[vf_concrete(vf_int(C[i], 0, 5))];
    size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    vf_assert(utility::trim(s) == (a == std::string::npos ? "" : s.substr(a, b - a + 1)), "trim");
    if (a != std::string::npos && (a > 0 || b + 1 < s.size())) vf_reach("trim");
    std::string d, e;
    for (char c : s) { if (c != ' ') d += c; if (c != '\r' && c != '\n') e += c; }
    vf_assert(utility::delete_space(s) == d, "blanks deleted");
    vf_assert(utility::delete_crlf(s) == e, "line ends deleted");
    vf_assert(utility::has_space(s) == (d.size() != s.size()), "blanks found");
}
extern "C" void vf_harness() {
    switch (vf_scn(9)) {
        case 0: hash(pool, sizeof(Obj)); break;
        case 1: hash(bytes, 1); break;
        case 2: queue(); break;
        case 3: unions(); break;
        case 4: graph(); break;
        case 5: sets(); break;
        case 6: ranges(); break;
        case 7: twoway(); break;
        case 8: strings(); break;
    }
}
