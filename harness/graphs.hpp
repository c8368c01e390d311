// Graph generators and plain reference implementations for the algorithm drivers.
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <deque>
#include <queue>
#ifndef PROFILE
#define PROFILE 1
#endif
namespace vh
{
using I64 = int64_t;
struct Graph
{
    Idx n = 0;
    std::vector<char> e;                // n*n adjacency
    std::vector<double> w;              // n*n weights (1 when unweighted)
    std::string kind;
    Graph() {}
    explicit Graph(Idx k) : n(k), e(k * k, 0), w(k * k, 1) {}
    bool has(Idx i, Idx j) const { return e[i * n + j]; }
    double wt(Idx i, Idx j) const { return w[i * n + j]; }
    void add(Idx i, Idx j, double x = 1) { e[i * n + j] = 1; w[i * n + j] = x; }
    void del(Idx i, Idx j) { e[i * n + j] = 0; w[i * n + j] = 1; }
    Idx m() const { Idx k = 0; for (char c : e) k += c != 0; return k; }
    std::string s() const
    {
        std::string o = kind + fmt(" n=%lu:", (unsigned long)n);
        for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (has(i, j)) { o += fmt(" %lu>%lu", (unsigned long)i, (unsigned long)j); if (wt(i, j) != 1) o += fmt("(%g)", wt(i, j)); }
        return o;
    }
    uint64_t key() const { uint64_t h = mix(n + 3); for (size_t k = 0; k < e.size(); ++k) if (e[k]) h = mix(h ^ (k + 1) ^ ((uint64_t)(int64_t)(w[k] * 8) << 32)); return h; }
};
// random relabelling, so that structure is not correlated with vertex order
inline void relabel(Graph &g, Rng &r)
{
    std::vector<Idx> p(g.n); for (Idx i = 0; i < g.n; ++i) p[i] = i;
    for (Idx k = g.n; k > 1; --k) std::swap(p[k - 1], p[r.below(k)]);
    Graph h(g.n); h.kind = g.kind;
    for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j)) h.add(p[i], p[j], g.wt(i, j));
    g = h;
}
inline Idx gsize(Rng &r, Idx mx) { switch (r.below(8)) { case 0: return 1 + r.below(2); case 1: case 2: return 2 + r.below(4); case 3: case 4: case 5: return 4 + r.below(8); case 6: return 8 + r.below(10); default: return r.below(4) ? 10 + r.below(14) : mx; } }
struct GOpt { bool directed = true, loops = false, connected = false; Idx nmin = 1, nmax = 40, nbig = 0; uint64_t big1in = 40; };
inline Graph ggraph(Rng &r, GOpt o = {})
{
    Idx n = gsize(r, o.nmax); if (n < o.nmin) n = o.nmin; if (n > o.nmax) n = o.nmax;
    int k = r.below(12);
    // now and then a graph past the sizes where 64-bit words, unrolled loops and small buffers end; sparse kinds only
    if (o.nbig && r.below(o.big1in) == 0) { static const int sp[] = {1, 1, 2, 3, 4, 6, 6, 7, 9, 11}; k = sp[r.below(10)]; n = r.below(4) ? o.nmax + r.below(o.nbig - o.nmax + 1) : (r.below(2) && o.nbig >= 66 ? 63 + r.below(4) : o.nbig); count("graphs of more than usual size"); }
    Graph g(n);
    static const char *names[] = {"random", "random-sparse", "path", "cycle", "star", "complete", "tree", "layered", "components", "grid", "bipartite", "clique-chain"};
    g.kind = names[k];
    auto E = [&](Idx i, Idx j) { if (i < n && j < n && i != j) { g.add(i, j); if (!o.directed) g.add(j, i); } };
    switch (k)
    {
    case 0: { double d = 0.1 + 0.1 * r.below(9); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (r.chance(d)) E(i, j); break; }
    case 1: for (Idx t = r.below(2 * n + 1); t > 0; --t) E(r.below(n), r.below(n)); break;
    case 2: for (Idx i = 0; i + 1 < n; ++i) E(i, i + 1); break;
    case 3: for (Idx i = 0; i < n; ++i) E(i, (i + 1) % n); break;
    case 4: for (Idx i = 1; i < n; ++i) { E(0, i); if (o.directed && r.below(2)) E(i, 0); } break;
    case 5: for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) E(i, j); break;
    case 6: for (Idx i = 1; i < n; ++i) E(r.below(i), i); break;
    case 7:     // layered graph with several equal-length paths
    {
        Idx wdt = 1 + r.below(3);
        for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (j / wdt == i / wdt + 1 && r.below(5)) E(i, j);
        break;
    }
    case 8: { Idx c = 2 + r.below(3); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (i % c == j % c && r.below(2)) E(i, j); break; }
    case 9: { Idx wd = 2 + r.below(4); for (Idx i = 0; i < n; ++i) { if ((i + 1) % wd) E(i, i + 1); E(i, i + wd); } break; }
    case 10: { Idx h = n / 2; for (Idx i = 0; i < h; ++i) for (Idx j = h; j < n; ++j) if (r.below(3)) E(i, j); break; }
    default: { Idx c = 3 + r.below(3); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (i / c == j / c) E(i, j); for (Idx i = c; i < n; i += c) E(i - 1, i); break; }
    }
    // noise: extra and missing edges, back edges, loops, isolated vertices
    if (r.below(2)) for (Idx t = r.below(n / 2 + 1); t > 0; --t) E(r.below(n), r.below(n));
    if (r.below(3) == 0) for (Idx t = r.below(n / 2 + 1); t > 0; --t) { Idx i = r.below(n), j = r.below(n); g.del(i, j); if (!o.directed) g.del(j, i); }
    if (r.below(4) == 0) { Idx v = r.below(n); for (Idx i = 0; i < n; ++i) { g.del(i, v); g.del(v, i); } }
    if (o.connected)
    {   // join each component to what came before
        std::vector<char> s(n, 0);
        auto reach = [&](Idx a) { std::deque<Idx> q{a}; s[a] = 1; while (!q.empty()) { Idx u = q.front(); q.pop_front(); for (Idx v = 0; v < n; ++v) if ((g.has(u, v) || g.has(v, u)) && !s[v]) { s[v] = 1; q.push_back(v); } } };
        reach(0);
        for (Idx i = 1; i < n; ++i) if (!s[i]) { E(r.below(2) ? 0 : r.below(i), i); reach(i); }
    }
    if (o.loops && r.below(3) == 0) for (Idx t = 1 + r.below(n); t > 0; --t) { Idx v = r.below(n); g.add(v, v); }
    relabel(g, r);
    return g;
}
// strongly connected: add a random Hamiltonian cycle
inline void strongly(Graph &g, Rng &r)
{
    std::vector<Idx> p(g.n); for (Idx i = 0; i < g.n; ++i) p[i] = i;
    for (Idx k = g.n; k > 1; --k) std::swap(p[k - 1], p[r.below(k)]);
    for (Idx i = 0; i < g.n && g.n > 1; ++i) g.add(p[i], p[(i + 1) % g.n]);
}
template <class T> grb::Matrix<T> gmatrix(Graph const &g, Rng &r)
{
    MM<T> x(g.n, g.n);
    for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j)) x.set(i, j, static_cast<T>(g.wt(i, j)));
    return mk(x, r);
}
constexpr Idx NOPE = ~(Idx)0;
// hop distances from a set of roots (NOPE when unreachable)
inline std::vector<Idx> hops(Graph const &g, std::vector<Idx> const &roots)
{
    std::vector<Idx> d(g.n, NOPE); std::deque<Idx> q;
    for (Idx s : roots) if (d[s] == NOPE) { d[s] = 0; q.push_back(s); }
    while (!q.empty()) { Idx u = q.front(); q.pop_front(); for (Idx v = 0; v < g.n; ++v) if (g.has(u, v) && d[v] == NOPE) { d[v] = d[u] + 1; q.push_back(v); } }
    return d;
}
// Bellman-Ford from a set of roots; returns false when a negative cycle is reachable
inline bool bford(Graph const &g, std::vector<Idx> const &roots, std::vector<double> &d)
{
    d.assign(g.n, INFINITY); for (Idx s : roots) d[s] = 0;
    for (Idx k = 0; k < g.n; ++k)
    {
        bool ch = false;
        for (Idx u = 0; u < g.n; ++u) if (d[u] != INFINITY) for (Idx v = 0; v < g.n; ++v) if (g.has(u, v) && d[u] + g.wt(u, v) < d[v]) { d[v] = d[u] + g.wt(u, v); ch = true; }
        if (!ch) return true;
    }
    for (Idx u = 0; u < g.n; ++u) if (d[u] != INFINITY) for (Idx v = 0; v < g.n; ++v) if (g.has(u, v) && d[u] + g.wt(u, v) < d[v]) return false;
    return true;
}
inline bool close(double a, double b, double rel = 1e-9, double ab = 1e-9) { return a == b || std::fabs(a - b) <= ab + rel * std::max(std::fabs(a), std::fabs(b)); }
} // namespace vh
