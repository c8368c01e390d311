// P23: betweenness centrality against Brandes / path counting.
#include "graphs.hpp"
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = bool;
#else
using T = float;
#endif
struct Dep { std::vector<double> delta; std::vector<double> sigma, cnt; std::vector<Idx> d; };
static Dep brandes(Graph const &g, Idx s)
{
    Idx n = g.n; Dep r; r.d = hops(g, {s}); r.sigma.assign(n, 0); r.delta.assign(n, 0); r.cnt.assign(n, 0); r.sigma[s] = 1;
    std::vector<Idx> o; for (Idx i = 0; i < n; ++i) if (r.d[i] != NOPE) o.push_back(i);
    std::stable_sort(o.begin(), o.end(), [&](Idx a, Idx b) { return r.d[a] < r.d[b]; });
    for (Idx u : o) for (Idx v = 0; v < n; ++v) if (g.has(u, v) && r.d[v] == r.d[u] + 1) r.sigma[v] += r.sigma[u];
    for (auto it = o.rbegin(); it != o.rend(); ++it) for (Idx v = 0; v < n; ++v) if (g.has(*it, v) && r.d[v] == r.d[*it] + 1)
    { r.delta[*it] += r.sigma[*it] / r.sigma[v] * (1 + r.delta[v]); r.cnt[*it] += 1 + r.cnt[v]; }   // cnt: shortest-path continuations
    r.delta[s] = 0;
    return r;
}
static void one(Rng &r, uint64_t cas)
{
    GOpt o; o.nmax = 20; o.nbig = 70; o.directed = r.below(3) != 0; Graph g = ggraph(r, o);
    // more shortest paths than 32 bits can count; only for the variants that count in the graph's own type
    const bool huge = std::is_floating_point_v<T> && cas % 300 == 7;
    if (huge) { Idx wdt = 2 + r.below(2), dep = wdt == 2 ? 33 + r.below(2) : 21; g = Graph(wdt * dep); g.kind = "many-paths"; for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (j / wdt == i / wdt + 1) g.add(i, j); relabel(g, r); count("graphs with more than 2^32 shortest paths"); }
    Idx n = g.n; auto G = gmatrix<T>(g, r);
    std::vector<Dep> D; for (Idx s = 0; s < n; ++s) D.push_back(brandes(g, s));
    Idx ecc = 0; std::vector<Idx> src; bool all = r.below(4) == 0;
    if (all) for (Idx i = 0; i < n; ++i) src.push_back(i); else for (Idx k = 1 + r.below(5); k > 0; --k) src.push_back(r.below(n));
    for (Idx k = src.size(); k > 1; --k) std::swap(src[k - 1], src[r.below(k)]);
    std::vector<double> want(n, 0), exact(n, 0); std::string in = g.s() + " sources=";
    for (Idx s : src) { in += std::to_string(s) + " "; for (Idx v = 0; v < n; ++v) want[v] += D[s].delta[v]; for (Idx x : D[s].d) if (x != NOPE) ecc = std::max(ecc, x); }
    for (Idx s = 0; s < n; ++s) for (Idx v = 0; v < n; ++v) exact[v] += D[s].delta[v];
    auto ck = [&](const char *w, auto const &got, std::vector<double> const &x, double rel, double ab) {
        count(w); ++ctx().observations;
        if (got.size() != n) { violation(w, "wrong result size\n" + in); return; }
        for (Idx v = 0; v < n; ++v) if (!close(got[v], x[v], rel, ab)) { violation(w, fmt("vertex %lu: %.9g, expected %.9g\n", (unsigned long)v, (double)got[v], x[v]) + in); return; }
    };
    double fr = 2e-5, fa = 2e-6 * (double)n * (double)(src.size() + 4);
    if (!huge) {
    label("batch"); ck("vertex_betweenness_centrality_batch", algorithms::vertex_betweenness_centrality_batch(G, src), want, fr, fa);
    label("batch_alt"); ck("vertex_betweenness_centrality_batch_alt", algorithms::vertex_betweenness_centrality_batch_alt(G, src), want, fr, fa);
    label("batch_alt_trans"); ck("vertex_betweenness_centrality_batch_alt_trans", algorithms::vertex_betweenness_centrality_batch_alt_trans(G, src), want, fr, fa);
    label("batch_old"); ck("vertex_betweenness_centrality_batch_old", algorithms::vertex_betweenness_centrality_batch_old(G, src), want, 1e-9, 1e-9 * n * (src.size() + 4));
    label("batch_alt_trans_v2"); ck("vertex_betweenness_centrality_batch_alt_trans_v2", algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(G, src), want, fr, fa);
    auto vec = [&](grb::Vector<float> const &v) { std::vector<double> x(v.size(), 0); for (Idx i = 0; i < v.size(); ++i) if (v.hasElement(i)) x[i] = v.extractElement(i); return x; };
    { grb::Vector<float> b(n); if (r.below(2)) b.setElement(r.below(n), 3); label("BC_update_appendixB5"); algorithms::BC_update_appendixB5(b, G, src); ck("BC_update_appendixB5", vec(b), want, fr, fa); }
    { grb::Vector<float> b(n); label("BC_appendixB4"); algorithms::BC_appendixB4(b, G, src[0]); ck("BC_appendixB4", vec(b), D[src[0]].delta, fr, fa); }
    }
    if constexpr (std::is_floating_point_v<T>)
    if (!huge || sizeof(T) == 8) { label("vertex_betweenness_centrality"); bool f = sizeof(T) == 4; ck("vertex_betweenness_centrality", algorithms::vertex_betweenness_centrality(G), exact, f ? 2e-5 : 1e-9, (f ? 2e-6 : 1e-9) * (double)n * (double)(n + 4)); }
    if constexpr (!std::is_same_v<T, bool>)
    {
        MM<T> x(n, n);
        for (Idx u = 0; u < n; ++u) for (Idx v = 0; v < n; ++v) if (g.has(u, v))
        { double c = 0; for (Idx s = 0; s < n; ++s) if (D[s].d[u] != NOPE && D[s].d[v] == D[s].d[u] + 1) c += D[s].sigma[u] * (1 + D[s].cnt[v]); x.set(u, v, (T)c); }
        label("edge_betweenness_centrality"); auto S = algorithms::edge_betweenness_centrality(G); count("edge_betweenness_centrality"); ++ctx().observations;
        std::string e; if (S.nvals() != x.nvals()) e = fmt("nvals %lu, expected %lu", (unsigned long)S.nvals(), (unsigned long)x.nvals());
        for (Idx u = 0; u < n && e.empty(); ++u) for (Idx v = 0; v < n && e.empty(); ++v)
        {
            bool h = S.hasElement(u, v); if (h != x.at(u, v).h) e = fmt("(%lu,%lu) presence", (unsigned long)u, (unsigned long)v);
            else if (h && !close((double)S.extractElement(u, v), (double)x.at(u, v).v, sizeof(T) == 4 && !std::is_integral_v<T> ? 2e-5 : 1e-9, 1e-9)) e = fmt("(%lu,%lu) = %g, expected %g", (unsigned long)u, (unsigned long)v, (double)S.extractElement(u, v), (double)x.at(u, v).v);
        }
        if (!e.empty()) violation("edge_betweenness_centrality", e + "\n" + in);
    }
    double tot = 0; for (double v : exact) tot += v; double paths = 0; for (auto &d : D) for (double v : d.sigma) paths = std::max(paths, v);
    count(paths > 1 ? "graphs with tied shortest paths" : "graphs without ties"); count(fmt("depth %lu", (unsigned long)std::min<Idx>(ecc, 12)));
    uint64_t h = g.key(); for (Idx s : src) h = mix(h ^ s);
    seen(h, tot > 0); if (tot > 0) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
