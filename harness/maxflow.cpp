// P27: maximum flow value against an independent Edmonds-Karp, cross-checked by its minimum cut.
#include "graphs.hpp"
#include <algorithms/maxflow.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = float;
#else
using T = uint64_t;
#endif
struct Flow { double value = 0; Idx rounds = 0; bool cut_ok = false; };
// breadth-first augmentation, ties to the lowest-numbered parent
static Flow ek(Graph const &g, Idx s, Idx t)
{
    Idx n = g.n; std::vector<double> c(n * n, 0); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j) && i != j) c[i * n + j] = g.wt(i, j);
    std::vector<double> f = c; Flow out; std::vector<Idx> par(n);
    for (;;)
    {
        par.assign(n, NOPE); par[s] = s; std::vector<Idx> fr{s};
        while (par[t] == NOPE && !fr.empty())
        {
            std::vector<Idx> nx(n, NOPE); for (Idx u : fr) for (Idx v = 0; v < n; ++v) if (f[u * n + v] > 0 && par[v] == NOPE && u < nx[v]) nx[v] = u;
            fr.clear(); for (Idx v = 0; v < n; ++v) if (nx[v] != NOPE) { par[v] = nx[v]; fr.push_back(v); }
        }
        if (par[t] == NOPE) break;
        double q = INFINITY; for (Idx v = t; v != s; v = par[v]) q = std::min(q, f[par[v] * n + v]);
        for (Idx v = t; v != s; v = par[v]) { f[par[v] * n + v] -= q; f[v * n + par[v]] += q; }
        out.value += q; ++out.rounds;
    }
    double cut = 0; for (Idx u = 0; u < n; ++u) for (Idx v = 0; v < n; ++v) if (par[u] != NOPE && par[v] == NOPE) cut += c[u * n + v];
    out.cut_ok = cut == out.value; return out;
}
static Graph hard(Rng &r, Idx &s, Idx &t)
{
    // search for networks whose shortest augmenting paths are many compared with their edges
    Idx n = 6 + r.below(8); Graph g(n); g.kind = "climbed"; s = 0; t = n - 1; double d = 0.15 + 0.05 * r.below(7);
    auto ok = [&](Idx i, Idx j) { return i != j && j != s && i != t; };
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (ok(i, j) && r.chance(d)) g.add(i, j, 1 + r.below(20));
    int64_t cur = (int64_t)ek(g, s, t).rounds - (int64_t)g.m();
    for (int st = 0; st < 1500; ++st)
    {
        Graph q = g;
        for (int k = 1 + r.below(3); k > 0; --k) { Idx i = r.below(n), j = r.below(n); if (!ok(i, j)) continue; switch (r.below(4)) { case 0: q.del(i, j); break; case 1: q.add(i, j, 1 + r.below(40)); break; default: if (q.has(i, j)) q.add(i, j, std::max(1., q.wt(i, j) + r.range(-2, 2))); } }
        int64_t v = (int64_t)ek(q, s, t).rounds - (int64_t)q.m(); if (v >= cur) { cur = v; g = q; }
    }
    return g;
}
static Graph known(Rng &r)
{
    // 51 shortest augmenting paths over 42 edges
    static const int E[][3] = {{0,1,13},{0,2,2},{0,5,15},{0,6,22},{0,7,11},{0,8,45},{1,2,5},{1,3,1},{1,4,2},{1,7,8},{1,9,6},{1,10,2},{2,3,2},{2,9,1},{2,11,14},{3,9,36},{3,11,5},{4,2,1},{4,3,28},{4,9,2},{4,11,15},{5,1,2},{5,2,4},{5,4,1},{5,7,32},{5,9,1},{6,2,1},{6,3,1},{6,4,6},{6,9,2},{6,10,24},{7,2,1},{7,3,2},{7,4,2},{7,9,1},{7,10,35},{7,11,3},{8,2,9},{8,4,38},{8,6,3},{9,11,15},{10,11,58}};
    Graph g(12); g.kind = "many-paths"; double k = (double)(1 + r.below(3)); for (auto &e : E) g.add(e[0], e[1], e[2] * k);
    return g;
}
static void one(Rng &r, uint64_t cas)
{
    Graph g; Idx s = 0, t = 0; bool tough = cas % 50 == 0 || cas % 200 == 1;
    if (cas % 50 == 0) g = hard(r, s, t);
    else if (tough) { g = known(r); s = 0; t = 11; }
    else
    {
        GOpt o; o.nmin = 2; o.nmax = 22; o.nbig = 66; o.big1in = 100; o.loops = true; o.directed = r.below(4) != 0; g = ggraph(r, o); int wk = r.below(3);
        for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j)) g.add(i, j, wk == 0 ? 1 : wk == 1 ? 1 + r.below(30) : std::is_integral_v<T> ? 1 + r.below(1000) : (1 + r.below(400)) / 4.0);
        s = r.below(g.n); do t = r.below(g.n); while (t == s);
    }
    Flow f = ek(g, s, t); auto G = gmatrix<T>(g, r); std::string in = g.s() + fmt(" source %lu sink %lu", (unsigned long)s, (unsigned long)t);
    if (!f.cut_ok) { fprintf(stderr, "oracle: flow and cut differ\n"); abort(); }
    MM<T> x(g.n, g.n); for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j)) x.set(i, j, (T)g.wt(i, j));
    auto ck = [&](const char *w, T got) { count(w); ++ctx().observations; if ((double)got != f.value) violation(w, fmt("flow %.12g, maximum is %.12g (%lu augmenting paths, %lu edges)\n", (double)got, f.value, (unsigned long)f.rounds, (unsigned long)g.m()) + in); };
    label("maxflow_push_relabel"); ck("maxflow_push_relabel", algorithms::maxflow_push_relabel(G, s, t));
    label("maxflow_ford_fulk"); ck("maxflow_ford_fulk", algorithms::maxflow_ford_fulk(G, s, t));
    std::string e = diff(G, x); if (!e.empty()) violation("maxflow:input-modified", e + "\n" + in);
    if (f.rounds > g.m()) count("networks with more augmenting paths than edges");
    count(f.value == 0 ? "zero flow" : f.rounds > 2 ? "three or more augmenting paths" : "one or two augmenting paths");
    seen(mix(g.key() ^ (s * 64 + t)), f.value > 0); if (f.rounds > 3) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
