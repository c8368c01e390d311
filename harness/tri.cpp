// P24: triangle counts and k-truss against direct enumeration / peeling.
#include "graphs.hpp"
#include <algorithms/triangle_count.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = uint64_t;
#else
using T = float;
#endif
static void peel(Graph &g, Idx k)
{
    for (bool ch = true; ch;)
    {
        ch = false;
        for (Idx u = 0; u < g.n; ++u) for (Idx v = u + 1; v < g.n; ++v) if (g.has(u, v))
        { Idx c = 0; for (Idx w = 0; w < g.n; ++w) c += g.has(u, w) && g.has(v, w); if (c < k - 2) { g.del(u, v); g.del(v, u); ch = true; } }
    }
}
static void one(Rng &r, uint64_t)
{
    GOpt o; o.nmax = 22; o.nbig = 90; o.directed = false; Graph g = ggraph(r, o); Idx n = g.n; std::string in = g.s();
    uint64_t tri = 0; for (Idx a = 0; a < n; ++a) for (Idx b = 0; b < a; ++b) for (Idx c = 0; c < b; ++c) tri += g.has(a, b) && g.has(b, c) && g.has(a, c);
    auto ck = [&](const char *w, double got) { count(w); ++ctx().observations; if (got != (double)tri) violation(w, fmt("counts %g triangles, expected %lu\n", got, (unsigned long)tri) + in); };
    auto A = gmatrix<T>(g, r); MM<T> l(n, n), u(n, n);
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) (j < i ? l : u).set(i, j, 1);
    auto L = mk(l, r), U = mk(u, r);
    label("triangle_count"); ck("triangle_count", (double)algorithms::triangle_count(A));
    label("triangle_count_masked(L,U)"); ck("triangle_count_masked(L,U)", (double)algorithms::triangle_count_masked(L, U));
    label("triangle_count_masked(L)"); ck("triangle_count_masked(L)", (double)algorithms::triangle_count_masked(L));
    label("triangle_count_masked_noT"); ck("triangle_count_masked_noT", (double)algorithms::triangle_count_masked_noT(L));
    label("triangle_count_newGBTL"); ck("triangle_count_newGBTL(L,U)", (double)algorithms::triangle_count_newGBTL(L, U));
    label("triangle_count_newGBTL(U',U)"); ck("triangle_count_newGBTL(U',U)", (double)algorithms::triangle_count_newGBTL(grb::transpose(U), U));
    label("triangle_count_appendixB7"); ck("triangle_count_appendixB7", (double)algorithms::triangle_count_appendixB7(L));
    Idx k = 3 + r.below(4); Graph t = g; peel(t, k); std::string kin = fmt("k=%lu ", (unsigned long)k) + in;
    {
        label("k_truss2"); auto K = algorithms::k_truss2(A, k); count("k_truss2");
        MM<T> x(n, n); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (t.has(i, j)) x.set(i, j, 1);
        auto e = diff(K, x); if (!e.empty()) violation("k_truss2", e + "\n" + kin);
    }
    std::vector<std::pair<Idx, Idx>> es; for (Idx i = 0; i < n; ++i) for (Idx j = i + 1; j < n; ++j) if (g.has(i, j)) es.push_back({i, j});
    for (size_t q = es.size(); q > 1; --q) std::swap(es[q - 1], es[r.below(q)]);
    if (!es.empty())
    {
        MM<T> inc(es.size(), n); for (size_t q = 0; q < es.size(); ++q) { inc.set(q, es[q].first, 1); inc.set(q, es[q].second, 1); }
        auto E = mk(inc, r); label("k_truss"); auto K = algorithms::k_truss(E, k); count("k_truss"); ++ctx().observations;
        std::multiset<std::pair<Idx, Idx>> got, want; std::string e;
        for (auto &p : es) if (t.has(p.first, p.second)) want.insert(p);
        if (K.ncols() != n) e = "wrong number of vertices";
        for (Idx q = 0; q < K.nrows() && e.empty(); ++q)
        { std::vector<Idx> v; for (Idx j = 0; j < n; ++j) if (K.hasElement(q, j)) v.push_back(j); if (v.size() != 2) e = fmt("row %lu is not an edge", (unsigned long)q); else got.insert({v[0], v[1]}); }
        if (e.empty() && got != want) e = fmt("%zu edges left, expected %zu", got.size(), want.size());
        if (!e.empty()) violation("k_truss", e + "\n" + kin);
    }
    count(t.m() == 0 ? "empty truss" : t.m() == g.m() ? "whole graph is a truss" : "proper truss");
    seen(mix(g.key() ^ k), tri > 0); if (tri > 1) sample(kin);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
