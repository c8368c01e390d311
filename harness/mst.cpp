// P26: Prim's result against Kruskal.
#include "graphs.hpp"
#include <algorithms/mst.hpp>
#include <numeric>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = uint64_t;
#else
using T = float;
#endif
static void one(Rng &r, uint64_t)
{
    GOpt o; o.directed = false; o.nbig = 100; o.loops = true; o.connected = r.below(4) != 0; Graph g = ggraph(r, o); Idx n = g.n;
    double unit = std::is_integral_v<T> ? 1 : 0.25; int64_t mx = r.below(3) ? 9 : r.below(2) ? 2 : 1000, mn = std::is_unsigned_v<T> || r.below(2) ? 0 : -mx;
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j <= i; ++j) if (g.has(i, j)) { double w = r.range(mn, mx) * unit; g.add(i, j, w); g.add(j, i, w); }
    auto G = gmatrix<T>(g, r); std::string in = g.s(), e;
    // Kruskal
    std::vector<std::tuple<double, Idx, Idx>> es; for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < i; ++j) if (g.has(i, j)) es.push_back({g.wt(i, j), i, j});
    std::sort(es.begin(), es.end()); std::vector<Idx> p(n); std::iota(p.begin(), p.end(), 0);
    std::function<Idx(Idx)> f = [&](Idx x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
    double best = 0; Idx k = 0; for (auto &[w, a, b] : es) { Idx x = f(a), y = f(b); if (x != y) { p[x] = y; best += w; ++k; } }
    bool conn = k + 1 == n; grb::Vector<Idx> par(n); if (r.below(2)) par.setElement(r.below(n), 3);
    label("mst"); T w{}; bool threw = false;
    try { w = algorithms::mst(G, par); } catch (grb::PanicException const &) { threw = true; }
    ++ctx().observations; count(conn ? "connected" : "disconnected");
    if (threw != !conn) e = threw ? "connected graph rejected" : "disconnected graph accepted";
    else if (conn)
    {
        double sum = 0; if ((double)w != best) e = fmt("returned weight %g, minimum %g", (double)w, best);
        if (e.empty() && par.nvals() != n - 1) e = fmt("%lu parents", (unsigned long)par.nvals());
        if (e.empty() && par.hasElement(0)) e = "root has a parent";
        for (Idx i = 1; i < n && e.empty(); ++i)
        {
            if (!par.hasElement(i)) { e = fmt("vertex %lu has no parent", (unsigned long)i); break; }
            Idx q = par.extractElement(i); if (q >= n || !g.has(q, i) || q == i) { e = fmt("parent of %lu is %lu, not an edge", (unsigned long)i, (unsigned long)q); break; }
            sum += g.wt(q, i); Idx x = i, hop = 0; while (x != 0 && hop++ <= n && par.hasElement(x)) x = par.extractElement(x);
            if (x != 0) e = fmt("vertex %lu does not lead to the root", (unsigned long)i);
        }
        if (e.empty() && sum != best) e = fmt("tree edges weigh %g, minimum %g", sum, best);
    }
    if (!e.empty()) violation("mst", e + "\n" + in);
    seen(g.key(), n > 2 && k > 1); if (k > 2) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
