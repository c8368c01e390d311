// P30: degrees, distances, eccentricity, radius, diameter, farness against counting and Bellman-Ford.
#include "graphs.hpp"
#include <algorithms/metrics.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = float;
#else
using T = uint32_t;
#endif
static void one(Rng &r, uint64_t)
{
    GOpt o; o.nmax = 24; o.nbig = 70; o.loops = true; o.directed = r.below(3) != 0; Graph g = ggraph(r, o); bool strong = r.below(3) != 0; if (strong) strongly(g, r);
    Idx n = g.n; int wk = r.below(3);
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) g.add(i, j, wk == 0 ? 1 : wk == 1 ? 1 + r.below(9) : std::is_integral_v<T> ? 1 + r.below(200) : (1 + r.below(200)) / 4.0);
    auto G = gmatrix<T>(g, r); std::string in = g.s();
    MM<T> x(n, n); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) x.set(i, j, (T)g.wt(i, j));
    auto ck = [&](const char *w, double got, double want, Idx v) { count(w); ++ctx().observations; if (got != want) violation(w, fmt("vertex %lu: %.12g, expected %.12g\n", (unsigned long)v, got, want) + in); };
    for (Idx v = 0; v < n; ++v)
    {
        if (n > 6 && r.below(3)) continue;
        double id = 0, od = 0; for (Idx u = 0; u < n; ++u) { id += g.has(u, v); od += g.has(v, u); }
        label("vertex_in_degree"); ck("vertex_in_degree", (double)algorithms::vertex_in_degree(G, v), id, v);
        label("vertex_out_degree"); ck("vertex_out_degree", (double)algorithms::vertex_out_degree(G, v), od, v);
        label("vertex_degree"); ck("vertex_degree", (double)algorithms::vertex_degree(G, v), id + od, v);
    }
    std::vector<std::vector<double>> D(n); for (Idx s = 0; s < n; ++s) bford(g, {s}, D[s]);
    for (int k = 0; k < 2; ++k)
    {
        Idx s = r.below(n); grb::Vector<T> d(n); if (r.below(2)) d.setElement(r.below(n), (T)7);
        label("graph_distance"); algorithms::graph_distance(G, s, d); count("graph_distance");
        VV<T> want(n); for (Idx v = 0; v < n; ++v) if (D[s][v] != INFINITY) want.set(v, (T)D[s][v]);
        std::string e = diff(d, want); if (!e.empty()) violation("graph_distance", fmt("from %lu: ", (unsigned long)s) + e + "\n" + in);
        if (strong)
        {
            double ecc = 0, sum = 0; for (double y : D[s]) { ecc = std::max(ecc, y); sum += y; }
            label("vertex_eccentricity"); ck("vertex_eccentricity", (double)algorithms::vertex_eccentricity(G, s), ecc, s);
            label("closeness_centrality"); ck("closeness_centrality", (double)algorithms::closeness_centrality(G, s), sum, s);
        }
    }
    {
        MM<T> want(n, n); for (Idx s = 0; s < n; ++s) for (Idx v = 0; v < n; ++v) if (D[s][v] != INFINITY) want.set(s, v, (T)D[s][v]);
        grb::Matrix<T> d(n, n); if (r.below(2)) d.setElement(r.below(n), r.below(n), (T)3);
        label("graph_distance_matrix"); algorithms::graph_distance_matrix(G, d); count("graph_distance_matrix");
        std::string e = diff(d, want); if (!e.empty()) violation("graph_distance_matrix", e + "\n" + in);
    }
    double rad = INFINITY, dia = 0;
    if (strong)
    {
        for (auto &row : D) { double ecc = 0; for (double y : row) ecc = std::max(ecc, y); rad = std::min(rad, ecc); dia = std::max(dia, ecc); }
        label("graph_radius"); ck("graph_radius", (double)algorithms::graph_radius(G), rad, 0);
        label("graph_diameter"); ck("graph_diameter", (double)algorithms::graph_diameter(G), dia, 0);
        if (rad != dia) count("radius differs from diameter");
    }
    std::string e = diff(G, x); if (!e.empty()) violation("metrics:input-modified", e + "\n" + in);
    count(strong ? "strongly connected" : "general");
    seen(g.key(), g.m() > 1); if (g.m() > 1) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
