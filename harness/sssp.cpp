// P22: shortest-path algorithms against Bellman-Ford.
#include "graphs.hpp"
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = uint32_t;
#else
using T = float;
#endif
static VV<T> want(std::vector<double> const &d) { VV<T> x(d.size()); for (Idx i = 0; i < d.size(); ++i) if (d[i] != INFINITY) x.set(i, (T)d[i]); return x; }
static void weigh(Graph &g, Rng &r, int mode)   // 0 positive, 1 non-negative, 2 mostly positive with negatives, 3 potential (negative edges, no negative cycle)
{
    double unit = std::is_integral_v<T> ? 1 : 0.25; std::vector<double> h(g.n); int64_t mx = r.below(4) ? 9 : 60;
    for (auto &x : h) x = r.range(-6, 6) * unit;
    for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j))
    {
        double w = r.range(mode == 0 ? 1 : 0, mx) * unit;
        if (mode == 2) w = r.range(r.below(5) == 0 ? -2 : 0, mx) * unit;
        if (mode == 3) w += h[i] - h[j];
        g.add(i, j, w);
    }
}
static void one(Rng &r, uint64_t)
{
    GOpt o; o.loops = true; o.nmax = 24; o.nbig = 80; Graph g = ggraph(r, o); Idx n = g.n;
    int mode = std::is_unsigned_v<T> ? r.below(2) : r.below(4); weigh(g, r, mode);
    auto G = gmatrix<T>(g, r); auto G0 = G; Idx s = r.below(n); std::vector<double> d;
    bool ok = bford(g, {s}, d); std::string in = g.s() + fmt(" mode=%d source=%lu", mode, (unsigned long)s);
    auto ck = [&](const char *w, bool have, bool expok, auto const &got, auto const &x) {
        count(w); ++ctx().observations;
        if (have != expok) violation(std::string(w) + (expok ? " reports a negative cycle" : " misses a negative cycle"), in);
        else if (expok) { auto e = diff(got, x); if (!e.empty()) violation(w, e + "\n" + in); }
    };
    { grb::Vector<T> v(n); v.setElement(s, 0); label("sssp"); bool b = algorithms::sssp(G, v); ck("sssp", b, ok, v, want(d)); }
    { grb::Vector<T> v(n); v.setElement(s, 0); label("filtered_sssp"); bool b = algorithms::filtered_sssp(G, v); ck("filtered_sssp", b, ok, v, want(d)); }
    {
        Idx B = 1 + r.below(4); grb::Matrix<T> D(B, n); MM<T> x(B, n); bool all = true; std::string keep = in; in += " batch=";
        for (Idx b = 0; b < B; ++b)
        {
            Idx k = b ? r.below(n) : s; std::vector<double> q; all = bford(g, {k}, q) && all; D.setElement(b, k, 0); in += std::to_string(k) + " ";
            for (Idx i = 0; i < n; ++i) if (q[i] != INFINITY) x.set(b, i, (T)q[i]);
        }
        label("batch_sssp"); bool b = algorithms::batch_sssp(G, D); ck("batch_sssp", b, all, D, x); in = keep;
    }
    bool cyc = false; { std::vector<double> q; std::vector<Idx> rs; for (Idx i = 0; i < n; ++i) rs.push_back(i); cyc = !bford(g, rs, q); }
    if (!cyc)
    {
        MM<T> x(n, n); for (Idx k = 0; k < n; ++k) { std::vector<double> q; bford(g, {k}, q); for (Idx i = 0; i < n; ++i) if (q[i] != INFINITY) x.set(k, i, (T)q[i]); }
        label("apsp"); auto D = algorithms::apsp(G); ck("apsp", true, true, D, x);
    }
    if (mode == 0) for (int t = 0; t < 2; ++t)
    {
        double unit = std::is_integral_v<T> ? 1 : 0.25; T delta = (T)(r.range(1, r.below(3) ? 8 : 80) * unit); std::string keep = in; in += " delta=" + vs(delta);
        grb::Vector<T> v(n); if (r.below(2)) v.setElement(r.below(n), 3); label("sssp_delta_step"); algorithms::sssp_delta_step(G, delta, s, v); ck("sssp_delta_step", true, true, v, want(d)); in = keep;
    }
    if (!(G == G0)) violation("graph modified", in);
    Idx reach = 0; for (double x : d) reach += x != INFINITY;
    count(fmt("mode %d%s", mode, ok ? "" : " with negative cycle"));
    seen(mix(g.key() ^ s), reach > 1); if (reach > 2) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
