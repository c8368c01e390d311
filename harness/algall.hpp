// Every provided algorithm behind one dispatcher, over shared const graphs.  algall.cpp is compiled
// once per GROUP.
#pragma once
#include "graphs.hpp"
namespace vh
{
struct AlgIn
{
    Graph g, u; Idx s = 0, t = 0, k = 3; double seed = 1; std::vector<Idx> src;
    std::unique_ptr<grb::Matrix<double>> Gd, Gu, Ud; std::unique_ptr<grb::Matrix<int32_t>> Gi, Ui, L, Up, Ue, E; std::unique_ptr<grb::Matrix<bool>> Gb;
    // the graphs depend on r only, the order in which entries are inserted on rl
    AlgIn(Rng &r, Rng &rl)
    {
        GOpt o; o.nmin = 3; o.nmax = 16; g = ggraph(r, o); strongly(g, r); GOpt q; q.directed = false; q.connected = true; q.nmin = 3; q.nmax = 16; u = ggraph(r, q);
        for (Idx i = 0; i < g.n; ++i) for (Idx j = 0; j < g.n; ++j) if (g.has(i, j)) g.add(i, j, 1 + r.below(9));
        Graph one = u;
        for (Idx i = 0; i < u.n; ++i) for (Idx j = 0; j < i; ++j) if (u.has(i, j)) { double w = 1 + r.below(6); u.add(i, j, w); u.add(j, i, w); one.add(i, j); one.add(j, i); }
        s = r.below(g.n); do t = r.below(g.n); while (t == s);
        k = 3 + r.below(3); seed = 1 + r.below(1000); for (Idx c = 1 + r.below(3); c > 0; --c) src.push_back(r.below(g.n));
        auto M = [&](Graph const &x, auto z) { using T = decltype(z); return std::make_unique<grb::Matrix<T>>(gmatrix<T>(x, rl)); };
        Graph g1 = g; for (auto &w : g1.w) w = 1; Gu = M(g1, double{}); Gd = M(g, double{}); Gi = M(g, int32_t{}); Gb = M(g, bool{}); Ud = M(u, double{}); Ui = M(u, int32_t{}); Ue = M(one, int32_t{});
        Graph lo = one, up = one; std::vector<std::pair<Idx, Idx>> es;
        for (Idx i = 0; i < u.n; ++i) for (Idx j = 0; j < u.n; ++j) if (one.has(i, j)) { if (j < i) { up.del(i, j); es.push_back({i, j}); } else lo.del(i, j); }
        L = M(lo, int32_t{}); Up = M(up, int32_t{}); MM<int32_t> inc(es.size(), u.n); for (Idx e = 0; e < es.size(); ++e) { inc.set(e, es[e].first, 1); inc.set(e, es[e].second, 1); }
        E = std::make_unique<grb::Matrix<int32_t>>(mk(inc, rl));
    }
    std::string str() const { return g.s() + " | " + u.s() + fmt(" s=%lu t=%lu k=%lu seed=%g", (unsigned long)s, (unsigned long)t, (unsigned long)k, seed); }
};
enum { EXACT = 0, APPROX = 1, LOCAL = 2 };   // LOCAL: repeatable on one platform, not compared across platforms
struct AlgOut
{
    const char *name = "?"; int cls = EXACT; std::vector<double> v;
    template <class T> void add(grb::Vector<T> const &x) { v.push_back(x.size()); v.push_back(x.nvals()); for (Idx i = 0; i < x.size(); ++i) v.push_back(x.hasElement(i) ? (double)x.extractElement(i) : 1e300); }
    template <class T> void add(grb::Matrix<T> const &x) { v.push_back(x.nrows()); v.push_back(x.ncols()); v.push_back(x.nvals()); for (Idx i = 0; i < x.nrows(); ++i) for (Idx j = 0; j < x.ncols(); ++j) v.push_back(x.hasElement(i, j) ? (double)x.extractElement(i, j) : 1e300); }
    template <class T> void add(std::vector<T> const &x) { v.push_back(x.size()); for (auto const &y : x) v.push_back((double)y); }
    void add(double x) { v.push_back(x); }
    uint64_t hash() const { uint64_t h = hstr(name); for (double x : v) { if (x == 0) x = 0; if (std::isnan(x)) x = 1e301; uint64_t b; memcpy(&b, &x, 8); h = mix(h ^ b); } return h; }
};
constexpr int NALG[] = {0, 11, 17, 9, 12, 6};
void alg_group1(int, AlgIn const &, AlgOut &); void alg_group2(int, AlgIn const &, AlgOut &); void alg_group3(int, AlgIn const &, AlgOut &); void alg_group4(int, AlgIn const &, AlgOut &); void alg_group5(int, AlgIn const &, AlgOut &);
constexpr int NALGS = 11 + 17 + 9 + 12 + 6;
inline AlgOut run_alg(int k, AlgIn const &in)
{
    AlgOut o;
    if (k < 11) alg_group1(k, in, o); else if (k < 28) alg_group2(k - 11, in, o); else if (k < 37) alg_group3(k - 28, in, o); else if (k < 49) alg_group4(k - 37, in, o); else alg_group5(k - 49, in, o);
    return o;
}
} // namespace vh
