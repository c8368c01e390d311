// P21: every BFS variant against a plain queue BFS.
#include "graphs.hpp"
#include <algorithms/bfs.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = bool;
#elif PROFILE == 3
using T = uint64_t;
#else
using T = int32_t;
#endif
static std::string lv(grb::Vector<Idx> const &l, Graph const &g, std::vector<Idx> const &d)
{
    VV<Idx> x(g.n); for (Idx i = 0; i < g.n; ++i) if (d[i] != NOPE) x.set(i, d[i] + 1);
    return diff(l, x);
}
static std::string pv(grb::Vector<Idx> const &p, Graph const &g, std::vector<Idx> const &d)
{
    ++ctx().observations;
    if (p.size() != g.n) return "size";
    Idx n = 0;
    for (Idx i = 0; i < g.n; ++i)
    {
        bool h = p.hasElement(i); n += h;
        if (h != (d[i] != NOPE)) return fmt("vertex %lu %s", (unsigned long)i, h ? "has a parent but is unreachable" : "is reachable but has no parent");
        if (!h) continue;
        Idx q = p.extractElement(i);
        if (d[i] == 0) { if (q != i) return fmt("root %lu has parent %lu", (unsigned long)i, (unsigned long)q); continue; }
        if (q >= g.n || !g.has(q, i)) return fmt("parent of %lu is %lu, not an in-neighbour", (unsigned long)i, (unsigned long)q);
        if (d[q] + 1 != d[i]) return fmt("parent of %lu is %lu, not one level nearer", (unsigned long)i, (unsigned long)q);
    }
    return p.nvals() == n ? "" : "nvals";
}
static std::string rowlv(grb::Matrix<Idx> const &L, Graph const &g, std::vector<std::vector<Idx>> const &d)
{
    MM<Idx> x(d.size(), g.n); for (Idx b = 0; b < d.size(); ++b) for (Idx i = 0; i < g.n; ++i) if (d[b][i] != NOPE) x.set(b, i, d[b][i] + 1);
    return diff(L, x);
}
template <class M> static grb::Vector<Idx> row(M const &m, Idx b)
{
    grb::Vector<Idx> v(m.ncols()); for (Idx j = 0; j < m.ncols(); ++j) if (m.hasElement(b, j)) v.setElement(j, m.extractElement(b, j));
    return v;
}
static void one(Rng &r, uint64_t)
{
    GOpt o; o.nbig = 140; o.loops = true; o.directed = r.below(3) != 0; Graph g = ggraph(r, o); Idx n = g.n;
    auto G = gmatrix<T>(g, r);
    Idx s = r.below(n); auto d = hops(g, {s}); std::string in = g.s() + fmt(" source=%lu", (unsigned long)s), e;
    auto ck = [&](const char *w, std::string const &x) { count(w); if (!x.empty()) violation(w, x + "\n" + in); };
    label("bfs");
    grb::Vector<Idx> p0(n); if (r.below(2)) p0.setElement(r.below(n), 7); algorithms::bfs(G, s, p0); ck("bfs(source)", pv(p0, g, d));
    { grb::Vector<Idx> w(n), p(n); w.setElement(s, 1); if (r.below(2)) p.setElement(r.below(n), 5); label("bfs(wavefront)"); algorithms::bfs(G, w, p); ck("bfs(wavefront)", pv(p, g, d)); if (!(p == p0)) violation("bfs(wavefront) disagrees with bfs(source)", in); }
    { grb::Vector<Idx> p(n); label("bfs_parent_appendixB3"); algorithms::bfs_parent_appendixB3(p, G, s); ck("bfs_parent_appendixB3", pv(p, g, d)); if (!(p == p0)) violation("bfs_parent_appendixB3 disagrees with bfs(source)", in); }
    { grb::Vector<Idx> l(n); label("bfs_level(source)"); algorithms::bfs_level(G, s, l); ck("bfs_level(source)", lv(l, g, d)); }
    { grb::Vector<Idx> l(n); label("bfs_level_appendixB1"); algorithms::bfs_level_appendixB1(l, G, s); ck("bfs_level_appendixB1", lv(l, g, d)); }
    { grb::Vector<Idx> l(n); label("bfs_level_appendixB2"); algorithms::bfs_level_appendixB2(l, G, s); ck("bfs_level_appendixB2", lv(l, g, d)); }
    // start sets
    std::vector<Idx> roots{s}; if (r.below(2)) for (Idx k = r.below(3); k > 0; --k) roots.push_back(r.below(n));
    auto dm = hops(g, roots);
    std::string rin = in; in += " roots="; for (auto x : roots) in += std::to_string(x) + " ";
    { grb::Vector<Idx> w(n), l(n); for (Idx x : roots) w.setElement(x, 1); label("bfs_level_masked"); algorithms::bfs_level_masked(G, w, l); ck("bfs_level_masked", lv(l, g, dm)); }
    { grb::Vector<bool> w(n); grb::Vector<Idx> l(n); for (Idx x : roots) w.setElement(x, true); label("bfs_level_masked_v2"); algorithms::bfs_level_masked_v2(G, w, l); ck("bfs_level_masked_v2", lv(l, g, dm)); }
    { grb::Vector<Idx> w(n), p(n); for (Idx x : roots) w.setElement(x, 1); label("bfs(multi)"); algorithms::bfs(G, w, p); ck("bfs(multi-root wavefront)", pv(p, g, dm)); }
    // batches of traversals, repeated roots allowed
    Idx B = 1 + r.below(4); std::vector<std::vector<Idx>> db; grb::Matrix<Idx> W(B, n); in = rin + " batch=";
    std::vector<Idx> bs; for (Idx b = 0; b < B; ++b) { Idx x = b ? r.below(n) : s; bs.push_back(x); W.setElement(b, x, 1); db.push_back(hops(g, {x})); in += std::to_string(x) + " "; }
    { grb::Matrix<Idx> L(B, n); label("bfs_level(batch)"); algorithms::bfs_level(G, W, L); ck("bfs_level(batch)", rowlv(L, g, db)); }
    { grb::Matrix<Idx> L(B, n); label("batch_bfs_level_masked"); algorithms::batch_bfs_level_masked(G, W, L); ck("batch_bfs_level_masked", rowlv(L, g, db)); }
    {
        grb::Matrix<Idx> P(B, n); label("bfs_batch"); algorithms::bfs_batch(G, W, P);
        for (Idx b = 0; b < B; ++b) { auto p = row(P, b); ck("bfs_batch", pv(p, g, db[b])); grb::Vector<Idx> q(n); algorithms::bfs(G, bs[b], q); if (!(p == q)) violation("bfs_batch disagrees with bfs(source)", in); }
    }
    Idx reach = 0, depth = 0; for (Idx x : d) if (x != NOPE) { ++reach; depth = std::max(depth, x); }
    count(fmt("depth %lu", (unsigned long)std::min<Idx>(depth, 12)));
    seen(mix(g.key() ^ s), reach > 1); if (reach > 2) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
