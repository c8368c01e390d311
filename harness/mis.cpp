// P25: independence and maximality of the returned set.
#include "graphs.hpp"
#include <algorithms/mis.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = bool;
#elif PROFILE == 3
using T = uint64_t;
#else
using T = int32_t;
#endif
static void check(const char *w, Graph const &g, grb::Vector<bool> const &s, std::string const &in)
{
    ++ctx().observations; count(w);
    std::vector<char> m(g.n, 0); Idx c = 0; std::string e;
    if (s.size() != g.n) e = "size";
    for (Idx i = 0; i < g.n && e.empty(); ++i) if (s.hasElement(i)) { if (!s.extractElement(i)) e = fmt("stored false at %lu", (unsigned long)i); m[i] = 1; ++c; }
    for (Idx i = 0; i < g.n && e.empty(); ++i)
    {
        bool nb = false; for (Idx j = 0; j < g.n; ++j) nb |= g.has(i, j) && m[j];
        if (m[i] && nb) e = fmt("vertex %lu and a neighbour are both members", (unsigned long)i);
        if (!m[i] && !nb) e = fmt("vertex %lu could be added", (unsigned long)i);
    }
    if (e.empty())
    {
        auto ids = algorithms::get_vertex_IDs(s); std::set<Idx> q(ids.begin(), ids.end());
        if (ids.size() != c || q.size() != c) e = "reported list has the wrong length";
        for (Idx i : ids) if (e.empty() && (i >= g.n || !m[i])) e = fmt("reported list names %lu", (unsigned long)i);
    }
    count(fmt("%s members/n in tenths: %lu", w, (unsigned long)(c * 10 / g.n)));
    if (!e.empty()) violation(w, e + "\n" + in);
}
static void one(Rng &r, uint64_t)
{
    GOpt o; o.directed = false; o.nbig = 140; Graph g = ggraph(r, o); auto G = gmatrix<T>(g, r); uint64_t key = g.key();
    for (int t = 0; t < 3; ++t)
    {
        double seed = (double)r.below(100000); std::string in = g.s() + fmt(" seed=%g", seed);
        { grb::Vector<bool> s(g.n); label("mis"); algorithms::mis(G, s, seed); check("mis", g, s, in); }
        { grb::Vector<bool> s(g.n); label("mis_appendixB6"); algorithms::mis_appendixB6(s, G, seed); check("mis_appendixB6", g, s, in); }
        seen(mix(key ^ (uint64_t)seed), g.m() > 0); if (g.m() > 2) sample(in);
    }
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
