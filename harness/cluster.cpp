// P29: clustering against plain-array simulations and local-optimality checks.
#include "graphs.hpp"
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
using namespace vh;
#if PROFILE == 1
using T = double;
#elif PROFILE == 2
using T = int32_t;
#elif PROFILE == 3
using T = float;
#else
using T = int64_t;
#endif
using Cl = std::vector<Idx>;            // cluster of each vertex, NOPE for none
// one round of peer pressure: everybody moves to the cluster with most votes, ties to the highest number
static Cl round_(std::vector<double> const &A, Idx n, Cl const &c)
{
    Cl o(n, NOPE); std::vector<double> t(n); std::vector<char> h(n);
    for (Idx j = 0; j < n; ++j)
    {
        std::fill(t.begin(), t.end(), 0); std::fill(h.begin(), h.end(), 0);
        for (Idx i = 0; i < n; ++i) if (A[i * n + j] != 0 && c[i] != NOPE) { t[c[i]] += A[i * n + j]; h[c[i]] = 1; }
        double best = -1; for (Idx k = 0; k < n; ++k) if (h[k] && t[k] >= best) { best = t[k]; o[j] = k; }
    }
    return o;
}
static std::string show(Cl const &c) { std::string s; for (Idx x : c) s += x == NOPE ? std::string(" -") : " " + std::to_string(x); return s; }
static MM<bool> asm_(Cl const &c) { MM<bool> m(c.size(), c.size()); for (Idx j = 0; j < c.size(); ++j) if (c[j] != NOPE) m.set(c[j], j, true); return m; }
static void peer(Rng &r)
{
    GOpt o; o.nmax = 16; o.nbig = 70; o.loops = true; o.directed = r.below(3) != 0; Graph g = ggraph(r, o); Idx n = g.n; bool loops = r.below(4) != 0;
    if (loops) for (Idx i = 0; i < n; ++i) g.add(i, i);
    // row sums are powers of two, so normalised votes are dyadic and every sum is exact
    std::vector<double> A(n * n, 0), U(n * n, 0);
    for (Idx i = 0; i < n; ++i)
    {
        std::vector<Idx> ns; for (Idx j = 0; j < n; ++j) if (g.has(i, j)) ns.push_back(j);
        if (ns.empty()) continue;
        int top = r.below(2) ? 3 : 1; std::vector<int> w; int s = 0; for (Idx k = 0; k < ns.size(); ++k) { w.push_back(1 + r.below(top)); s += w.back(); }
        int p = 1; while (p < s) p *= 2; w[r.below(w.size())] += p - s;
        for (Idx k = 0; k < ns.size(); ++k) { g.add(i, ns[k], w[k]); U[i * n + ns[k]] = w[k]; A[i * n + ns[k]] = (double)w[k] / p; }
    }
    auto G = gmatrix<T>(g, r); std::string in = g.s();
    for (int v2 = 0; v2 < 2; ++v2)
    {
        unsigned iters = r.below(6) ? 1 + r.below(10) : 0; bool given = r.below(2); Cl c(n); for (Idx i = 0; i < n; ++i) c[i] = given ? r.below(n) : i;
        Cl w = c; unsigned used = 0; for (; used < iters; ++used) { Cl q = round_(v2 ? U : A, n, w); if (q == w) { count("peer pressure converged"); break; } w = q; }
        grb::Matrix<bool> C = mk(asm_(c), r); const char *nm = v2 ? "peer_pressure_cluster_v2" : "peer_pressure_cluster"; label(nm); count(nm);
        if (v2) algorithms::peer_pressure_cluster_v2(G, C, iters);
        else if (given) algorithms::peer_pressure_cluster(G, C, iters);
        else C = algorithms::peer_pressure_cluster(G, iters);
        std::string e = diff(C, asm_(w)); if (!e.empty()) violation(nm, e + fmt("\nmax_iters %u start", iters) + show(c) + " expected" + show(w) + "\n" + in);
        if (w != c) count("peer pressure moved vertices");
        label("get_cluster_assignments"); auto a = algorithms::get_cluster_assignments(C); ++ctx().observations; count("get_cluster_assignments");
        for (Idx j = 0; j < n; ++j) { Idx want = w[j] == NOPE ? std::numeric_limits<Idx>::max() : w[j]; if (a.size() != n || a[j] != want) { violation("get_cluster_assignments", fmt("vertex %lu\n", (unsigned long)j) + show(w)); break; } }
        label("get_cluster_assignments_v2"); auto b = algorithms::get_cluster_assignments_v2(C); count("get_cluster_assignments_v2");
        VV<Idx> bw(n); for (Idx j = 0; j < n; ++j) if (w[j] != NOPE) bw.set(j, w[j]);
        e = diff(b, bw); if (!e.empty()) violation("get_cluster_assignments_v2", e + "\n" + show(w));
    }
    seen(g.key(), g.m() > 1); if (g.m() > 1) sample("peer " + in);
}
static void markov(Rng &r)
{
    GOpt o; o.nmax = 14; o.nbig = 66; o.big1in = 80; o.loops = true; o.directed = r.below(3) == 0; Graph g = ggraph(r, o); Idx n = g.n; if (r.below(4)) for (Idx i = 0; i < n; ++i) g.add(i, i);
    if (r.below(2)) for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) g.add(i, j, 1 + r.below(8));
    Idx e = 1 + r.below(3), f = 1 + r.below(3); unsigned iters = r.below(8); bool wide = r.below(2);
    std::vector<double> A(n * n, 0), P, Q;
    std::vector<char> H(n * n, 0), HP; for (Idx k = 0; k < n * n; ++k) if (g.e[k]) { A[k] = g.w[k]; H[k] = 1; }
    auto norm = [&](std::vector<double> &M, std::vector<char> const &h) { for (Idx j = 0; j < n; ++j) { double s = 0; for (Idx i = 0; i < n; ++i) if (h[i * n + j]) s += M[i * n + j]; if (s != 0) for (Idx i = 0; i < n; ++i) M[i * n + j] /= s; } };
    norm(A, H); bool conv = false; double thr = wide ? 1e-6 : 1e-16; bool near = false, under = false;
    for (unsigned it = 0; it < iters; ++it)
    {
        P = A; HP = H;
        for (Idx k = 1; k < e; ++k)
        {
            // expansion keeps the sparsity pattern (the product is masked by what it overwrites)
            std::vector<double> S(n * n, 0); std::vector<char> HS(n * n, 0);
            for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (HP[i * n + j] && P[i * n + j] != 0) for (Idx q = 0; q < n; ++q) if (HP[i * n + q] && H[q * n + j]) { S[i * n + j] += P[i * n + q] * A[q * n + j]; HS[i * n + j] = 1; }
            P = S; HP = HS;
        }
        Q = P; for (Idx k = 1; k < f; ++k) for (Idx z = 0; z < n * n; ++z) Q[z] *= P[z];
        for (Idx j = 0; j < n; ++j) { double t = 0; bool any = false; for (Idx i = 0; i < n; ++i) if (HP[i * n + j]) { t += Q[i * n + j]; any = true; } if (any && t < 1e-250) under = true; }
        norm(Q, HP); double er = 0; for (Idx z = 0; z < n * n; ++z) er += (Q[z] - A[z]) * (Q[z] - A[z]); er /= (double)n * (double)n;
        if (er > thr * 0.99 && er < thr * 1.01) near = true;
        A = Q; H = HP; if (er < thr) { conv = true; break; }
    }
    auto G = gmatrix<T>(g, r); std::string in = g.s() + fmt(" e=%lu r=%lu max_iters=%u", (unsigned long)e, (unsigned long)f, iters);
    label("markov_cluster"); auto M = algorithms::markov_cluster(G, e, f, thr, iters); count("markov_cluster"); ++ctx().observations;
    if (under) { count("markov column underflows, skipped"); return; }
    if (near) { count("markov near threshold, skipped"); return; }
    if (conv) count("markov converged");
    if (M.nrows() != n || M.ncols() != n) violation("markov_cluster", "shape\n" + in);
    else for (Idx z = 0; z < n * n; ++z)
    {
        double v = M.hasElement(z / n, z % n) ? M.extractElement(z / n, z % n) : 0;
        if (!close(v, A[z], 1e-7, 1e-7)) { violation("markov_cluster", fmt("(%lu,%lu) = %.9g, expected %.9g\n", (unsigned long)(z / n), (unsigned long)(z % n), v, A[z]) + in); break; }
    }
    seen(mix(g.key() ^ (e * 5 + f * 31 + iters * 97 + 1)), g.m() > 1 && iters > 0);
}
static void louvain(Rng &r)
{
    GOpt o; o.nmax = 18; o.nbig = 68; o.directed = false; o.nmin = 2; Graph g = ggraph(r, o); Idx n = g.n; int wk = r.below(3);
    for (Idx i = 0; i < n; ++i) for (Idx j = i; j < n; ++j) if (g.has(i, j)) { double w = wk == 0 ? 1 : 1 + r.below(wk == 1 ? 4 : 30); g.add(i, j, w); g.add(j, i, w); }
    bool loops = r.below(3) == 0; if (loops) for (Idx t = 1 + r.below(n); t > 0; --t) { Idx v = r.below(n); g.add(v, v, 1 + r.below(3)); }
    auto G = gmatrix<T>(g, r); std::string in = g.s();
    std::vector<double> k(n, 0); double m = 0; for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) { k[i] += g.wt(i, j); m += g.wt(i, j); } m /= 2;
    for (int masked = 0; masked < 2; ++masked)
    {
        const char *nm = masked ? "louvain_cluster_masked" : "louvain_cluster"; label(nm); count(nm); ++ctx().observations;
        grb::Matrix<bool> S(n, n); double sd = (double)(1 + r.below(1000));
        try { if (masked) S = algorithms::louvain_cluster_masked(G, sd, 60u); else S = algorithms::louvain_cluster(G, sd, 60u); }
        catch (unsigned int) { count("louvain stopped at max_iters"); continue; }
        Cl c(n, NOPE); std::string bad;
        if (S.nrows() != n || S.ncols() != n) { violation(std::string(nm) + ":shape", in); continue; }
        for (Idx i = 0; i < n && bad.empty(); ++i) { Idx cnt = 0; for (Idx j = 0; j < n; ++j) if (S.hasElement(i, j)) { if (!S.extractElement(i, j)) bad = "stored false"; ++cnt; c[i] = j; } if (cnt != 1) bad = fmt("vertex %lu is in %lu clusters", (unsigned long)i, (unsigned long)cnt); }
        if (!bad.empty()) { violation(std::string(nm) + ":partition", bad + "\n" + in); continue; }
        // no single vertex can move to another community (masked: a neighbouring one) and gain
        for (Idx i = 0; i < n && bad.empty(); ++i)
        {
            std::vector<double> q(n, 0); std::vector<char> occ(n, 0), nb(n, 0); bool lonely = true;
            for (Idx j = 0; j < n; ++j) if (j != i) { occ[c[j]] = 1; if (k[j] > 0 || g.has(i, j)) q[c[j]] += 2 * (g.has(i, j) ? g.wt(i, j) : 0) - k[i] * k[j] / m; if (g.has(i, j)) { nb[c[j]] = 1; lonely = false; } }
            if (k[i] == 0) { if (c[i] != i) bad = fmt("isolated vertex %lu moved", (unsigned long)i); continue; }
            if (lonely) { count("louvain vertices with only a self-loop"); if (masked && c[i] != i) bad = fmt("vertex %lu has only a self-loop but moved", (unsigned long)i); if (masked) continue; }
            if (masked ? !nb[c[i]] : false) { bad = fmt("vertex %lu has no neighbour in its community", (unsigned long)i); continue; }
            if (!masked && !occ[c[i]]) { bool other = false; for (Idx j = 0; j < n; ++j) if (j != i && k[j] > 0) other = true; if (other) bad = fmt("vertex %lu stayed alone", (unsigned long)i); continue; }
            for (Idx d = 0; d < n && bad.empty(); ++d) if ((masked ? nb[d] : occ[d]) && d != c[i] && q[d] > q[c[i]] + 1e-9 * (1 + std::fabs(q[d])))
            {
                // communities of isolated vertices only are never considered
                bool real = false; for (Idx j = 0; j < n; ++j) if (j != i && c[j] == d && (k[j] > 0)) real = true;
                if (real) bad = fmt("vertex %lu gains %.6g by moving from %lu to %lu", (unsigned long)i, q[d] - q[c[i]], (unsigned long)c[i], (unsigned long)d);
            }
        }
        if (!bad.empty()) violation(std::string(nm) + ":optimality", bad + "\ncommunities" + show(c) + "\n" + in);
        label("get_louvain_cluster_assignments"); auto a = algorithms::get_louvain_cluster_assignments(S); VV<Idx> w(n); for (Idx i = 0; i < n; ++i) w.set(i, c[i]);
        std::string e = diff(a, w); count("get_louvain_cluster_assignments"); if (!e.empty()) violation("get_louvain_cluster_assignments", e + "\n" + show(c));
        // same seed, same graph, other insertion order: same communities
        auto G2 = gmatrix<T>(g, r); label(nm); grb::Matrix<bool> S2(n, n);
        try { if (masked) S2 = algorithms::louvain_cluster_masked(G2, sd, 60u); else S2 = algorithms::louvain_cluster(G2, sd, 60u); if (!(S2 == S)) violation(std::string(nm) + ":repeat", "second run on the same graph and seed differs\n" + in); } catch (unsigned int) { violation(std::string(nm) + ":repeat", "second run did not converge\n" + in); }
        std::set<Idx> cs(c.begin(), c.end()); count(cs.size() == 1 ? "louvain one community" : "louvain several communities");
    }
    seen(mix(g.key() ^ 0x5555), g.m() > 1); if (g.m() > 1) sample("louvain " + in);
}
static void one(Rng &r, uint64_t) { switch (r.below(3)) { case 0: peer(r); break; case 1: markov(r); break; default: louvain(r); } }
int main(int argc, char **argv) { case_cpu() = 30; return drive(argc, argv, one); }
