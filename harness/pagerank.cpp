// P28: page rank against its own fixed-point equation and an independent power iteration.
#include "graphs.hpp"
#include <algorithms/page_rank.hpp>
using namespace vh;
#if PROFILE == 1 || PROFILE == 3
using T = double; using R = double;
#elif PROFILE == 2
using T = float; using R = double;
#else
using T = float; using R = float;
#endif
static void one(Rng &r, uint64_t)
{
    GOpt o; o.nbig = 110; o.loops = r.below(3) == 0; o.directed = r.below(3) != 0; Graph g = ggraph(r, o); Idx n = g.n;
    int wk = r.below(4);        // unit, small integers, fractions, widely spread
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) if (g.has(i, j)) g.add(i, j, wk == 0 ? 1 : wk == 1 ? 1 + r.below(9) : wk == 2 ? (1 + r.below(16)) / 16.0 : std::ldexp(1.0, (int)r.below(16) - 8));
    auto G = gmatrix<T>(g, r);
    // Google matrix without the teleport: row-stochastic rows, dangling rows empty
    std::vector<double> M(n * n, 0); Idx dangling = 0, noin = 0;
    for (Idx i = 0; i < n; ++i) { double s = 0; for (Idx j = 0; j < n; ++j) if (g.has(i, j)) s += g.wt(i, j); if (s == 0) ++dangling; for (Idx j = 0; j < n; ++j) if (g.has(i, j)) M[i * n + j] = g.wt(i, j) / s; }
    for (Idx j = 0; j < n; ++j) { bool in = false; for (Idx i = 0; i < n; ++i) in |= g.has(i, j); noin += !in; }
    static const double ds[] = {0.85, 0.85, 0.5, 0.95, 0.1, 0.99, 0.0};
    R d = (R)ds[r.below(7)];
    auto F = [&](std::vector<double> const &x) { std::vector<double> y(n, (1 - (double)d) / (double)n); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < n; ++j) y[j] += (double)d * x[i] * M[i * n + j]; return y; };
    const bool sp = sizeof(R) == 4; double eps = sp ? 1e-5 : 1e-12;
    std::string in = g.s() + fmt(" d=%g", (double)d);
    auto get = [&](grb::Vector<R> const &v, std::vector<double> &x, const char *w) {
        ++ctx().observations; x.assign(n, 0);
        if (v.size() != n || v.nvals() != n) { violation(std::string(w) + ":missing", fmt("%lu of %lu vertices ranked\n", (unsigned long)v.nvals(), (unsigned long)n) + in); return false; }
        for (Idx i = 0; i < n; ++i)
        {
            if (!v.hasElement(i)) { violation(std::string(w) + ":missing", fmt("vertex %lu\n", (unsigned long)i) + in); return false; }
            x[i] = v.extractElement(i);
            if (!(x[i] >= (1 - (double)d) / (double)n * (1 - eps) - 1e-30)) { violation(std::string(w) + ":teleport", fmt("vertex %lu has rank %.9g below the teleport share\n", (unsigned long)i, x[i]) + in); return false; }
        }
        double s = 0; for (double y : x) s += y;
        if (s > 1 + eps * (double)(n + 4)) { violation(std::string(w) + ":mass", fmt("total rank %.12g exceeds 1\n", s) + in); return false; }
        return true;
    };
    auto fresh = [&] { grb::Vector<R> p(n); if (r.below(2)) for (Idx i = 0; i < n; ++i) if (r.below(2)) p.setElement(i, (R)r.below(9)); return p; };
    {   // run to convergence: the residual of the fixed-point equation is within the documented threshold
        double th = sp ? std::pow(10.0, -4 - (int)r.below(6)) : std::pow(10.0, -4 - (int)r.below(20));
        auto p = fresh(); label("page_rank"); algorithms::page_rank(G, p, d, (R)th); count("page_rank converged runs");
        std::vector<double> x; 
        if (get(p, x, "page_rank"))
        {
            auto y = F(x); double l1 = 0; for (Idx i = 0; i < n; ++i) l1 += std::fabs(x[i] - y[i]);
            double bound = (double)d * (double)n * std::sqrt(th) * (1 + 1e-6) + eps * 4;
            if (l1 > bound) violation("page_rank:residual", fmt("residual %.3g exceeds %.3g (threshold %g)\n", l1, bound, th) + in);
            // distance to the exact stationary vector
            std::vector<double> e(n, 1.0 / n); for (int k = 0; k < 4000; ++k) { auto z = F(e); double c = 0; for (Idx i = 0; i < n; ++i) c += std::fabs(z[i] - e[i]); e.swap(z); if (c < 1e-15) break; }
            double dist = 0; for (Idx i = 0; i < n; ++i) dist += std::fabs(e[i] - x[i]);
            if (dist > bound / (1 - (double)d) + eps) violation("page_rank:distance", fmt("L1 distance %.3g from the stationary ranks\n", dist) + in);
            if (noin == 0 && dangling == 0) { double s = 0; for (double v : x) s += v; if (std::fabs(s - 1) > eps * (double)(n + 4)) violation("page_rank:sum", fmt("ranks sum to %.12g\n", s) + in); count("stochastic graphs"); }
        }
    }
    {   // a bounded number of iterations from the uniform vector
        unsigned k = 1 + r.below(r.below(3) ? 6 : 30); auto p = fresh(); label("page_rank max_iters"); algorithms::page_rank(G, p, d, (R)0, k); count("page_rank bounded runs");
        std::vector<double> x, e(n, 1.0 / n); for (unsigned i = 0; i < k; ++i) e = F(e);
        if (get(p, x, "page_rank bounded")) for (Idx i = 0; i < n; ++i) if (!close(x[i], e[i], sp ? 1e-4 : 1e-9, sp ? 1e-6 : 1e-12)) { violation("page_rank:iterations", fmt("after %u iterations vertex %lu has %.9g, expected %.9g\n", k, (unsigned long)i, x[i], e[i]) + in); break; }
    }
    if (dangling) count("graphs with dangling vertices"); if (noin) count("graphs with vertices without in-edges");
    seen(mix(g.key() ^ (uint64_t)((double)d * 1000)), g.m() > 0 && d > 0); if (g.m()) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
