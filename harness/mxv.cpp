#include "types.hpp"
using namespace vh;
using D = typename SR::result_type;
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); bool tr = r.below(2), left = r.below(2);
    Idx n = gdim(r), k = gdim(r);         // output n, inner k
    VV<CT> w = gvec<CT>(r, n); VV<MT> M = gmaskv<MT>(r, n);
    auto W = vh::mk(w, r); auto Mk = vh::mk(M, r);
    SR sr; VV<D> T(n); Idx flops = 0;
    std::string cfg = fmt("%s %s ", left ? "vxm" : "mxv", tr ? "A'" : "A") + g.s(), in;
    label(cfg);
    auto fin = [&](uint64_t h) {
        VV<CT> want = writeback(w, T, g.mk, M, g.acc, ACC(), g.repl);
        std::string e = diff(W, want);
        if (!e.empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(Mk, M)).empty()) violation("mask-modified " + cfg, e + "\n" + in);
        count(cfg); count("products", flops);
        seen(mix(hstr(cfg) ^ shape(w) * 3 ^ shape(M) * 11 ^ h), flops > 0);
        if (flops) sample(in);
    };
    if (!left)
    {   // w = A u : stored A is k x n when transposed
        MM<AT> a = tr ? gmat<AT>(r, k, n) : gmat<AT>(r, n, k); VV<BT> u = gvec<BT>(r, k);
        auto A = vh::mk(a, r); auto U = vh::mk(u, r); auto ea = tr ? a.tr() : a;
        for (Idx i = 0; i < n; ++i) { bool f = false; D s{};
            for (Idx q = 0; q < k; ++q) if (ea.at(i, q).h && u.at(q).h) { D p = sr.mult(ea.at(i, q).v, u.at(q).v); s = f ? sr.add(s, p) : p; f = true; ++flops; }
            if (f) T.set(i, s); }
        in = cfg + " " + opsel() + "\nw=" + str(w) + "\nA=" + str(a) + "\nu=" + str(u) + "\nM=" + str(M);
        call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) { grb::mxv(W, m, ac, sr, AA, U, o); }); });
        std::string e;
        if (!(e = diff(A, a)).empty() || !(e = diff(U, u)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        if (r.below(4) == 0)
        {   // agreement with the matrix product on a one-column matrix and with vxm on the transposed matrix for a flipped multiply
            grb::Matrix<BT> UM(k, 1); for (Idx q = 0; q < k; ++q) if (u.at(q).h) UM.setElement(q, 0, u.at(q).v);
            grb::Matrix<D> RM(n, 1); grb::Vector<D> RV(n);
            with_tr(tr, A, [&](auto const &AA) { grb::mxm(RM, grb::NoMask(), grb::NoAccumulate(), sr, AA, UM); grb::mxv(RV, grb::NoMask(), grb::NoAccumulate(), sr, AA, U); });
            for (Idx i = 0; i < n; ++i)
                if (RM.hasElement(i, 0) != RV.hasElement(i) || (RV.hasElement(i) && !eqv<D>(RM.extractElement(i, 0), RV.extractElement(i))))
                    violation("mxv-vs-mxm " + std::string(tr ? "A'" : "A"), fmt("row %lu\n", (unsigned long)i) + in);
            count("mxm agreement checks");
        }
        fin(shape(a) * 5 ^ shape(u) * 7);
    }
    else
    {   // w' = u' A
        MM<BT> a = tr ? gmat<BT>(r, n, k) : gmat<BT>(r, k, n); VV<AT> u = gvec<AT>(r, k);
        auto A = vh::mk(a, r); auto U = vh::mk(u, r); auto ea = tr ? a.tr() : a;
        for (Idx j = 0; j < n; ++j) { bool f = false; D s{};
            for (Idx q = 0; q < k; ++q) if (ea.at(q, j).h && u.at(q).h) { D p = sr.mult(u.at(q).v, ea.at(q, j).v); s = f ? sr.add(s, p) : p; f = true; ++flops; }
            if (f) T.set(j, s); }
        in = cfg + " " + opsel() + "\nw=" + str(w) + "\nA=" + str(a) + "\nu=" + str(u) + "\nM=" + str(M);
        call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) { grb::vxm(W, m, ac, sr, U, AA, o); }); });
        std::string e;
        if (!(e = diff(A, a)).empty() || !(e = diff(U, u)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        if (r.below(4) == 0)
        {
            grb::Matrix<AT> UM(1, k); for (Idx q = 0; q < k; ++q) if (u.at(q).h) UM.setElement(0, q, u.at(q).v);
            grb::Matrix<D> RM(1, n); grb::Vector<D> RV(n);
            with_tr(tr, A, [&](auto const &AA) { grb::mxm(RM, grb::NoMask(), grb::NoAccumulate(), sr, UM, AA); grb::vxm(RV, grb::NoMask(), grb::NoAccumulate(), sr, U, AA); });
            for (Idx i = 0; i < n; ++i)
                if (RM.hasElement(0, i) != RV.hasElement(i) || (RV.hasElement(i) && !eqv<D>(RM.extractElement(0, i), RV.extractElement(i))))
                    violation("vxm-vs-mxm " + std::string(tr ? "A'" : "A"), fmt("col %lu\n", (unsigned long)i) + in);
            count("mxm agreement checks");
        }
        fin(shape(a) * 5 ^ shape(u) * 7);
    }
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
