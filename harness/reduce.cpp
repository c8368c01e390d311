#include "types.hpp"
using namespace vh;
#if PROFILE == 1
using RBIN = Add64;
#elif PROFILE == 2
using RBIN = grb::Plus<double>;
#elif PROFILE == 3
using RBIN = grb::Max<double>;
#elif PROFILE == 4
using RBIN = grb::LogicalXor<bool>;
#else
using RBIN = grb::Plus<float>;
#endif
using D = decltype(RBIN()(AT(), AT()));
using DM = decltype(MON()(AT(), AT()));
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); std::string e; Idx n = gdim(r), k = gdim(r), folded = 0;
    int form = r.below(5);
    if (form < 3)
    {
        bool ta = r.below(2), mon = r.below(2);
        VV<CT> w = gvec<CT>(r, n); VV<MT> M = gmaskv<MT>(r, n); MM<AT> a = ta ? gmat<AT>(r, k, n) : gmat<AT>(r, n, k);
        auto W = vh::mk(w, r); auto Mk = vh::mk(M, r); auto A = vh::mk(a, r); auto ea = ta ? a.tr() : a;
        std::string cfg = fmt("reduce rows %s %s ", ta ? "A'" : "A", mon ? "monoid" : "binop") + g.s(); label(cfg);
        std::string in = cfg + " " + opsel() + "\nw=" + str(w) + "\nA=" + str(a) + "\nM=" + str(M);
        auto go = [&](auto op) {
            using R = decltype(op(AT(), AT()));
            VV<R> T(n);
            for (Idx i = 0; i < n; ++i) { bool f = false; R s{}; for (Idx j = 0; j < k; ++j) if (ea.at(i, j).h) { s = f ? op(s, ea.at(i, j).v) : (R)ea.at(i, j).v; f = true; ++folded; } if (f) T.set(i, s); }
            call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(ta, A, [&](auto const &AA) { grb::reduce(W, m, ac, op, AA, o); }); });
            if (!(e = diff(W, writeback(w, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
        };
        if (mon) go(MON()); else go(RBIN());
        if (!(e = diff(A, a)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); seen(mix(hstr(cfg) ^ shape(w) * 3 ^ shape(M) * 11 ^ shape(a) * 5), folded > 0); if (folded) sample(in);
    }
    else
    {
        bool mat = form == 4; MON op; CT val0 = gval<CT>(r), val = val0;
        DM s = op.identity(); bool first = true;
        std::string cfg = fmt("reduce %s->scalar %s", mat ? "matrix" : "vector", g.acc ? "accum" : "noaccum"), in; label(cfg);
        uint64_t h;
        if (mat)
        {
            MM<AT> a = gmat<AT>(r, n, k); auto A = vh::mk(a, r); h = shape(a);
            for (auto &c : a.a) if (c.h) { s = op(s, c.v); first = false; ++folded; }
            in = cfg + " " + opsel() + " val=" + vs(val0) + "\nA=" + str(a);
            with_accum<ACC>(g.acc, [&](auto ac) { grb::reduce(val, ac, op, A); });
            if (!(e = diff(A, a)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        }
        else
        {
            VV<AT> a = gvec<AT>(r, n); auto A = vh::mk(a, r); h = shape(a);
            for (auto &c : a.a) if (c.h) { s = op(s, c.v); first = false; ++folded; }
            in = cfg + " " + opsel() + " val=" + vs(val0) + "\nu=" + str(a);
            with_accum<ACC>(g.acc, [&](auto ac) { grb::reduce(val, ac, op, A); });
            if (!(e = diff(A, a)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        }
        CT want = g.acc ? static_cast<CT>(ACC()(val0, s)) : static_cast<CT>(s);
        if (!eqv<CT>(val, want)) violation(cfg, "scalar " + vs(val) + ", expected " + vs(want) + "\n" + in);
        ++ctx().observations;
        count(cfg); count(first ? "scalar reduce of empty" : "scalar reduce of non-empty");
        seen(mix(hstr(cfg) ^ h), true); sample(in);
    }
    count("folded entries", folded);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
