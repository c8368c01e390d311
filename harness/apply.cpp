#include "types.hpp"
using namespace vh;
using DU = decltype(UN()(AT()));
using DB = decltype(BIN()(AT(), BT()));
template <class X> static void nz(X &v) { if (PROFILE == 5) v = v < X(0) ? X(-2) : X(2); }
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); std::string e;
    int form = r.below(3);      // 0 unary, 1 bind1st (const first), 2 bind2nd
    static const char *fn[] = {"unary", "bind1st", "bind2nd"};
    Idx k = gdim(r), n = gdim(r), stored = 0;
    AT cl = gval<AT>(r); BT cr = gval<BT>(r); nz(cr);
    auto done = [&](std::string const &cfg, std::string const &in, uint64_t h) {
        count(cfg); count("mapped entries", stored);
        seen(mix(hstr(cfg) ^ h), stored > 0); if (stored) sample(in);
    };
    if (r.below(3) == 0)
    {
        VV<CT> w = gvec<CT>(r, n); VV<MT> M = gmaskv<MT>(r, n); auto W = vh::mk(w, r); auto Mk = vh::mk(M, r);
        std::string cfg = fmt("apply vec %s ", fn[form]) + g.s(); label(cfg);
        auto go = [&](auto const &u, auto const &U, auto const &T, auto f) {
            stored = u.nvals();
            std::string in = cfg + " " + opsel() + " cl=" + vs(cl) + " cr=" + vs(cr) + "\nw=" + str(w) + "\nu=" + str(u) + "\nM=" + str(M);
            call(g, Mk, f);
            if (!(e = diff(W, writeback(w, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
            if (!(e = diff(U, u)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
            done(cfg, in, shape(w) * 3 ^ shape(M) * 11 ^ shape(u) * 5);
        };
        if (form == 1)
        {
            VV<BT> u = gvec<BT>(r, n); for (auto &c : u.a) if (c.h) nz(c.v);
            auto U = vh::mk(u, r); VV<DB> T(n); for (Idx i = 0; i < n; ++i) if (u.at(i).h) T.set(i, BIN()(cl, u.at(i).v));
            go(u, U, T, [&](auto const &m, auto ac, auto o) { grb::apply(W, m, ac, BIN(), cl, U, o); });
        }
        else
        {
            VV<AT> u = gvec<AT>(r, n); auto U = vh::mk(u, r);
            if (form == 0) { VV<DU> T(n); for (Idx i = 0; i < n; ++i) if (u.at(i).h) T.set(i, UN()(u.at(i).v));
                go(u, U, T, [&](auto const &m, auto ac, auto o) { grb::apply(W, m, ac, UN(), U, o); }); }
            else { VV<DB> T(n); for (Idx i = 0; i < n; ++i) if (u.at(i).h) T.set(i, BIN()(u.at(i).v, cr));
                go(u, U, T, [&](auto const &m, auto ac, auto o) { grb::apply(W, m, ac, BIN(), U, cr, o); }); }
        }
    }
    else
    {
        bool tr = r.below(2);
        MM<CT> c = gmat<CT>(r, n, k); MM<MT> M = gmask<MT>(r, n, k); auto C = vh::mk(c, r); auto Mk = vh::mk(M, r);
        std::string cfg = fmt("apply mat %s %s ", fn[form], tr ? "A'" : "A") + g.s(); label(cfg);
        auto go = [&](auto const &a, auto const &A, auto const &T, auto f) {
            stored = a.nvals();
            std::string in = cfg + " " + opsel() + " cl=" + vs(cl) + " cr=" + vs(cr) + "\nC=" + str(c) + "\nA=" + str(a) + "\nM=" + str(M);
            call(g, Mk, f);
            if (!(e = diff(C, writeback(c, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
            if (!(e = diff(A, a)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
            done(cfg, in, shape(c) * 3 ^ shape(M) * 11 ^ shape(a) * 5);
        };
        if (form == 1)
        {
            MM<BT> a = tr ? gmat<BT>(r, k, n) : gmat<BT>(r, n, k); for (auto &x : a.a) if (x.h) nz(x.v);
            auto A = vh::mk(a, r); auto ea = tr ? a.tr() : a; MM<DB> T(n, k);
            for (size_t i = 0; i < T.a.size(); ++i) if (ea.a[i].h) { T.a[i].h = true; T.a[i].v = BIN()(cl, ea.a[i].v); }
            go(a, A, T, [&](auto const &m, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) { grb::apply(C, m, ac, BIN(), cl, AA, o); }); });
        }
        else
        {
            MM<AT> a = tr ? gmat<AT>(r, k, n) : gmat<AT>(r, n, k); auto A = vh::mk(a, r); auto ea = tr ? a.tr() : a;
            if (form == 0) { MM<DU> T(n, k); for (size_t i = 0; i < T.a.size(); ++i) if (ea.a[i].h) { T.a[i].h = true; T.a[i].v = UN()(ea.a[i].v); }
                go(a, A, T, [&](auto const &m, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) { grb::apply(C, m, ac, UN(), AA, o); }); }); }
            else { MM<DB> T(n, k); for (size_t i = 0; i < T.a.size(); ++i) if (ea.a[i].h) { T.a[i].h = true; T.a[i].v = BIN()(ea.a[i].v, cr); }
                go(a, A, T, [&](auto const &m, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) { grb::apply(C, m, ac, BIN(), AA, cr, o); }); }); }
        }
    }
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
