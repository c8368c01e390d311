#include "types.hpp"
using namespace vh;
#ifndef MULT
#define MULT 0
#endif
using D = decltype(BIN()(AT(), BT()));
template <class TA, class TB> bool comb(Cell<TA> const &a, Cell<TB> const &b, Cell<D> &o)
{
    if (a.h && b.h) { o.h = true; o.v = BIN()(a.v, b.v); return true; }
    if (!MULT && a.h) { o.h = true; o.v = (D)a.v; }
    if (!MULT && b.h) { o.h = true; o.v = (D)b.v; }
    return false;
}
static const char *NM = MULT ? "eWiseMult" : "eWiseAdd";
static void nodiv0(Cell<BT> &c) { if (PROFILE == 5 && c.h && c.v == BT(0)) c.v = BT(4); if (PROFILE == 5 && c.h) c.v = c.v < 0 ? BT(-2) : BT(2); }
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r);
    Idx hits = 0; std::string e;
    if (r.below(3) == 0)
    {
        Idx n = gdimv(r);
        VV<CT> w = gvec<CT>(r, n); VV<MT> M = gmaskv<MT>(r, n); VV<AT> u = gvec<AT>(r, n); VV<BT> v = gvec<BT>(r, n);
        for (auto &c : v.a) nodiv0(c);
        auto W = vh::mk(w, r); auto Mk = vh::mk(M, r); auto U = vh::mk(u, r); auto V = vh::mk(v, r);
        VV<D> T(n); for (Idx i = 0; i < n; ++i) hits += comb(u.at(i), v.at(i), T.at(i));
        std::string cfg = fmt("%s vec ", NM) + g.s(); label(cfg);
        std::string in = cfg + " " + opsel() + "\nw=" + str(w) + "\nu=" + str(u) + "\nv=" + str(v) + "\nM=" + str(M);
        call(g, Mk, [&](auto const &m, auto ac, auto o) {
            if constexpr (MULT) grb::eWiseMult(W, m, ac, BIN(), U, V, o); else grb::eWiseAdd(W, m, ac, BIN(), U, V, o); });
        if (!(e = diff(W, writeback(w, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(U, u)).empty() || !(e = diff(V, v)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); seen(mix(hstr(cfg) ^ shape(w) * 3 ^ shape(M) * 11 ^ shape(u) * 5 ^ shape(v) * 7), u.nvals() && v.nvals());
        if (hits) sample(in);
    }
    else
    {
        Idx n = gdim(r), k = gdim(r); bool ta = r.below(2), tb = r.below(2);
        MM<CT> c = gmat<CT>(r, n, k); MM<MT> M = gmask<MT>(r, n, k);
        MM<AT> a = ta ? gmat<AT>(r, k, n) : gmat<AT>(r, n, k); MM<BT> b = tb ? gmat<BT>(r, k, n) : gmat<BT>(r, n, k);
        for (auto &x : b.a) nodiv0(x);
        auto C = vh::mk(c, r); auto Mk = vh::mk(M, r); auto A = vh::mk(a, r); auto B = vh::mk(b, r);
        auto ea = ta ? a.tr() : a; auto eb = tb ? b.tr() : b;
        MM<D> T(n, k); for (size_t i = 0; i < T.a.size(); ++i) hits += comb(ea.a[i], eb.a[i], T.a[i]);
        std::string cfg = fmt("%s mat %s%s ", NM, ta ? "A'" : "A", tb ? "B'" : "B") + g.s(); label(cfg);
        std::string in = cfg + " " + opsel() + "\nC=" + str(c) + "\nA=" + str(a) + "\nB=" + str(b) + "\nM=" + str(M);
        call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(ta, A, [&](auto const &AA) { with_tr(tb, B, [&](auto const &BB) {
            if constexpr (MULT) grb::eWiseMult(C, m, ac, BIN(), AA, BB, o); else grb::eWiseAdd(C, m, ac, BIN(), AA, BB, o); }); }); });
        if (!(e = diff(C, writeback(c, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(A, a)).empty() || !(e = diff(B, b)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); seen(mix(hstr(cfg) ^ shape(c) * 3 ^ shape(M) * 11 ^ shape(a) * 5 ^ shape(b) * 7), a.nvals() && b.nvals());
        if (hits) sample(in);
    }
    count("intersection positions", hits);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
