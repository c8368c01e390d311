#include "types.hpp"
using namespace vh;
using D = decltype(BIN()(AT(), BT()));
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); std::string e; bool ta = r.below(2), tb = r.below(2);
    Idx ar = 1 + r.below(4), ac_ = 1 + r.below(4), br = 1 + r.below(4), bc = 1 + r.below(4);
    if (scale().lev == 1) { ar = 1 + r.below(24); ac_ = 1 + r.below(24); br = 1 + r.below(9); bc = 1 + r.below(9); }
    if (scale().lev == 2) { ar = br = 1; ac_ = 250 + r.below(60); bc = 250 + r.below(60); if (r.below(2)) { std::swap(ar, ac_); std::swap(br, bc); } }
    Idx n = ar * br, k = ac_ * bc;
    MM<CT> c = gmat<CT>(r, n, k); MM<MT> M = gmask<MT>(r, n, k);
    MM<AT> a = ta ? gmat<AT>(r, ac_, ar) : gmat<AT>(r, ar, ac_); MM<BT> b = tb ? gmat<BT>(r, bc, br) : gmat<BT>(r, br, bc);
    if (PROFILE == 5) for (auto &x : b.a) if (x.h) x.v = x.v < BT(0) ? BT(-2) : BT(2);
    auto C = vh::mk(c, r); auto Mk = vh::mk(M, r); auto A = vh::mk(a, r); auto B = vh::mk(b, r);
    auto ea = ta ? a.tr() : a; auto eb = tb ? b.tr() : b;
    MM<D> T(n, k); Idx flops = 0;
    for (Idx i = 0; i < ar; ++i) for (Idx j = 0; j < ac_; ++j) if (ea.at(i, j).h)
        for (Idx p = 0; p < br; ++p) for (Idx q = 0; q < bc; ++q) if (eb.at(p, q).h) { T.set(i * br + p, j * bc + q, BIN()(ea.at(i, j).v, eb.at(p, q).v)); ++flops; }
    std::string cfg = fmt("kronecker %s%s ", ta ? "A'" : "A", tb ? "B'" : "B") + g.s(); label(cfg);
    std::string in = cfg + " " + opsel() + "\nC=" + str(c) + "\nA=" + str(a) + "\nB=" + str(b) + "\nM=" + str(M);
    call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(ta, A, [&](auto const &AA) { with_tr(tb, B, [&](auto const &BB) { grb::kronecker(C, m, ac, BIN(), AA, BB, o); }); }); });
    if (!(e = diff(C, writeback(c, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
    if (!(e = diff(A, a)).empty() || !(e = diff(B, b)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    count(cfg); count("products", flops); seen(mix(hstr(cfg) ^ shape(c) * 3 ^ shape(M) * 11 ^ shape(a) * 5 ^ shape(b) * 7), flops > 0);
    if (flops) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
