#include "types.hpp"
using namespace vh;
static void one(Rng &r, uint64_t)
{
    Cfg g(r); std::string e; bool ta = r.below(2);
    Idx n = gdim(r), k = gdim(r);
    MM<CT> c = gmat<CT>(r, n, k); MM<MT> M = gmask<MT>(r, n, k);
    MM<AT> a = ta ? gmat<AT>(r, n, k) : gmat<AT>(r, k, n);
    auto C = vh::mk(c, r); auto Mk = vh::mk(M, r); auto A = vh::mk(a, r);
    MM<AT> T = ta ? a : a.tr();
    std::string cfg = fmt("transpose %s ", ta ? "A'" : "A") + g.s(); label(cfg);
    std::string in = cfg + "\nC=" + str(c) + "\nA=" + str(a) + "\nM=" + str(M);
    call(g, Mk, [&](auto const &m, auto ac, auto o) { with_tr(ta, A, [&](auto const &AA) { grb::transpose(C, m, ac, AA, o); }); });
    if (!(e = diff(C, writeback(c, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
    if (!(e = diff(A, a)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    if (r.below(4) == 0)
    {   // twice = identity
        grb::Matrix<AT> X(a.nc, a.nr), Y(a.nr, a.nc);
        grb::transpose(X, grb::NoMask(), grb::NoAccumulate(), A);
        grb::transpose(Y, grb::NoMask(), grb::NoAccumulate(), X);
        if (!(e = diff(Y, a)).empty() || !(e = diff(X, a.tr())).empty()) violation("transpose twice", e + "\n" + in);
        count("involution checks");
    }
    count(cfg); count("moved entries", a.nvals()); seen(mix(hstr(cfg) ^ shape(c) * 3 ^ shape(M) * 11 ^ shape(a) * 5), a.nvals() > 0);
    if (a.nvals()) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
