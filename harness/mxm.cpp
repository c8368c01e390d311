// Matrix-matrix multiply against a dense reference.
#include "ops.hpp"
using namespace vh;
#ifndef PROFILE
#define PROFILE 1
#endif
#if PROFILE == 1
using CT = I64; using AT = I64; using BT = I64; using MT = bool; using SR = SR64; using ACC = Acc64;
#elif PROFILE == 2
using CT = int32_t; using AT = double; using BT = int32_t; using MT = double; using SR = SRmix; using ACC = AccMix;
#elif PROFILE == 3
using CT = double; using AT = bool; using BT = uint8_t; using MT = int32_t; using SR = grb::MinPlusSemiring<double>; using ACC = grb::Min<double>;
#else
using CT = bool; using AT = bool; using BT = bool; using MT = bool; using SR = grb::LogicalSemiring<bool>; using ACC = grb::LogicalOr<bool>;
#endif

static void one(Rng &r, uint64_t)
{
    g_add() = r.below(NADD); g_mul() = r.below(NBIN);
    Idx n = gdim(r), m = gdim(r), k = gdim(r);
    bool ta = r.below(2), tb = r.below(2), acc = r.below(2), repl = r.below(2);
    int mk = r.below(NMASKKINDS);
    MM<CT> c = gmat<CT>(r, n, m);
    MM<AT> a = ta ? gmat<AT>(r, k, n) : gmat<AT>(r, n, k);
    MM<BT> b = tb ? gmat<BT>(r, m, k) : gmat<BT>(r, k, m);
    MM<MT> M = gmask<MT>(r, n, m);
    auto C = vh::mk(c, r); auto A = vh::mk(a, r); auto B = vh::mk(b, r); auto Mk = vh::mk(M, r);

    MM<AT> ea = ta ? a.tr() : a; MM<BT> eb = tb ? b.tr() : b;
    using D = typename SR::result_type;
    SR sr; MM<D> T(n, m); Idx flops = 0;
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < m; ++j)
    {
        bool f = false; D s{};
        for (Idx q = 0; q < k; ++q) if (ea.at(i, q).h && eb.at(q, j).h)
        {
            D p = sr.mult(ea.at(i, q).v, eb.at(q, j).v);
            s = f ? sr.add(s, p) : p; f = true; ++flops;
        }
        if (f) T.set(i, j, s);
    }
    MM<CT> want = writeback(c, T, mk, M, acc, ACC(), repl);

    std::string cfg = fmt("mxm %s%s %s %s %s", ta ? "A'" : "A", tb ? "B'" : "B", mkname(mk), acc ? "accum" : "noaccum", repl ? "replace" : "merge");
    label(cfg);
    with_mask(mk, Mk, [&](auto const &mask) { with_accum<ACC>(acc, [&](auto ac) {
        with_tr(ta, A, [&](auto const &AA) { with_tr(tb, B, [&](auto const &BB) {
            grb::mxm(C, mask, ac, sr, AA, BB, repl ? grb::REPLACE : grb::MERGE);
        }); }); }); });
    std::string e = diff(C, want);
    auto in = [&] { return fmt("%s add=%d mul=%d\nC=%s\nA=%s\nB=%s\nM=%s", cfg.c_str(), g_add(), g_mul(), str(c).c_str(), str(a).c_str(), str(b).c_str(), str(M).c_str()); };
    if (!e.empty()) violation(cfg, e + "\n" + in());
    if (!(e = diff(A, a)).empty() || !(e = diff(B, b)).empty() || !(e = diff(Mk, M)).empty())
        violation("input-modified " + cfg, e + "\n" + in());
    count(cfg);
    seen(mix(hstr(cfg) ^ shape(c) * 3 ^ shape(a) * 5 ^ shape(b) * 7 ^ shape(M) * 11), flops > 0);
    count("products", flops);
    if (flops) sample(in());
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
