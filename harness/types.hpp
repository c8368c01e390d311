// Scalar-type / operator profiles shared by the operation drivers.
#pragma once
#include "ops.hpp"
#ifndef PROFILE
#define PROFILE 1
#endif
namespace vh
{
struct UnMix { double operator()(double a) const { switch (g_uop()) { case 0: return a * 2 - 1; case 1: return -a; case 2: return 0; default: return a != 0 ? 0.5 : 0; } } };
#if PROFILE == 1
using CT = I64; using AT = I64; using BT = I64; using MT = bool; using SR = SR64; using ACC = Acc64; using BIN = Bin64; using UN = Un64; using MON = Add64;
#elif PROFILE == 2
using CT = int32_t; using AT = double; using BT = int32_t; using MT = double; using SR = SRmix; using ACC = AccMix; using BIN = BinMix; using UN = UnMix; using MON = grb::PlusMonoid<double>;
#elif PROFILE == 3
using CT = double; using AT = bool; using BT = uint8_t; using MT = int32_t; using SR = grb::MinPlusSemiring<double>; using ACC = grb::Minus<double>; using BIN = grb::Minus<double>; using UN = grb::AdditiveInverse<double>; using MON = grb::MaxMonoid<double>;
#elif PROFILE == 4
using CT = bool; using AT = bool; using BT = bool; using MT = bool; using SR = grb::LogicalSemiring<bool>; using ACC = grb::LogicalXor<bool>; using BIN = grb::GreaterThan<bool>; using UN = grb::LogicalNot<bool>; using MON = grb::LogicalXorMonoid<bool>;
#elif PROFILE == 6   // one scalar type everywhere, so that any container can play any role
using CT = I64; using AT = I64; using BT = I64; using MT = I64; using SR = SR64; using ACC = Acc64; using BIN = Bin64; using UN = Un64; using MON = Add64;
#elif PROFILE == 7
using CT = double; using AT = double; using BT = double; using MT = double; using SR = grb::MinPlusSemiring<double>; using ACC = grb::Minus<double>; using BIN = grb::Minus<double>; using UN = grb::AdditiveInverse<double>; using MON = grb::MaxMonoid<double>;
#elif PROFILE == 8
using CT = bool; using AT = bool; using BT = bool; using MT = bool; using SR = grb::LogicalSemiring<bool>; using ACC = grb::LogicalXor<bool>; using BIN = grb::GreaterThan<bool>; using UN = grb::LogicalNot<bool>; using MON = grb::LogicalXorMonoid<bool>;
#elif PROFILE == 9   // modular arithmetic, exact in any order
using CT = uint8_t; using AT = uint8_t; using BT = uint8_t; using MT = uint8_t; using SR = grb::ArithmeticSemiring<uint8_t>; using ACC = grb::Minus<uint8_t>; using BIN = grb::Times<uint8_t>; using UN = grb::AdditiveInverse<uint8_t>; using MON = grb::PlusMonoid<uint8_t>;
#else
using CT = float; using AT = int16_t; using BT = float; using MT = uint64_t; using SR = grb::ArithmeticSemiring<float>; using ACC = grb::Second<float>; using BIN = grb::Div<float>; using UN = grb::Abs<int16_t>; using MON = grb::PlusMonoid<float>;
#endif
inline void pick_ops(Rng &r) { g_add() = r.below(NADD); g_mul() = r.below(NBIN); g_bop() = r.below(NBIN); g_uop() = r.below(4); }
inline std::string opsel() { return fmt("add=%d mul=%d bop=%d uop=%d", g_add(), g_mul(), g_bop(), g_uop()); }
inline grb::OutputControlEnum oc(bool repl) { return repl ? grb::REPLACE : grb::MERGE; }

struct Cfg
{
    int mk; bool acc, repl;
    explicit Cfg(Rng &r) : mk(r.below(NMASKKINDS)), acc(r.below(2)), repl(r.below(2)) {}
    std::string s() const { return fmt("%s %s %s", mkname(mk), acc ? "accum" : "noaccum", repl ? "replace" : "merge"); }
};
// mask + accumulator dispatch
template <class M, class F> void call(Cfg const &g, M const &mask, F f)
{
    with_mask(g.mk, mask, [&](auto const &m) { with_accum<ACC>(g.acc, [&](auto ac) { f(m, ac, oc(g.repl)); }); });
}

// ---- index sequences
enum SeqKind { LIST = 0, RANGE, ALL };
struct Seq
{
    int kind = LIST;
    std::vector<Idx> ix;     // expanded
    Idx lo = 0, hi = 0;
    std::string s() const
    {
        std::string o = kind == LIST ? "list[" : kind == RANGE ? "range[" : "all[";
        for (auto i : ix) o += std::to_string(i) + " ";
        return o + "]";
    }
    const char *k() const { return kind == LIST ? "list" : kind == RANGE ? "range" : "all"; }
};
template <class F> void with_seq(Seq const &s, F f)
{
    if (s.kind == LIST) { grb::IndexArrayType v(s.ix.begin(), s.ix.end()); f(v); }
    else if (s.kind == RANGE) f(grb::IndexSequenceRange(s.lo, s.hi));
    else f(grb::AllIndices());
}
// A sequence into 0..n-1; dup: repeats allowed; len 0 means any; unique sequences have length <= n
inline Seq gseq(Rng &r, Idx n, bool dup, int kind = -1)
{
    Seq s;
    s.kind = kind >= 0 ? kind : (int)r.below(3);
    if (s.kind == ALL) for (Idx i = 0; i < n; ++i) s.ix.push_back(i);
    else if (s.kind == RANGE)
    {
        s.lo = r.below(n); s.hi = s.lo + 1 + r.below(n - s.lo);
        for (Idx i = s.lo; i < s.hi; ++i) s.ix.push_back(i);
    }
    else if (dup && r.below(2))
    {
        Idx len = 1 + r.below(n + 3);
        for (Idx i = 0; i < len; ++i) s.ix.push_back(r.below(n));
    }
    else
    {
        for (Idx i = 0; i < n; ++i) s.ix.push_back(i);
        int order = r.below(4);       // sorted, reversed, shuffled x2
        for (Idx k = n; k > 1; --k) std::swap(s.ix[k - 1], s.ix[r.below(k)]);
        s.ix.resize(1 + r.below(n));
        if (order == 0) std::sort(s.ix.begin(), s.ix.end());
        if (order == 1) { std::sort(s.ix.begin(), s.ix.end()); std::reverse(s.ix.begin(), s.ix.end()); }
    }
    return s;
}
} // namespace vh
