// P18: predefined operators, monoids, semirings and adaptors against definitions and laws.
// PROFILE 1: integers of every width, 2: floating point, 3: mixed operand/result types.
#include "vh.hpp"
#ifndef PROFILE
#define PROFILE 1
#endif
using namespace vh;
using I = __int128;
template <class T> const char *tn();
#define TN(t) template <> const char *tn<t>() { return #t; }
TN(bool) TN(int8_t) TN(uint8_t) TN(int16_t) TN(uint16_t) TN(int32_t) TN(uint32_t) TN(int64_t) TN(uint64_t) TN(float) TN(double)
static std::string istr(I v) { bool n = v < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128)v : v; do { s.insert(s.begin(), '0' + (char)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }
template <class T> std::string show(T v) { if constexpr (std::is_floating_point_v<T>) return fmt("%.17g", (double)v); else return istr((I)v); }
template <class T> bool same(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b); else return a == b; }
static std::set<std::string> &ops() { static std::set<std::string> s; return s; }
static void tally(const char *op, const char *t) { if (ops().insert(std::string(op) + "<" + t + ">").second) count("operator instantiations"); }
template <class T, class... A> void eq(const char *op, T got, T want, A... a)
{
    ++ctx().observations;
    if (!same(got, want)) { std::string s = std::string(op) + "(" ; ((s += show(a) + ","), ...); violation(std::string(op) + "|" + tn<T>(), s + ") = " + show(got) + ", defined as " + show(want)); }
}
#define TALLY(op) tally(op, tn<T>())
// ---- integers: exact arithmetic in 128 bits, wrapped to the type; skipped where the promoted operation would overflow
template <class T> T wrap(I v) { if constexpr (std::is_same_v<T, bool>) return v != 0; else return (T)(uint64_t)v; }
template <class T> bool fits(I v) { using P = decltype(T() + T()); return std::is_unsigned_v<P> || (v >= (I)std::numeric_limits<P>::min() && v <= (I)std::numeric_limits<P>::max()); }
template <class T> void ints(T a, T b)
{
    I x = a, y = b;
#define B2(OP, V) do { TALLY(#OP); if (fits<T>(V)) eq(#OP, grb::OP<T>()(a, b), wrap<T>(V), a, b); } while (0)
    B2(Plus, x + y); B2(Minus, x - y); B2(Times, (std::numeric_limits<T>::digits > 60 && std::is_unsigned_v<T>) ? (I)(uint64_t)(a * (uint64_t)b) : x * y);
    if (y != 0) B2(Div, x / y);
    B2(First, x); B2(Second, y); B2(Min, x < y ? x : y); B2(Max, x > y ? x : y);
    B2(LogicalOr, x != 0 || y != 0); B2(LogicalAnd, x != 0 && y != 0); B2(LogicalXor, (x != 0) != (y != 0)); B2(LogicalXnor, (x != 0) == (y != 0));
    uint64_t ua = (uint64_t)x, ub = (uint64_t)y;
    auto bits = [&](uint64_t v) { if constexpr (std::is_same_v<T, bool>) return (I)(int64_t)v; else return (I)(int64_t)v; };
    TALLY("BitwiseOr"); eq("BitwiseOr", grb::BitwiseOr<T>()(a, b), wrap<T>(bits(ua | ub)), a, b);
    TALLY("BitwiseAnd"); eq("BitwiseAnd", grb::BitwiseAnd<T>()(a, b), wrap<T>(bits(ua & ub)), a, b);
    TALLY("BitwiseXor"); eq("BitwiseXor", grb::BitwiseXor<T>()(a, b), wrap<T>(bits(ua ^ ub)), a, b);
    TALLY("BitwiseXnor"); eq("BitwiseXnor", grb::BitwiseXnor<T>()(a, b), wrap<T>(bits(~(ua ^ ub))), a, b);
    TALLY("BitwiseNot"); eq("BitwiseNot", grb::BitwiseNot<T>()(a), wrap<T>(bits(~ua)), a);
#define C2(OP, E) do { TALLY(#OP); eq(#OP, grb::OP<T>()(a, b), (bool)(E), a, b); } while (0)
    C2(Equal, x == y); C2(NotEqual, x != y); C2(GreaterThan, x > y); C2(LessThan, x < y); C2(GreaterEqual, x >= y); C2(LessEqual, x <= y);
#define U1(OP, V) do { TALLY(#OP); if (fits<T>(V)) eq(#OP, grb::OP<T>()(a), wrap<T>(V), a); } while (0)
    U1(Identity, x); U1(AdditiveInverse, -x); U1(Abs, x < 0 ? -x : x); U1(LogicalNot, x == 0); if (x != 0) U1(MultiplicativeInverse, (I)1 / x);
    // small non-negative powers are exact
    { T e = wrap<T>(y & 7); I p = 1; for (I k = 0; k < (I)e; ++k) if (p < ((I)1 << 52) && p > -((I)1 << 52)) p *= x; if (p < ((I)1 << 52) && p > -((I)1 << 52) && p >= (I)std::numeric_limits<T>::min() && p <= (I)std::numeric_limits<T>::max()) { TALLY("Power"); eq("Power", grb::Power<T>()(a, e), wrap<T>(p), a, e); } }
}
template <class T> void floats(T a, T b)
{
    TALLY("Plus"); eq<T>("Plus", grb::Plus<T>()(a, b), a + b, a, b); TALLY("Minus"); eq<T>("Minus", grb::Minus<T>()(a, b), a - b, a, b);
    TALLY("Times"); eq<T>("Times", grb::Times<T>()(a, b), a * b, a, b); TALLY("Div"); if (b != 0) eq<T>("Div", grb::Div<T>()(a, b), a / b, a, b);
    TALLY("First"); eq("First", grb::First<T>()(a, b), a, a, b); TALLY("Second"); eq("Second", grb::Second<T>()(a, b), b, a, b);
    TALLY("Min"); eq("Min", grb::Min<T>()(a, b), b < a ? b : a, a, b); TALLY("Max"); eq("Max", grb::Max<T>()(a, b), b > a ? b : a, a, b);
    TALLY("LogicalOr"); eq("LogicalOr", grb::LogicalOr<T>()(a, b), (T)(a != 0 || b != 0), a, b); TALLY("LogicalAnd"); eq("LogicalAnd", grb::LogicalAnd<T>()(a, b), (T)(a != 0 && b != 0), a, b);
    TALLY("LogicalXor"); eq("LogicalXor", grb::LogicalXor<T>()(a, b), (T)((a != 0) != (b != 0)), a, b); TALLY("LogicalXnor"); eq("LogicalXnor", grb::LogicalXnor<T>()(a, b), (T)((a != 0) == (b != 0)), a, b);
    C2(Equal, a == b); C2(NotEqual, a != b); C2(GreaterThan, b < a); C2(LessThan, a < b); C2(GreaterEqual, b <= a); C2(LessEqual, a <= b);
    TALLY("Identity"); eq("Identity", grb::Identity<T>()(a), a, a); TALLY("AdditiveInverse"); eq<T>("AdditiveInverse", grb::AdditiveInverse<T>()(a), 0 - a, a);
    TALLY("Abs"); eq<T>("Abs", grb::Abs<T>()(a), a < 0 ? 0 - a : a, a); TALLY("LogicalNot"); eq("LogicalNot", grb::LogicalNot<T>()(a), (T)(a == 0), a);
    if (a != 0) { TALLY("MultiplicativeInverse"); eq<T>("MultiplicativeInverse", grb::MultiplicativeInverse<T>()(a), (T)1 / a, a); }
    if (std::isfinite(b) && std::fabs(a) <= 64 && a * 8 == std::floor(a * 8)) { int e = (int)((uint64_t)std::fabs(std::fmod(b, 4)) & 3); T p = 1; for (int k = 0; k < e; ++k) p *= a; TALLY("Power"); eq<T>("Power", grb::Power<T>()(a, (T)e), p, a, (T)e); }
}
// ---- monoid laws
template <class T, class M> void monoid(const char *nm, M m, T a, T b, T c, T id, bool assoc)
{
    TALLY(nm); eq(nm, m.identity(), id); std::string n = nm;
    eq((n + " left identity").c_str(), m(m.identity(), a), a, a); eq((n + " right identity").c_str(), m(a, m.identity()), a, a);
    if (!assoc) return;
    eq((n + " commutes").c_str(), m(a, b), m(b, a), a, b); eq((n + " associates").c_str(), m(m(a, b), c), m(a, m(b, c)), a, b, c);
}
template <class T> constexpr T hi() { if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::infinity(); else return std::numeric_limits<T>::max(); }
template <class T> constexpr T lo() { if constexpr (std::is_floating_point_v<T>) return -std::numeric_limits<T>::infinity(); else return std::numeric_limits<T>::min(); }
// sums and products of the three values stay inside the type (or wrap harmlessly)
template <class T> bool tame(T a, T b, T c)
{
    if constexpr (std::is_floating_point_v<T>) return std::fabs(a) <= 64 && std::fabs(b) <= 64 && std::fabs(c) <= 64 && a * 4 == std::floor(a * 4) && b * 4 == std::floor(b * 4) && c * 4 == std::floor(c * 4);
    else if constexpr (sizeof(T) < 2 || std::is_unsigned_v<decltype(T() + T())>) return true;
    else if constexpr (sizeof(T) == 2) { I l = 30000; auto s = [&](T v) { return (I)v < l && (I)v > -l; }; return std::is_signed_v<T> ? s(a) && s(b) && s(c) : ((I)a < 200 && (I)b < 200 && (I)c < 200); }
    else { I l = sizeof(T) == 4 ? 1000 : 1000000; auto s = [&](T v) { return (I)v < l && (I)v > -l; }; return s(a) && s(b) && s(c); }
}
template <class T> void monoids(T a, T b, T c)
{
    bool t = tame(a, b, c);
    monoid<T>("PlusMonoid", grb::PlusMonoid<T>(), a, b, c, T(0), t); monoid<T>("TimesMonoid", grb::TimesMonoid<T>(), a, b, c, T(1), t);
    monoid<T>("MinMonoid", grb::MinMonoid<T>(), a, b, c, hi<T>(), true); monoid<T>("MaxMonoid", grb::MaxMonoid<T>(), a, b, c, lo<T>(), true);
    T p = a != 0, q = b != 0, s = c != 0;       // the logical monoids act on truth values
    monoid<T>("LogicalOrMonoid", grb::LogicalOrMonoid<T>(), p, q, s, T(0), true); monoid<T>("LogicalAndMonoid", grb::LogicalAndMonoid<T>(), p, q, s, T(1), true);
    monoid<T>("LogicalXorMonoid", grb::LogicalXorMonoid<T>(), p, q, s, T(0), true); monoid<T>("LogicalXnorMonoid", grb::LogicalXnorMonoid<T>(), p, q, s, T(1), true);
}
// ---- semirings: addition, multiplication and zero as named; adaptors agree
enum { ADD_PLUS, ADD_MIN, ADD_MAX, ADD_OR, ADD_AND, ADD_XOR, ADD_XNOR, M_TIMES, M_PLUS, M_MIN, M_MAX, M_AND, M_OR, M_FIRST, M_SECOND };
template <class T> T ev(int op, T a, T b)
{
    switch (op)
    {
    case ADD_PLUS: case M_PLUS: if constexpr (std::is_floating_point_v<T>) return a + b; else return wrap<T>((I)a + (I)b);
    case M_TIMES: if constexpr (std::is_floating_point_v<T>) return a * b; else return wrap<T>(sizeof(T) == 8 && std::is_unsigned_v<T> ? (I)((uint64_t)a * (uint64_t)b) : (I)a * (I)b);
    case ADD_MIN: case M_MIN: return b < a ? b : a;
    case ADD_MAX: case M_MAX: return a < b ? b : a;
    case ADD_OR: case M_OR: return a != 0 || b != 0;
    case ADD_AND: case M_AND: return a != 0 && b != 0;
    case ADD_XOR: return (a != 0) != (b != 0);
    case ADD_XNOR: return (a != 0) == (b != 0);
    case M_FIRST: return a;
    default: return b;
    }
}
template <class T> T zr(int op) { switch (op) { case ADD_MIN: return hi<T>(); case ADD_MAX: return lo<T>(); case ADD_AND: case ADD_XNOR: return T(1); default: return T(0); } }
template <class S, class T> void semiring(const char *nm, S s, int add, int mul, T a, T b)
{
    TALLY(nm); std::string n = nm;
    eq((n + ".add").c_str(), s.add(a, b), ev(add, a, b), a, b); eq((n + ".mult").c_str(), s.mult(a, b), ev(mul, a, b), a, b); eq((n + ".zero").c_str(), s.zero(), zr<T>(add));
    auto m = grb::multiply_op(s); auto d = grb::add_monoid(s);
    eq((n + " multiply_op").c_str(), m(a, b), ev(mul, a, b), a, b); eq((n + " add_monoid").c_str(), d(a, b), ev(add, a, b), a, b); eq((n + " add_monoid identity").c_str(), d.identity(), zr<T>(add));
}
#define SEMI(X) X(ArithmeticSemiring, ADD_PLUS, M_TIMES) X(MinPlusSemiring, ADD_MIN, M_PLUS) X(MaxPlusSemiring, ADD_MAX, M_PLUS) X(MinTimesSemiring, ADD_MIN, M_TIMES) X(MaxTimesSemiring, ADD_MAX, M_TIMES) \
    X(MinMaxSemiring, ADD_MIN, M_MAX) X(MaxMinSemiring, ADD_MAX, M_MIN) X(PlusMinSemiring, ADD_PLUS, M_MIN) X(LogicalSemiring, ADD_OR, M_AND) X(AndOrSemiring, ADD_AND, M_OR) X(XorAndSemiring, ADD_XOR, M_AND) X(XnorOrSemiring, ADD_XNOR, M_OR) \
    X(MinFirstSemiring, ADD_MIN, M_FIRST) X(MinSecondSemiring, ADD_MIN, M_SECOND) X(MaxFirstSemiring, ADD_MAX, M_FIRST) X(MaxSecondSemiring, ADD_MAX, M_SECOND)
template <class T> void semirings(T a, T b)
{
    if (!tame(a, b, T(1))) return;
#define S1(N, A, M) semiring(#N, grb::N<T>(), A, M, a, b);
    SEMI(S1)
}
// ---- values
template <class T> T val(Rng &r)
{
    if constexpr (std::is_same_v<T, bool>) return r.below(2);
    else if constexpr (std::is_floating_point_v<T>)
    {
        static const T ex[] = {0, (T)-0.0, 1, -1, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::epsilon(), (T)0.1, (T)1e10, (T)-1e-10};
        switch (r.below(4)) { case 0: return ex[r.below(14)]; case 1: return (T)((int64_t)r.below(257) - 128) / 4; case 2: return (T)std::ldexp((double)r.next(), (int)r.below(80) - 100) * (r.below(2) ? 1 : -1); default: return (T)((int64_t)r.below(33) - 16); }
    }
    else switch (r.below(5))
    {
    case 0: { static const int64_t d[] = {0, 1, 2, -1, -2}; int64_t k = d[r.below(5)]; T base = r.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); return (T)((uint64_t)base + (uint64_t)k); }
    case 1: return (T)(int64_t)(r.below(33) - 16);
    case 2: return (T)(r.next() >> r.below(64));
    case 3: return (T)((uint64_t)1 << r.below(sizeof(T) * 8));
    default: return (T)r.next();
    }
}
template <class T> void typed(Rng &r)
{
    count(std::string("type ") + tn<T>());
    for (int k = 0; k < 8; ++k)
    {
        T a = val<T>(r), b = r.below(5) ? val<T>(r) : a, c = val<T>(r); label(std::string("laws ") + tn<T>() + " " + show(a) + " " + show(b));
        if constexpr (std::is_floating_point_v<T>) floats<T>(a, b); else ints<T>(a, b);
        monoids<T>(a, b, c); semirings<T>(a, b);
        uint64_t h = hstr(tn<T>()); h = mix(h ^ std::hash<T>()(a)); h = mix(h ^ std::hash<T>()(b)); seen(h, a != 0 || b != 0);
    }
}
template <class T> void all8(uint64_t row)
{
    for (int y = 0; y < 256; ++y) { T a = (T)row, b = (T)y; ints<T>(a, b); monoids<T>(a, b, (T)(row * 7 + y * 13)); semirings<T>(a, b); }
    count("exhaustive rows of 256 pairs"); seen(mix(hstr(tn<T>()) + row), true);
}
// ---- mixed types: D3 op(D1, D2) on values exact in every type
template <class D1, class D2, class D3> void mixed(Rng &r)
{
    count("mixed type combinations visited");
    for (int k = 0; k < 8; ++k)
    {
        int x = r.below(12), y = r.below(12); D1 a = (D1)x; D2 b = (D2)y; if (std::is_same_v<D1, bool>) x = a; if (std::is_same_v<D2, bool>) y = b;
        label(fmt("mixed %s %s %s %d %d", tn<D1>(), tn<D2>(), tn<D3>(), x, y));
        auto want = [](double v) { if constexpr (std::is_same_v<D3, bool>) return v != 0; else return (D3)v; };
        std::string t = fmt("<%s,%s,%s>", tn<D1>(), tn<D2>(), tn<D3>());
        auto E = [&](const char *op, D3 got, double v) { ops().insert(op + t); eq((op + t).c_str(), got, (D3)want(v), x, y); };
        E("Plus", grb::Plus<D1, D2, D3>()(a, b), x + y); E("Times", grb::Times<D1, D2, D3>()(a, b), x * y); E("First", grb::First<D1, D2, D3>()(a, b), x); E("Second", grb::Second<D1, D2, D3>()(a, b), y);
        if (x >= y || (std::is_signed_v<D3> && !std::is_same_v<D3, bool> && std::is_signed_v<decltype(a - b)>)) E("Minus", grb::Minus<D1, D2, D3>()(a, b), x - y);
        E("Min", grb::Min<D1, D2, D3>()(a, b), std::min(x, y)); E("Max", grb::Max<D1, D2, D3>()(a, b), std::max(x, y));
        E("LogicalOr", grb::LogicalOr<D1, D2, D3>()(a, b), x || y); E("LogicalAnd", grb::LogicalAnd<D1, D2, D3>()(a, b), x && y); E("LogicalXor", grb::LogicalXor<D1, D2, D3>()(a, b), !x != !y); E("LogicalXnor", grb::LogicalXnor<D1, D2, D3>()(a, b), !x == !y);
        E("Equal", grb::Equal<D1, D2, D3>()(a, b), x == y); E("NotEqual", grb::NotEqual<D1, D2, D3>()(a, b), x != y); E("LessThan", grb::LessThan<D1, D2, D3>()(a, b), x < y); E("GreaterThan", grb::GreaterThan<D1, D2, D3>()(a, b), x > y); E("LessEqual", grb::LessEqual<D1, D2, D3>()(a, b), x <= y); E("GreaterEqual", grb::GreaterEqual<D1, D2, D3>()(a, b), x >= y);
        if (y) { double q = std::is_floating_point_v<decltype(a / b)> ? (double)(decltype(a / b))((decltype(a / b))x / (decltype(a / b))y) : (double)(x / y); E("Div", grb::Div<D1, D2, D3>()(a, b), q); }
        E("Identity", grb::Identity<D1, D3>()(a), x); E("Abs", grb::Abs<D1, D3>()(a), x); E("LogicalNot", grb::LogicalNot<D1, D3>()(a), !x); if (std::is_signed_v<D3> && !std::is_same_v<D3, bool> && std::is_signed_v<decltype(-a)>) E("AdditiveInverse", grb::AdditiveInverse<D1, D3>()(a), -x);
        if (x && std::is_floating_point_v<D3>) E("MultiplicativeInverse", grb::MultiplicativeInverse<D1, D3>()(a), (double)((D3)1 / (D3)x));
        if (x <= 8) { int e = y & 1; double p = 1; for (int z = 0; z < e; ++z) p *= x; E("Power", grb::Power<D1, D2, D3>()(a, (D2)e), p); }
        if constexpr (std::is_integral_v<D1> && std::is_integral_v<D2> && std::is_integral_v<D3>) { E("BitwiseOr", grb::BitwiseOr<D1, D2, D3>()(a, b), x | y); E("BitwiseAnd", grb::BitwiseAnd<D1, D2, D3>()(a, b), x & y); E("BitwiseXor", grb::BitwiseXor<D1, D2, D3>()(a, b), x ^ y); }
        auto mul = [&](int op) -> double { switch (op) { case M_TIMES: return x * y; case M_PLUS: return x + y; case M_MIN: return std::min(x, y); case M_MAX: return std::max(x, y); case M_AND: return x && y; case M_OR: return x || y; case M_FIRST: return x; default: return y; } };
        D3 p = (D3)(x & 1), q = (D3)(y & 1);
#define S3(N, A, M) { grb::N<D1, D2, D3> s; E(#N ".mult", s.mult(a, b), mul(M)); auto m = grb::multiply_op(s); E(#N " multiply_op", m(a, b), mul(M)); eq((#N ".add" + t).c_str(), s.add(p, q), ev<D3>(A, p, q), p, q); eq((#N ".zero" + t).c_str(), s.zero(), zr<D3>(A)); auto d = grb::add_monoid(s); eq((#N " add_monoid" + t).c_str(), d(p, q), ev<D3>(A, p, q), p, q); eq((#N " add_monoid.identity" + t).c_str(), d.identity(), zr<D3>(A)); }
        SEMI(S3)
        seen(mix(hstr(t) ^ (x * 16 + y)), x || y);
    }
}
static void one(Rng &r, uint64_t cas)
{
#if PROFILE == 1
    if (cas < 256) return all8<int8_t>(cas);
    if (cas < 512) return all8<uint8_t>(cas - 256);
    switch (r.below(9)) { case 0: return typed<bool>(r); case 1: return typed<int8_t>(r); case 2: return typed<uint8_t>(r); case 3: return typed<int16_t>(r); case 4: return typed<uint16_t>(r); case 5: return typed<int32_t>(r); case 6: return typed<uint32_t>(r); case 7: return typed<int64_t>(r); default: return typed<uint64_t>(r); }
#elif PROFILE == 2
    if (r.below(2)) typed<float>(r); else typed<double>(r); sample("float/double values incl. extremes");
#else
    switch (r.below(14))
    {
    case 0: return mixed<int32_t, int64_t, int64_t>(r); case 1: return mixed<int64_t, int32_t, int32_t>(r); case 2: return mixed<bool, double, double>(r); case 3: return mixed<double, bool, double>(r);
    case 4: return mixed<uint64_t, bool, uint64_t>(r); case 5: return mixed<bool, int32_t, int32_t>(r); case 6: return mixed<float, double, double>(r); case 7: return mixed<double, double, bool>(r);
    case 8: return mixed<int32_t, double, float>(r); case 9: return mixed<uint8_t, int16_t, double>(r); case 10: return mixed<float, int32_t, int64_t>(r); case 11: return mixed<uint64_t, double, uint64_t>(r);
    case 12: return mixed<int8_t, uint64_t, int32_t>(r); default: return mixed<double, int64_t, int8_t>(r);
    }
#endif
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
