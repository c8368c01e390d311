// Runtime-selected operators: one template instantiation, many operators.
#pragma once
#include "vh.hpp"
namespace vh
{
inline int &g_add() { static thread_local int s = 0; return s; }
inline int &g_mul() { static thread_local int s = 0; return s; }
inline int &g_bop() { static thread_local int s = 0; return s; }
inline int &g_uop() { static thread_local int s = 0; return s; }

using I64 = int64_t;
using U64 = uint64_t;
inline I64 w_add(I64 a, I64 b) { return (I64)((U64)a + (U64)b); }
inline I64 w_mul(I64 a, I64 b) { return (I64)((U64)a * (U64)b); }

// binary operators on int64 with wraparound; most are order revealing
inline I64 bin64(int k, I64 a, I64 b)
{
    switch (k)
    {
    case 0: return w_add(w_add(w_mul(a, 31), w_mul(b, -7)), 5);
    case 1: return a;
    case 2: return b;
    case 3: return w_add(a, w_mul(b, -1));
    case 4: return w_mul(a, b);
    case 5: return a < b ? 1 : 0;
    case 6: return w_add(w_mul(a, a), b);
    default: return 0;                       // everything maps to an explicit zero
    }
}
constexpr int NBIN = 8;
// commutative, associative additions with identities
inline I64 add64(int k, I64 a, I64 b)
{
    switch (k)
    {
    case 0: return w_add(a, b);
    case 1: return a < b ? a : b;
    case 2: return a < b ? b : a;
    default: return a ^ b;
    }
}
inline I64 id64(int k)
{
    switch (k)
    {
    case 0: return 0;
    case 1: return INT64_MAX;
    case 2: return INT64_MIN;
    default: return 0;
    }
}
constexpr int NADD = 4;

struct Bin64 { I64 operator()(I64 a, I64 b) const { return bin64(g_bop(), a, b); } };
struct Acc64 { I64 operator()(I64 a, I64 b) const { return w_add(w_mul(a, 3), w_add(b, 1)); } };   // order revealing
struct Un64
{
    I64 operator()(I64 a) const
    {
        switch (g_uop())
        {
        case 0: return w_add(w_mul(a, 5), 2);
        case 1: return w_mul(a, -1);
        case 2: return 0;
        default: return a != 0;
        }
    }
};
struct Add64
{
    using result_type = I64;
    I64 identity() const { return id64(g_add()); }
    I64 operator()(I64 a, I64 b) const { return add64(g_add(), a, b); }
};
struct SR64
{
    using first_argument_type = I64;
    using second_argument_type = I64;
    using result_type = I64;
    I64 add(I64 a, I64 b) const { return add64(g_add(), a, b); }
    I64 mult(I64 a, I64 b) const { return bin64(g_mul(), a, b); }
    I64 zero() const { return id64(g_add()); }
};

// double (x) int32 -> double, exact on the generated values
struct SRmix
{
    using first_argument_type = double;
    using second_argument_type = int32_t;
    using result_type = double;
    double add(double a, double b) const
    {
        switch (g_add() % 3) { case 0: return a + b; case 1: return a < b ? a : b; default: return a < b ? b : a; }
    }
    double mult(double a, int32_t b) const
    {
        switch (g_mul() % 4) { case 0: return a * b; case 1: return a - 2 * b; case 2: return a; default: return b; }
    }
    double zero() const
    {
        switch (g_add() % 3) { case 0: return 0; case 1: return INFINITY; default: return -INFINITY; }
    }
};
struct BinMix
{
    double operator()(double a, int32_t b) const
    {
        switch (g_bop() % 4) { case 0: return a * b; case 1: return a - 2 * b; case 2: return a; default: return b; }
    }
};
struct AccMix { double operator()(double a, double b) const { return a * 2 + b; } };
} // namespace vh
