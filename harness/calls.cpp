#include "calls.hpp"
#ifndef GROUP
#error GROUP
#endif
namespace vh
{
template <class F> static void maskm(Op &o, F f) { with_mask(o.mk, *o.M, [&](auto const &m) { with_accum<ACC>(o.acc, [&](auto ac) { f(m, ac, oc(o.repl)); }); }); }
template <class F> static void maskv(Op &o, F f) { with_mask(o.mk, *o.m, [&](auto const &m) { with_accum<ACC>(o.acc, [&](auto ac) { f(m, ac, oc(o.repl)); }); }); }
template <class F> static void pairs(Op &o, F f)
{
    if (o.s1.kind == LIST) { grb::IndexArrayType a(o.s1.ix.begin(), o.s1.ix.end()), b(o.s2.ix.begin(), o.s2.ix.end()); f(a, b); }
    else if (o.s1.kind == RANGE) { grb::IndexArrayType b(o.s2.ix.begin(), o.s2.ix.end()); f(grb::IndexSequenceRange(o.s1.lo, o.s1.hi), b); }
    else if (o.s2.kind == ALL) f(grb::AllIndices(), grb::AllIndices());
    else f(grb::AllIndices(), grb::IndexSequenceRange(o.s2.lo, o.s2.hi));
}
#define MV [&](auto const &m, auto ac, auto z)
#if GROUP == 1
void run_group1(Op &o)
{
    if (o.op == MXM) maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { with_tr(o.tb, *o.B, [&](auto const &b) { grb::mxm(*o.C, m, ac, SR(), a, b, z); }); }); });
    else maskv(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { grb::mxv(*o.w, m, ac, SR(), a, *o.v, z); }); });
}
#elif GROUP == 2
void run_group2(Op &o)
{
    switch (o.op)
    {
    case VXM: maskv(o, MV { with_tr(o.tb, *o.B, [&](auto const &b) { grb::vxm(*o.w, m, ac, SR(), *o.u, b, z); }); }); break;
    case EADDV: maskv(o, MV { grb::eWiseAdd(*o.w, m, ac, BIN(), *o.u, *o.v, z); }); break;
    case EMULV: maskv(o, MV { grb::eWiseMult(*o.w, m, ac, BIN(), *o.u, *o.v, z); }); break;
    case EADDM: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { with_tr(o.tb, *o.B, [&](auto const &b) { grb::eWiseAdd(*o.C, m, ac, BIN(), a, b, z); }); }); }); break;
    default: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { with_tr(o.tb, *o.B, [&](auto const &b) { grb::eWiseMult(*o.C, m, ac, BIN(), a, b, z); }); }); }); break;
    }
}
#elif GROUP == 3
void run_group3(Op &o)
{
    switch (o.op)
    {
    case APPV: maskv(o, MV { grb::apply(*o.w, m, ac, UN(), *o.u, z); }); break;
    case B1V: maskv(o, MV { grb::apply(*o.w, m, ac, BIN(), o.cl, *o.v, z); }); break;
    case B2V: maskv(o, MV { grb::apply(*o.w, m, ac, BIN(), *o.u, o.cr, z); }); break;
    case APPM: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { grb::apply(*o.C, m, ac, UN(), a, z); }); }); break;
    case B1M: maskm(o, MV { with_tr(o.tb, *o.B, [&](auto const &b) { grb::apply(*o.C, m, ac, BIN(), o.cl, b, z); }); }); break;
    default: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { grb::apply(*o.C, m, ac, BIN(), a, o.cr, z); }); }); break;
    }
}
#elif GROUP == 4
void run_group4(Op &o)
{
    switch (o.op)
    {
    case REDV: maskv(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { grb::reduce(*o.w, m, ac, MON(), a, z); }); }); break;
    case REDSV: with_accum<ACC>(o.acc, [&](auto ac) { grb::reduce(o.scalar, ac, MON(), *o.u); }); break;
    case REDSM: with_accum<ACC>(o.acc, [&](auto ac) { grb::reduce(o.scalar, ac, MON(), *o.A); }); break;
    case TRN: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { grb::transpose(*o.C, m, ac, a, z); }); }); break;
    default: maskm(o, MV { with_tr(o.ta, *o.A, [&](auto const &a) { with_tr(o.tb, *o.B, [&](auto const &b) { grb::kronecker(*o.C, m, ac, BIN(), a, b, z); }); }); }); break;
    }
}
#elif GROUP == 5
void run_group5(Op &o)
{
    switch (o.op)
    {
    case EXTV: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { grb::extract(*o.w, m, ac, *o.u, i, z); }); }); break;
    case EXTC: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { with_tr(o.ta, *o.A, [&](auto const &a) { grb::extract(*o.w, m, ac, a, i, o.at, z); }); }); }); break;
    default: maskm(o, MV { pairs(o, [&](auto const &i, auto const &j) { with_tr(o.ta, *o.A, [&](auto const &a) { grb::extract(*o.C, m, ac, a, i, j, z); }); }); }); break;
    }
}
#else
void run_group6(Op &o)
{
    switch (o.op)
    {
    case ASGV: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { grb::assign(*o.w, m, ac, *o.u, i, z); }); }); break;
    case ASGC: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { grb::assign(*o.C, m, ac, *o.u, i, o.at, z); }); }); break;
    case ASGR: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { grb::assign(*o.C, m, ac, *o.u, o.at, i, z); }); }); break;
    case ASGSV: maskv(o, MV { with_seq(o.s1, [&](auto const &i) { grb::assign(*o.w, m, ac, o.cl, i, z); }); }); break;
    case ASGM: maskm(o, MV { pairs(o, [&](auto const &i, auto const &j) { with_tr(o.ta, *o.A, [&](auto const &a) { grb::assign(*o.C, m, ac, a, i, j, z); }); }); }); break;
    default: maskm(o, MV { pairs(o, [&](auto const &i, auto const &j) { grb::assign(*o.C, m, ac, o.cl, i, j, z); }); }); break;
    }
}
#endif
} // namespace vh
