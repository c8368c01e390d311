#define HUGE_1IN 16000
#define WIDE_1IN 128
#include "types.hpp"
using namespace vh;
// Forms: 0 vector, 1 matrix, 2 column, 3 row, 4 scalar->vector, 5 scalar->matrix
#if PROFILE % 2
static const int RK[] = {LIST, ALL, RANGE}, CK[] = {LIST, RANGE, LIST};
#define PAIRS(X) X(LIST, LIST) X(ALL, RANGE) X(RANGE, LIST)
#else
static const int RK[] = {LIST, ALL, RANGE}, CK[] = {ALL, ALL, RANGE};
#define PAIRS(X) X(LIST, ALL) X(ALL, ALL) X(RANGE, RANGE)
#endif
template <int K, class F> static void seqk(Seq const &s, F f)
{
    if constexpr (K == LIST) { grb::IndexArrayType v(s.ix.begin(), s.ix.end()); f(v); }
    else if constexpr (K == RANGE) f(grb::IndexSequenceRange(s.lo, s.hi));
    else f(grb::AllIndices());
}
// Z = C with the region written; then the mask decides between Z and old C.
template <class TT> static VV<CT> model(VV<CT> const &w, Seq const &s, VV<TT> const &u, Cfg const &g, VV<MT> const &M)
{
    VV<CT> z = w; ACC ac;
    for (Idx k = 0; k < s.ix.size(); ++k)
    {
        auto &o = z.at(s.ix[k]); auto const &x = u.at(k);
        if (x.h) o.v = g.acc && o.h ? static_cast<CT>(ac(o.v, x.v)) : static_cast<CT>(x.v), o.h = true;
        else if (!g.acc) z.del(s.ix[k]);
    }
    return writeback(w, z, g.mk, M, false, ac, g.repl);
}
template <class TT> static MM<CT> model(MM<CT> const &c, Seq const &rs, Seq const &cs, MM<TT> const &a, Cfg const &g, MM<MT> const &M)
{
    MM<CT> z = c; ACC ac;
    for (Idx i = 0; i < rs.ix.size(); ++i) for (Idx j = 0; j < cs.ix.size(); ++j)
    {
        auto &o = z.at(rs.ix[i], cs.ix[j]); auto const &x = a.at(i, j);
        if (x.h) o.v = g.acc && o.h ? static_cast<CT>(ac(o.v, x.v)) : static_cast<CT>(x.v), o.h = true;
        else if (!g.acc) z.del(rs.ix[i], cs.ix[j]);
    }
    return writeback(c, z, g.mk, M, false, ac, g.repl);
}
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); std::string e;
    int form = r.below(6);
    Idx n = gdim(r), m = gdim(r);
    if (form == 0 || form == 4)
    {
        if (scale().lev) n = gdimv(r);
        VV<CT> w = gvec<CT>(r, n); VV<MT> M = gmaskv<MT>(r, n); auto W = vh::mk(w, r); auto Mk = vh::mk(M, r);
        Seq s = gseq(r, n, false); Idx k = s.ix.size();
        VV<AT> u(k); AT val = gval<AT>(r);
        if (form == 0) u = gvec<AT>(r, k); else for (Idx i = 0; i < k; ++i) u.set(i, val);
        std::string cfg = fmt("assign %s %s ", form ? "scalar-vec" : "vec", s.k()) + g.s();
        std::string in = cfg + " ix=" + s.s() + "\nw=" + str(w) + "\nu=" + str(u) + "\nM=" + str(M);
        label(cfg);
        auto U = vh::mk(u, r);
        call(g, Mk, [&](auto const &mm, auto ac, auto o) { with_seq(s, [&](auto const &ix) {
            if (form == 0) grb::assign(W, mm, ac, U, ix, o); else grb::assign(W, mm, ac, val, ix, o); }); });
        if (!(e = diff(W, model(w, s, u, g, M))).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(U, u)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); count("region positions", k);
        seen(mix(hstr(cfg + s.s()) ^ shape(w) * 3 ^ shape(u) * 5 ^ shape(M) * 11), true); sample(in);
        return;
    }
    MM<CT> c = gmat<CT>(r, n, m); auto C = vh::mk(c, r);
    if (form == 2 || form == 3)
    {
        bool row = form == 3;
        Idx len = row ? m : n, at = r.below(row ? n : m);
        VV<MT> M = gmaskv<MT>(r, len); auto Mk = vh::mk(M, r);
        Seq s = gseq(r, len, false); VV<AT> u = gvec<AT>(r, s.ix.size()); auto U = vh::mk(u, r);
        VV<CT> line(len); for (Idx i = 0; i < len; ++i) line.at(i) = row ? c.at(at, i) : c.at(i, at);
        std::string cfg = fmt("assign %s %s ", row ? "row" : "col", s.k()) + g.s();
        std::string in = cfg + fmt(" at=%lu", (unsigned long)at) + " ix=" + s.s() + "\nC=" + str(c) + "\nu=" + str(u) + "\nM=" + str(M);
        label(cfg);
        call(g, Mk, [&](auto const &mm, auto ac, auto o) { with_seq(s, [&](auto const &ix) {
            if (row) grb::assign(C, mm, ac, U, at, ix, o); else grb::assign(C, mm, ac, U, ix, at, o); }); });
        auto z = model(line, s, u, g, M); MM<CT> want = c;
        for (Idx i = 0; i < len; ++i) (row ? want.at(at, i) : want.at(i, at)) = z.at(i);
        if (!(e = diff(C, want)).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(U, u)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); count("region positions", s.ix.size());
        seen(mix(hstr(cfg + s.s()) ^ shape(c) * 3 ^ shape(u) * 5 ^ shape(M) * 11 ^ at), true); sample(in);
        return;
    }
    MM<MT> M = gmask<MT>(r, n, m); auto Mk = vh::mk(M, r);
    int pr = r.below(3); Seq rs = gseq(r, n, false, RK[pr]), cs = gseq(r, m, false, CK[pr]);
    Idx p = rs.ix.size(), q = cs.ix.size(); bool tr = form == 1 && r.below(2);
    MM<AT> a(p, q); AT val = gval<AT>(r);
    if (form == 1) a = gmat<AT>(r, p, q); else for (auto &x : a.a) { x.h = true; x.v = val; }
    MM<AT> st = tr ? a.tr() : a; auto A = vh::mk(st, r);
    std::string cfg = fmt("assign %s %s/%s ", form == 5 ? "scalar-mat" : tr ? "mat A'" : "mat A", rs.k(), cs.k()) + g.s();
    std::string in = cfg + " rows=" + rs.s() + " cols=" + cs.s() + "\nC=" + str(c) + "\nA=" + str(st) + "\nM=" + str(M);
    label(cfg);
    call(g, Mk, [&](auto const &mm, auto ac, auto o) {
        #define X(R_, C_) if (rs.kind == R_ && cs.kind == C_) seqk<R_>(rs, [&](auto const &ri) { seqk<C_>(cs, [&](auto const &ci) { \
            if (form == 5) grb::assign(C, mm, ac, val, ri, ci, o); else if (tr) grb::assign(C, mm, ac, grb::transpose(A), ri, ci, o); else grb::assign(C, mm, ac, A, ri, ci, o); }); }); else
        PAIRS(X) abort();
        #undef X
    });
    if (!(e = diff(C, model(c, rs, cs, a, g, M))).empty()) violation(cfg, e + "\n" + in);
    if (!(e = diff(A, st)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    count(cfg); count("region positions", p * q);
    seen(mix(hstr(cfg + rs.s() + cs.s()) ^ shape(c) * 3 ^ shape(st) * 5 ^ shape(M) * 11), true); sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
