#include "types.hpp"
using namespace vh;
// row/column sequence kind pairs: half of them per profile parity, so that every pair is met
#if PROFILE % 2
static const int RK[] = {LIST, ALL, RANGE}, CK[] = {LIST, RANGE, LIST};
#define PAIRS(X) X(LIST, LIST) X(ALL, RANGE) X(RANGE, LIST)
#else
static const int RK[] = {LIST, ALL, RANGE}, CK[] = {ALL, ALL, RANGE};
#define PAIRS(X) X(LIST, ALL) X(ALL, ALL) X(RANGE, RANGE)
#endif
template <int K, class F> static void seqk(Seq const &s, F f)
{
    if constexpr (K == LIST) { grb::IndexArrayType v(s.ix.begin(), s.ix.end()); f(v); }
    else if constexpr (K == RANGE) f(grb::IndexSequenceRange(s.lo, s.hi));
    else f(grb::AllIndices());
}
static void one(Rng &r, uint64_t)
{
    pick_ops(r);
    Cfg g(r); std::string e;
    int form = r.below(3);
    if (form == 0)
    {   // w = u(ix)
        Idx n = gdimv(r); VV<AT> u = gvec<AT>(r, n); Seq s = gseq(r, n, true); Idx m = s.ix.size();
        VV<CT> w = gvec<CT>(r, m); VV<MT> M = gmaskv<MT>(r, m);
        auto W = vh::mk(w, r); auto U = vh::mk(u, r); auto Mk = vh::mk(M, r);
        VV<AT> T(m); Idx hit = 0;
        for (Idx k = 0; k < m; ++k) if (u.at(s.ix[k]).h) { T.set(k, u.at(s.ix[k]).v); ++hit; }
        std::string cfg = fmt("extract vec %s ", s.k()) + g.s();
        std::string in = cfg + " ix=" + s.s() + "\nw=" + str(w) + "\nu=" + str(u) + "\nM=" + str(M);
        label(cfg);
        call(g, Mk, [&](auto const &mm, auto ac, auto o) { with_seq(s, [&](auto const &ix) { grb::extract(W, mm, ac, U, ix, o); }); });
        if (!(e = diff(W, writeback(w, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(U, u)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); count("gathered entries", hit);
        seen(mix(hstr(cfg + s.s()) ^ shape(w) * 3 ^ shape(u) * 5 ^ shape(M) * 11), hit > 0); if (hit) sample(in);
        return;
    }
    bool tr = r.below(2);
    Idx nr = gdim(r), nc = gdim(r);      // dimensions of the (possibly transposed) operand
    MM<AT> a = tr ? gmat<AT>(r, nc, nr) : gmat<AT>(r, nr, nc); auto A = vh::mk(a, r); auto ea = tr ? a.tr() : a;
    if (form == 1)
    {   // w = A(ix, col)
        Seq s = gseq(r, nr, true); Idx m = s.ix.size(), col = r.below(nc);
        VV<CT> w = gvec<CT>(r, m); VV<MT> M = gmaskv<MT>(r, m);
        auto W = vh::mk(w, r); auto Mk = vh::mk(M, r);
        VV<AT> T(m); Idx hit = 0;
        for (Idx k = 0; k < m; ++k) if (ea.at(s.ix[k], col).h) { T.set(k, ea.at(s.ix[k], col).v); ++hit; }
        std::string cfg = fmt("extract %s %s ", tr ? "row(A')" : "col", s.k()) + g.s();
        std::string in = cfg + " ix=" + s.s() + fmt(" col=%lu", (unsigned long)col) + "\nw=" + str(w) + "\nA=" + str(a) + "\nM=" + str(M);
        label(cfg);
        call(g, Mk, [&](auto const &mm, auto ac, auto o) { with_seq(s, [&](auto const &ix) { with_tr(tr, A, [&](auto const &AA) { grb::extract(W, mm, ac, AA, ix, col, o); }); }); });
        if (!(e = diff(W, writeback(w, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
        if (!(e = diff(A, a)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
        count(cfg); count("gathered entries", hit);
        seen(mix(hstr(cfg + s.s()) ^ shape(w) * 3 ^ shape(a) * 5 ^ shape(M) * 11 ^ col), hit > 0); if (hit) sample(in);
        return;
    }
    int pr = r.below(3);
    Seq rs = gseq(r, nr, true, RK[pr]), cs = gseq(r, nc, true, CK[pr]);
    Idx m = rs.ix.size(), q = cs.ix.size();
    MM<CT> c = gmat<CT>(r, m, q); MM<MT> M = gmask<MT>(r, m, q); auto C = vh::mk(c, r); auto Mk = vh::mk(M, r);
    MM<AT> T(m, q); Idx hit = 0;
    for (Idx i = 0; i < m; ++i) for (Idx j = 0; j < q; ++j) { auto const &x = ea.at(rs.ix[i], cs.ix[j]); if (x.h) { T.set(i, j, x.v); ++hit; } }
    std::string cfg = fmt("extract mat %s %s/%s ", tr ? "A'" : "A", rs.k(), cs.k()) + g.s();
    std::string in = cfg + " rows=" + rs.s() + " cols=" + cs.s() + "\nC=" + str(c) + "\nA=" + str(a) + "\nM=" + str(M);
    label(cfg);
    call(g, Mk, [&](auto const &mm, auto ac, auto o) { with_tr(tr, A, [&](auto const &AA) {
        #define X(R_, C_) if (rs.kind == R_ && cs.kind == C_) seqk<R_>(rs, [&](auto const &ri) { seqk<C_>(cs, [&](auto const &ci) { grb::extract(C, mm, ac, AA, ri, ci, o); }); }); else
        PAIRS(X) abort();
        #undef X
    }); });
    if (!(e = diff(C, writeback(c, T, g.mk, M, g.acc, ACC(), g.repl))).empty()) violation(cfg, e + "\n" + in);
    if (!(e = diff(A, a)).empty() || !(e = diff(Mk, M)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    count(cfg); count("gathered entries", hit);
    seen(mix(hstr(cfg + rs.s() + cs.s()) ^ shape(c) * 3 ^ shape(a) * 5 ^ shape(M) * 11), hit > 0); if (hit) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
