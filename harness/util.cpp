// P19: index sequences, transpose views, matrix utilities against their definitions.
#define HUGE_1IN 1000000000
#define WIDE_1IN 128
#define WIDE_MAX 90
#include "types.hpp"
#include "graphs.hpp"
#include <graphblas/matrix_utils.hpp>
using namespace vh;
using T = CT;
template <class M> static void bad(const char *sig, std::string const &e, M const &in) { if (!e.empty()) violation(sig, e + "\n" + str(in)); }
static void ranges(Rng &r)
{
    Idx lo = r.below(20), hi = lo + 1 + r.below(20); if (r.below(8) == 0) { lo = r.next() >> 1; hi = lo + 1 + r.below(9); }
    label("IndexSequenceRange"); grb::IndexSequenceRange s(lo, hi); std::string in = fmt("[%lu,%lu)", (unsigned long)lo, (unsigned long)hi); count("index ranges"); ++ctx().observations;
    auto V = [&](bool ok, const char *w) { if (!ok) violation(std::string("IndexSequenceRange:") + w, in); };
    V(s.size() == hi - lo, "size"); V(s.empty() == (lo == hi), "empty"); Idx k = 0, bound = hi - lo;
    for (auto it = s.begin(); it != s.end() && k <= bound; ++it, ++k) { V(*it == lo + k, "iteration"); V(s[k] == lo + k, "subscript"); }
    V(k == bound, "length"); k = 0; for (auto it = s.begin(); !(it == s.end()) && k <= bound; ++k) { auto o = it++; V(*o == lo + k, "post-increment"); } V(k == bound, "length");
    k = 0; Idx last = 0; for (auto x : s) { last = x; ++k; } V(k == bound && last == hi - 1, "range-for");
    auto e = s.end(); --e; V(*e == hi - 1, "decrement"); if (bound > 1) { auto o = e--; V(*o == hi - 1 && *e == hi - 2, "post-decrement"); } V(s.begin()[(Idx)(bound - 1)] == hi - 1, "iterator subscript");
    auto c = s.begin(); auto d = c; ++d; V(c != d && *c == lo && *d == lo + 1, "copies are independent"); c = d; V(c == d && *c == lo + 1, "iterator assignment");
    grb::IndexSequenceRange z(lo, lo); V(z.empty() && z.size() == 0, "empty range"); for (auto x : z) { (void)x; V(false, "empty range iterates"); break; }
    V(grb::IsAllSequence(grb::AllIndices()) && grb::is_all_sequence<grb::AllIndices>::value, "AllIndices recognised"); V(!grb::IsAllSequence(s) && !grb::is_all_sequence<grb::IndexSequenceRange>::value && !grb::IsAllSequence(grb::IndexArrayType{0, 1}), "others not AllIndices");
    seen(mix(lo * 64 + hi), true);
}
// the same call with a range, with the equivalent list, and (for the whole line) with AllIndices
static void sequences(Rng &r)
{
    Idx n = gdim(r), m = gdim(r); auto x = gmat<T>(r, n, m); auto A = mk(x, r); Idx lo = r.below(n), hi = lo + 1 + r.below(n - lo), l2 = r.below(m), h2 = l2 + 1 + r.below(m - l2);
    if (r.below(3) == 0) { lo = 0; hi = n; l2 = 0; h2 = m; }
    grb::IndexArrayType li, lj; for (Idx i = lo; i < hi; ++i) li.push_back(i); for (Idx j = l2; j < h2; ++j) lj.push_back(j); grb::IndexSequenceRange ri(lo, hi), rj(l2, h2);
    std::string in = fmt("rows [%lu,%lu) cols [%lu,%lu) ", (unsigned long)lo, (unsigned long)hi, (unsigned long)l2, (unsigned long)h2) + str(x); count("range/list/all equivalences");
    auto N = grb::NoMask(); auto NA = grb::NoAccumulate();
    label("extract range"); grb::Matrix<T> P(hi - lo, h2 - l2), Q(hi - lo, h2 - l2); grb::extract(P, N, NA, A, ri, rj); grb::extract(Q, N, NA, A, li, lj); ++ctx().observations;
    MM<T> want(hi - lo, h2 - l2); for (Idx i = lo; i < hi; ++i) for (Idx j = l2; j < h2; ++j) want.at(i - lo, j - l2) = x.at(i, j);
    std::string e = diff(P, want); if (!e.empty()) violation("extract(range)", e + "\n" + in); if (!(P == Q)) violation("extract(range) != extract(list)", in);
    label("assign range"); auto y = gmat<T>(r, hi - lo, h2 - l2); auto S = mk(y, r); grb::Matrix<T> U(A), W(A); grb::assign(U, N, NA, S, ri, rj); grb::assign(W, N, NA, S, li, lj);
    MM<T> aw = x; for (Idx i = lo; i < hi; ++i) for (Idx j = l2; j < h2; ++j) aw.at(i, j) = y.at(i - lo, j - l2);
    e = diff(U, aw); if (!e.empty()) violation("assign(range)", e + "\n" + in + "\nS=" + str(y)); if (!(U == W)) violation("assign(range) != assign(list)", in);
    label("assign scalar range"); grb::Matrix<T> K(A); T v = gval<T>(r); grb::assign(K, N, NA, v, ri, rj); MM<T> kw = x; for (Idx i = lo; i < hi; ++i) for (Idx j = l2; j < h2; ++j) kw.set(i, j, v); e = diff(K, kw); if (!e.empty()) violation("assign(scalar, range)", e + "\n" + in);
    if (hi - lo == n && h2 - l2 == m)
    {
        label("AllIndices"); grb::Matrix<T> R(n, m); grb::extract(R, N, NA, A, grb::AllIndices(), grb::AllIndices()); e = diff(R, x); if (!e.empty()) violation("extract(all)", e + "\n" + in);
        grb::Matrix<T> Z(A); grb::assign(Z, N, NA, S, grb::AllIndices(), grb::AllIndices()); e = diff(Z, y); if (!e.empty()) violation("assign(all)", e + "\n" + in); count("whole-matrix sequences");
    }
    // vectors
    auto xv = gvec<T>(r, n); auto av = mk(xv, r); grb::Vector<T> pv(hi - lo); label("extract vector range"); grb::extract(pv, N, NA, av, ri); VV<T> vw(hi - lo); for (Idx i = lo; i < hi; ++i) vw.at(i - lo) = xv.at(i);
    e = diff(pv, vw); if (!e.empty()) violation("extract(vector, range)", e + "\n" + in); grb::assign(av, N, NA, v, ri); for (Idx i = lo; i < hi; ++i) xv.set(i, v); e = diff(av, xv); if (!e.empty()) violation("assign(scalar, vector, range)", e + "\n" + in);
    seen(mix(shape(x) ^ (lo * 7919 + hi * 31 + l2 * 17 + h2)), x.nvals() > 0);
}
static void views(Rng &r)
{
    Idx n = gdim(r), m = gdim(r); auto x = gmat<T>(r, n, m); auto A = mk(x, r); label("TransposeView"); count("transpose views");
    auto V = grb::transpose(A); ++ctx().observations; if (V.nrows() != m || V.ncols() != n) violation("TransposeView:shape", fmt("%lux%lu", (unsigned long)V.nrows(), (unsigned long)V.ncols()));
    for (int k = 0; k < 3; ++k)
    {   // the view tracks the matrix
        grb::Matrix<T> C(m, n); grb::apply(C, grb::NoMask(), grb::NoAccumulate(), grb::Identity<T>(), V); bad("TransposeView:entries", diff(C, x.tr()), x);
        grb::Matrix<T> D(m, n); grb::transpose(D, grb::NoMask(), grb::NoAccumulate(), A); bad("TransposeView vs transpose", diff(D, x.tr()), x);
        grb::Matrix<T> E(n, m); grb::transpose(E, grb::NoMask(), grb::NoAccumulate(), V); bad("transpose of a view", diff(E, x), x);
        grb::Vector<T> c(m); Idx row = r.below(n); grb::extract(c, grb::NoMask(), grb::NoAccumulate(), V, grb::AllIndices(), row); VV<T> cw(m); for (Idx j = 0; j < m; ++j) cw.at(j) = x.at(row, j); bad("row through the view", diff(c, cw), x);
        Idx i = r.below(n), j = r.below(m); if (r.below(3)) { T v = gval<T>(r); A.setElement(i, j, v); x.set(i, j, v); } else { A.removeElement(i, j); x.del(i, j); }
        if (r.below(6) == 0) { A.clear(); x = MM<T>(n, m); }
    }
    bad("TransposeView:input", diff(A, x), x); seen(mix(shape(x) ^ 0x7777), n != m || x.nvals() > 1);
}
static void builders(Rng &r)
{
    Idx n = gdim(r); auto v = gvec<T>(r, n); auto V = mk(v, r); label("diag"); count("diag"); auto D = grb::diag<grb::Matrix<T>>(V); MM<T> w(n, n); for (Idx i = 0; i < n; ++i) w.at(i, i) = v.at(i);
    bad("diag", diff(D, w), v); bad("diag:input", diff(V, v), v); auto Dd = grb::diag<grb::Matrix<double>>(V); MM<double> wd(n, n); for (Idx i = 0; i < n; ++i) if (v.at(i).h) wd.set(i, i, (double)v.at(i).v); bad("diag<double>", diff(Dd, wd), v);
    label("scaled_identity"); count("scaled_identity"); T k = gval<T>(r); MM<T> I(n, n), J(n, n); for (Idx i = 0; i < n; ++i) { I.set(i, i, T(1)); J.set(i, i, k); }
    bad("scaled_identity", diff(grb::scaled_identity<grb::Matrix<T>>(n), I), I); bad("scaled_identity(value)", diff(grb::scaled_identity<grb::Matrix<T>>(n, k), J), J);
    Idx m = r.below(3) ? n : gdim(r); auto x = gmat<T>(r, n, m); auto A = mk(x, r); grb::Matrix<T> L(n, m), U(n, m); label("split"); count("split"); grb::split(A, L, U); MM<T> l(n, m), u(n, m);
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < m; ++j) (i < j ? u : l).at(i, j) = x.at(i, j);
    bad("split:lower", diff(L, l), x); bad("split:upper", diff(U, u), x); bad("split:input", diff(A, x), x); if (n != m) count("rectangular splits");
    seen(mix(shape(x) ^ shape(v) * 3), x.nvals() > 0 || v.nvals() > 0);
}
template <class R> static void normal(Rng &r)
{
    Idx n = gdim(r), m = r.below(3) ? gdim(r) : n; auto p = gmat<bool>(r, n, m); MM<R> x(n, m); int kind = r.below(3);
    for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < m; ++j) if (p.at(i, j).h) x.set(i, j, kind == 0 ? R(1) : kind == 1 ? (R)(1 + r.below(9)) / 4 : (R)std::ldexp((double)(1 + r.below(1000)), (int)r.below(12) - 6));
    bool explicit0 = r.below(3) == 0; if (explicit0) for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < m; ++j) if (x.at(i, j).h && r.below(8) == 0) x.set(i, j, 0);
    double eps = sizeof(R) == 4 ? 1e-5 : 1e-12;
    for (int cols = 0; cols < 2; ++cols)
    {
        auto A = mk(x, r); const char *nm = cols ? "normalize_cols" : "normalize_rows"; label(nm); bool zero = false; Idx lines = cols ? m : n;
        std::vector<double> s(lines, 0); std::vector<char> any(lines, 0); for (Idx i = 0; i < n; ++i) for (Idx j = 0; j < m; ++j) if (x.at(i, j).h) { s[cols ? j : i] += x.at(i, j).v; any[cols ? j : i] = 1; }
        for (Idx k = 0; k < lines; ++k) if (any[k] && s[k] == 0) zero = true;
        if (zero) continue;        // a line of zeros cannot be normalised
        if (cols) grb::normalize_cols(A); else grb::normalize_rows(A); count(nm); ++ctx().observations; if (n != m) count("rectangular normalisations");
        std::string e; if (A.nrows() != n || A.ncols() != m) e = "shape"; else if (A.nvals() != x.nvals()) e = "stored positions";
        std::vector<double> t(lines, 0);
        for (Idx i = 0; i < n && e.empty(); ++i) for (Idx j = 0; j < m && e.empty(); ++j)
        {
            if (A.hasElement(i, j) != x.at(i, j).h) { e = fmt("presence at (%lu,%lu)", (unsigned long)i, (unsigned long)j); break; }
            if (!x.at(i, j).h) continue; double g = A.extractElement(i, j), w = x.at(i, j).v / s[cols ? j : i]; t[cols ? j : i] += g;
            if (!close(g, w, eps, eps * 1e-3)) e = fmt("(%lu,%lu) = %.9g, expected %.9g", (unsigned long)i, (unsigned long)j, g, w);
        }
        for (Idx k = 0; k < lines && e.empty(); ++k) if (any[k] && std::fabs(t[k] - 1) > eps * 70) e = fmt("line %lu sums to %.12g", (unsigned long)k, t[k]);
        bad(nm, e, x);
    }
    seen(mix(shape(x) ^ (sizeof(R) + kind * 16)), x.nvals() > 1);
}
static void one(Rng &r, uint64_t)
{
    switch (r.below(6)) { case 0: ranges(r); break; case 1: sequences(r); break; case 2: views(r); break; case 3: builders(r); break; case 4: normal<double>(r); break; default: normal<float>(r); }
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
