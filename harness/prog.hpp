// Random programs over a pool of containers of one scalar type: operations with operands drawn from the
// pool (so aliasing, rejected calls and reuse arise by themselves), container methods, comparison,
// printing.  Every step yields a hash of what the caller can observe.
#pragma once
#define WIDE_1IN 1000000000      // sizes here come from Prog::dim (a program must not depend on what ran before it)
#define HUGE_1IN 1000000000
#include "calls.hpp"
namespace vh
{
using T = CT;
using Mat = grb::Matrix<T>; using Vec = grb::Vector<T>;
inline uint64_t hval(T v) { if constexpr (std::is_floating_point_v<T>) { if (v == 0) v = 0; if (v != v) return 0x7777; double d = v; uint64_t b; memcpy(&b, &d, 8); return mix(b); } else return mix((uint64_t)(int64_t)v); }
inline uint64_t hobs(Mat const &m)
{
    uint64_t h = mix(m.nrows() * 1000003 + m.ncols()) ^ mix(m.nvals() + 9);
    for (Idx i = 0; i < m.nrows(); ++i) for (Idx j = 0; j < m.ncols(); ++j) if (m.hasElement(i, j)) h = mix(h ^ (i * 8191 + j)) ^ hval(m.extractElement(i, j));
    return h;
}
inline uint64_t hobs(Vec const &m)
{
    uint64_t h = mix(m.size() + 77) ^ mix(m.nvals() + 5);
    for (Idx i = 0; i < m.size(); ++i) if (m.hasElement(i)) h = mix(h ^ i) ^ hval(m.extractElement(i));
    return h;
}
struct Pool
{
    std::vector<std::unique_ptr<Mat>> A; std::vector<std::unique_ptr<Vec>> U;
    // shapes and contents depend on r only, construction order on rl
    Pool(Rng &r, Rng &rl, Idx n, int nm = 4)
    {
        Idx k = 1 + r.below(6), p = 1 + r.below(4), q = 1 + r.below(4), t = 1 + r.below(4), z = 1 + r.below(4);
        auto M = [&](Idx a, Idx b) { auto x = r.below(4) ? gmat<T>(r, a, b) : gmask<T>(r, a, b); A.push_back(std::make_unique<Mat>(a, b)); Rng o(rl.next()); load(*A.back(), x, o); };
        for (int c = 0; c < nm; ++c) M(n, n);
        M(n, k); M(k, n); M(p, q); M(t, z); M(p * t, q * z);
        for (int c = 0; c < 5; ++c) { Idx len = c < 4 ? n : k; auto x = r.below(4) ? gvec<T>(r, len) : gmaskv<T>(r, len); U.push_back(std::make_unique<Vec>(len)); Rng o(rl.next()); load(*U.back(), x, o); }
    }
};
struct Prog
{
    Rng r, rl; bool bad, dup, print;          // bad: also rejected calls; dup: also repeated indices in assign
    Pool P; Pool const *S = nullptr;           // S: shared read-only containers
    std::string what; const char *act = "?"; std::vector<uint64_t> log; std::vector<const char *> acts;
    std::ostringstream os; bool repeats = false; uint64_t undef = 0, rejected = 0, aliased = 0, sharedin = 0;
    static Idx dim(Rng &r) { switch (r.below(12)) { case 0: return 1; case 1: return 2; case 2: return 12 + r.below(20); case 3: return r.below(4) ? 9 : 62 + r.below(5); case 4: if (r.below(12) == 0) return 65 + r.below(130); [[fallthrough]]; default: return 2 + r.below(7); } }
    Prog(uint64_t seed, uint64_t lseed, bool b, bool d, bool p, Pool const *sh = nullptr, Idx n = 0) : r(seed), rl(lseed), bad(b), dup(d), print(p), P(r, rl, n ? n : dim(r)), S(sh) {}
    Mat *mat() { return P.A[r.below(P.A.size())].get(); }
    Vec *vec() { return P.U[r.below(P.U.size())].get(); }
    // inputs may be shared read-only containers (the library takes inputs by const reference)
    Mat *cmat() { if (S && r.below(2)) { ++sharedin; return S->A[r.below(S->A.size())].get(); } return mat(); }
    Vec *cvec() { if (S && r.below(2)) { ++sharedin; return S->U[r.below(S->U.size())].get(); } return vec(); }
    static Idx ar(Op const &o) { return o.ta ? o.A->ncols() : o.A->nrows(); }
    static Idx ac(Op const &o) { return o.ta ? o.A->nrows() : o.A->ncols(); }
    static Idx br(Op const &o) { return o.tb ? o.B->ncols() : o.B->nrows(); }
    static Idx bc(Op const &o) { return o.tb ? o.B->nrows() : o.B->ncols(); }
    static bool conf(Op const &o)
    {
        int p = o.op;
        if (o.mk && p < NMASKED) { if (matmask(p)) { if (o.M->nrows() != o.C->nrows() || o.M->ncols() != o.C->ncols()) return false; } else if (o.m->size() != (p == ASGC ? o.C->nrows() : p == ASGR ? o.C->ncols() : o.w->size())) return false; }
        switch (p)
        {
        case MXM: return o.C->nrows() == ar(o) && ac(o) == br(o) && bc(o) == o.C->ncols();
        case MXV: return o.w->size() == ar(o) && ac(o) == o.v->size();
        case VXM: return o.u->size() == br(o) && bc(o) == o.w->size();
        case EADDV: case EMULV: return o.u->size() == o.w->size() && o.v->size() == o.w->size();
        case EADDM: case EMULM: return ar(o) == br(o) && ac(o) == bc(o) && ar(o) == o.C->nrows() && ac(o) == o.C->ncols();
        case APPV: case B2V: return o.u->size() == o.w->size();
        case B1V: return o.v->size() == o.w->size();
        case APPM: case B2M: return ar(o) == o.C->nrows() && ac(o) == o.C->ncols();
        case TRN: return ar(o) == o.C->ncols() && ac(o) == o.C->nrows();
        case B1M: return br(o) == o.C->nrows() && bc(o) == o.C->ncols();
        case REDV: return ar(o) == o.w->size();
        case KRON: return ar(o) * br(o) == o.C->nrows() && ac(o) * bc(o) == o.C->ncols();
        case ASGV: return o.u->size() <= o.w->size();
        case ASGC: return o.u->size() <= o.C->nrows();
        case ASGR: return o.u->size() <= o.C->ncols();
        case ASGM: return ar(o) <= o.C->nrows() && ac(o) <= o.C->ncols();
        default: return true;
        }
    }
    // a sequence of len indices into 0..n-1 of the given kind where that fits
    Seq fit(Idx n, Idx len, bool uniq, int kind)
    {
        Seq s; if (uniq && len > n) len = n;
        if (kind == ALL) { s.kind = ALL; for (Idx i = 0; i < n; ++i) s.ix.push_back(i); return s; }
        if (kind == RANGE && len <= n) { s.kind = RANGE; s.lo = r.below(n - len + 1); s.hi = s.lo + len; if (bad && r.below(40) == 0) { s.lo += n; s.hi += n; } for (Idx i = s.lo; i < s.hi; ++i) s.ix.push_back(i); return s; }
        s.kind = kind == RANGE ? RANGE : LIST;
        if (kind == RANGE) { s.lo = 0; s.hi = len; for (Idx i = 0; i < len; ++i) s.ix.push_back(i); return s; }   // too long: rejected
        if (uniq && !(dup && r.below(6) == 0)) { std::vector<Idx> p; for (Idx i = 0; i < n; ++i) p.push_back(i); for (Idx k = 0; k < len; ++k) { std::swap(p[k], p[k + r.below(n - k)]); s.ix.push_back(p[k]); } if (r.below(2)) std::sort(s.ix.begin(), s.ix.end()); }
        else { if (uniq) repeats = true; for (Idx k = 0; k < len; ++k) s.ix.push_back(r.below(n)); }
        if (bad && len && r.below(30) == 0) s.ix[r.below(len)] = n + (r.below(2) ? 0 : r.below(1000));
        return s;
    }
    int kind1(Idx n, Idx len) { return n == len && r.below(3) == 0 ? (int)ALL : r.below(3) == 0 ? (int)RANGE : (int)LIST; }
    uint64_t operation()
    {
        repeats = false; Op o; gop(r, o, r.below(NOPS)); int p = o.op; act = opname(p);
        for (int k = 0; k < 40; ++k)
        {
            if (p == KRON && r.below(4)) { o.C = P.A[P.A.size() - 1].get(); o.A = P.A[P.A.size() - 3].get(); o.B = P.A[P.A.size() - 2].get(); o.ta = o.tb = false; }
            else { o.C = mat(); o.A = cmat(); o.B = cmat(); }
            o.w = vec(); o.u = cvec(); o.v = cvec(); o.M = cmat(); o.m = cvec();
            if (conf(o) || (bad && r.below(60) == 0)) break;
        }
        Idx cr = o.C->nrows(), cc = o.C->ncols();
        switch (p)
        {
        case EXTV: o.s1 = fit(o.u->size(), o.w->size(), false, kind1(o.u->size(), o.w->size())); break;
        case EXTC: o.s1 = fit(ar(o), o.w->size(), false, kind1(ar(o), o.w->size())); o.at = r.below(ac(o)); break;
        case ASGV: o.s1 = fit(o.w->size(), o.u->size(), true, kind1(o.w->size(), o.u->size())); break;
        case ASGSV: o.s1 = gseq(r, o.w->size(), dup && r.below(4) == 0); break;
        case ASGC: o.s1 = fit(cr, o.u->size(), true, kind1(cr, o.u->size())); o.at = r.below(cc); break;
        case ASGR: o.s1 = fit(cc, o.u->size(), true, kind1(cc, o.u->size())); o.at = r.below(cr); break;
        case EXTM: { int a, b; gpair(r, a, b); if (ar(o) != cr && a == ALL) a = b = LIST; if (ac(o) != cc && b == ALL) a = b = LIST; if (a == RANGE && cr > ar(o)) a = LIST; if (b == RANGE && cc > ac(o)) a = b = LIST; o.s1 = fit(ar(o), cr, false, a); o.s2 = fit(ac(o), cc, false, b); break; }
        case ASGM: { int a, b; gpair(r, a, b); if (ar(o) != cr && a == ALL) a = b = LIST; if (ac(o) != cc && b == ALL) a = b = LIST; o.s1 = fit(cr, ar(o), true, a); o.s2 = fit(cc, ac(o), true, b); break; }
        case ASGSM: { int a, b; gpair(r, a, b); o.s1 = gseq(r, cr, dup && r.below(4) == 0, a); o.s2 = gseq(r, cc, dup && r.below(4) == 0, b); break; }
        default: break;
        }
        if (bad && (p == EXTC || p == ASGC || p == ASGR) && r.below(40) == 0) o.at += 70;
        if (PROFILE == 5) o.cr = 2;
        if (matout(p)) aliased += (usesA(p) && o.A == o.C) || (usesB(p) && o.B == o.C) || (matmask(p) && o.mk && o.M == o.C);
        else if (p < NMASKED) aliased += (usesU(p) && o.u == o.w) || (usesV(p) && o.v == o.w) || (o.mk && o.m == o.w);
        if (what.size() < 60000) what += o.cfg() + fmt(" C%d A%d B%d M%d w%d u%d v%d m%d ", id(o.C), id(o.A), id(o.B), id(o.M), id(o.w), id(o.u), id(o.v), id(o.m)) + o.args() + "\n";
        if (ctx().state && !S) label(o.cfg());
        // assigning a container through repeated indices is undefined in GraphBLAS (the value that ends up
        // stored, even the container's consistency): it must stay memory safe, but its output is dropped
        if (repeats && (p == ASGV || p == ASGM || p == ASGC || p == ASGR))
        {
            ++undef;
            if (matout(p)) { Mat keep(*o.C); try { run_op(o); } catch (grb::PanicException const &) {} catch (...) { *o.C = keep; throw; } *o.C = keep; return 2; }
            Vec keep(*o.w); try { run_op(o); } catch (grb::PanicException const &) {} catch (...) { *o.w = keep; throw; } *o.w = keep; return 3;
        }
        run_op(o);
        if (p >= NMASKED) return hval(o.scalar);
        return matout(p) ? hobs(*o.C) : hobs(*o.w);
    }
    int id(Mat const *m) const { for (size_t k = 0; k < P.A.size(); ++k) if (P.A[k].get() == m) return k; return 100; }
    int id(Vec const *m) const { for (size_t k = 0; k < P.U.size(); ++k) if (P.U[k].get() == m) return k; return 100; }
    Idx ix(Idx n) { return bad && r.below(12) == 0 ? n + r.below(3) * 40 : r.below(n); }
    uint64_t matmethod()
    {
        Mat &a = *mat(); Idx n = a.nrows(), m = a.ncols(); int k = r.below(18); static const char *nm[] = {"M.set", "M.set", "M.set", "M.remove", "M.remove", "M.clear", "M.resize", "M.build", "M.build-dup", "M.build", "M.copy", "M.assign", "M.==", "M.has", "M.extract", "M.tuples", "M.dense", "M.utils"};
        act = nm[k]; if (ctx().state && !S) label(act); what += fmt("%s A%d\n", act, id(&a));
        switch (k)
        {
        case 0: case 1: case 2: a.setElement(ix(n), ix(m), gval<T>(r)); break;
        case 3: case 4: a.removeElement(ix(n), ix(m)); break;
        case 5: if (r.below(3) == 0) a.clear(); break;
        case 6: { if (r.below(3)) { a.resize(n, m); break; } Idx x = 1 + r.below(n + 4), y = 1 + r.below(m + 4); if (bad && r.below(8) == 0) x = 0; a.resize(x, y); break; }
        case 7: case 8: case 9:
        {
            Idx q = r.below(2 * n + 2); grb::IndexArrayType ri, ci; std::vector<T> v; for (Idx e = 0; e < q; ++e) { ri.push_back(bad && r.below(60) == 0 ? n : r.below(n)); ci.push_back(bad && r.below(60) == 0 ? m + 1 : r.below(m)); v.push_back(gval<T>(r)); }
            if (bad && r.below(20) == 0) ri.push_back(0);
            if (k == 8) a.build(ri, ci, v, ACC()); else if (k == 7 || ri.size() != v.size()) a.build(ri, ci, v); else a.build(ri.begin(), ci.begin(), v.begin(), v.size());
            break;
        }
        case 10: { Mat b(a); if (m && n) b.setElement(r.below(n), r.below(m), gval<T>(r)); Mat c(b); c = a; return hobs(b) ^ hobs(c) * 3 ^ hobs(a); }
        case 11: { Mat &b = *mat(); what += fmt("  from A%d\n", id(&b)); a = b; return hobs(a); }
        case 12: { Mat &b = *mat(); Mat c(a); return (a == b) * 2 + (a != b) * 4 + (a == c) * 8 + (c != a) * 16; }
        case 13: return a.hasElement(ix(n), ix(m));
        case 14: return hval(a.extractElement(ix(n), ix(m)));
        case 15: { Idx q = a.nvals(); grb::IndexArrayType ri(q), ci(q); std::vector<T> v(q); if (q) a.extractTuples(ri, ci, v); uint64_t h = q; for (Idx e = 0; e < q; ++e) h += mix(ri[e] * 8191 + ci[e]) ^ hval(v[e]); return h; }
        case 16: { std::vector<std::vector<T>> d(1 + r.below(5), std::vector<T>(1 + r.below(5))); for (auto &w : d) for (size_t e = 0; e < w.size(); ++e) w[e] = gval<T>(r); if (bad && r.below(6) == 0) d.back().push_back(T(1)); T z = gval<T>(r); if (r.below(2)) { Mat b(d); return hobs(b); } Mat b(d, z); return hobs(b); }
        default:
        {
            Idx d = r.below(7); Vec u(1 + d); for (Idx e = 0; e <= d; ++e) if (r.below(2)) u.setElement(e, gval<T>(r)); auto D = grb::diag<Mat>(u); auto E = grb::scaled_identity<Mat>(d + 1, gval<T>(r)); uint64_t h = hobs(D) ^ hobs(E) * 3;
            Mat L(n, m), U(n, m); grb::split(a, L, U); return h ^ hobs(L) * 7 ^ hobs(U) * 11;
        }
        }
        return hobs(a);
    }
    uint64_t vecmethod()
    {
        Vec &a = *vec(); Idx n = a.size(); int k = r.below(17); static const char *nm[] = {"V.set", "V.set", "V.set", "V.remove", "V.remove", "V.clear", "V.resize", "V.build", "V.build-dup", "V.build", "V.copy", "V.assign", "V.==", "V.has", "V.extract", "V.tuples", "V.dense"};
        act = nm[k]; if (ctx().state && !S) label(act); what += fmt("%s u%d\n", act, id(&a));
        switch (k)
        {
        case 0: case 1: case 2: a.setElement(ix(n), gval<T>(r)); break;
        case 3: case 4: a.removeElement(ix(n)); break;
        case 5: if (r.below(3) == 0) a.clear(); break;
        case 6: { if (r.below(3)) { a.resize(n); break; } Idx x = 1 + r.below(n + 4); if (bad && r.below(8) == 0) x = 0; a.resize(x); break; }
        case 7: case 8: case 9:
        {
            Idx q = r.below(n + 3); grb::IndexArrayType ri; std::vector<T> v; for (Idx e = 0; e < q; ++e) { ri.push_back(bad && r.below(60) == 0 ? n : r.below(n)); v.push_back(gval<T>(r)); }
            if (bad && r.below(20) == 0) ri.push_back(0);
            if (k == 8) a.build(ri, v, ACC()); else if (k == 7 || ri.size() != v.size()) a.build(ri, v); else a.build(ri.begin(), v.begin(), v.size());
            break;
        }
        case 10: { Vec b(a); b.setElement(r.below(n), gval<T>(r)); Vec c(b); c = a; return hobs(b) ^ hobs(c) * 3 ^ hobs(a); }
        case 11: { Vec &b = *vec(); what += fmt("  from u%d\n", id(&b)); a = b; return hobs(a); }
        case 12: { Vec &b = *vec(); Vec c(a); return (a == b) * 2 + (a != b) * 4 + (a == c) * 8 + (c != a) * 16; }
        case 13: return a.hasElement(ix(n));
        case 14: return hval(a.extractElement(ix(n)));
        case 15: { Idx q = a.nvals(); grb::IndexArrayType ri(q); std::vector<T> v(q); if (q) { if (r.below(2)) a.extractTuples(ri.begin(), v.begin()); else a.extractTuples(ri, v); } uint64_t h = q; for (Idx e = 0; e < q; ++e) h += mix(ri[e]) ^ hval(v[e]); return h; }
        default: { std::vector<T> d(1 + r.below(9)); if (bad && r.below(10) == 0) d.clear(); for (size_t e = 0; e < d.size(); ++e) d[e] = gval<T>(r); T z = gval<T>(r); if (r.below(2)) { Vec b(d); return hobs(b); } Vec b(d, z); return hobs(b); }
        }
        return hobs(a);
    }
    uint64_t printing()
    {
        act = "print"; if (ctx().state && !S) label(act); what += "print\n"; os.str(""); Mat &a = *mat(); Vec &u = *vec();
        switch (r.below(6))
        {
        case 0: os << a << u; break;
        case 1: a.printInfo(os); u.printInfo(os); break;
        case 2: grb::print_matrix(os, a, "a"); grb::print_vector(os, u, "u"); break;
        case 3: os << grb::transpose(a) << grb::complement(a) << grb::structure(a) << grb::complement(grb::structure(a)); break;
        case 4: os << grb::complement(u) << grb::structure(u) << grb::complement(grb::structure(u)) << grb::NoMask(); break;
        default: { Mat e(a); e.clear(); Vec f(u); f.clear(); os << e << f << grb::AllIndices(); }
        }
        return os.str().size() ? 1 : 0;
    }
    // runs one step; a library exception is an observation like any other
    void step()
    {
        uint64_t h; act = "?";
        int k = r.below(print ? 21 : 20);
        std::exception_ptr ep;
        try { h = k < 11 ? operation() : k < 16 ? matmethod() : k < 20 ? vecmethod() : printing(); }
        catch (grb::DimensionException const &) { h = 0xd1; ep = std::current_exception(); }
        catch (grb::InvalidIndexException const &) { h = 0x11; ep = std::current_exception(); }
        catch (grb::IndexOutOfBoundsException const &) { h = 0x0b; ep = std::current_exception(); }
        catch (grb::NoValueException const &) { h = 0x40; ep = std::current_exception(); }
        catch (grb::InvalidValueException const &) { h = 0x1f; ep = std::current_exception(); }
        if (ep)
        {   // the message is read after the throwing frame is gone, from the original and from a copy
            ++rejected; std::string msg;
            try { std::rethrow_exception(ep); }
            catch (grb::DimensionException const &e) { grb::DimensionException c(e); msg = static_cast<std::exception const &>(c).what(); msg += static_cast<std::exception const &>(e).what(); }
            catch (std::exception const &e) { msg = e.what(); }
            what += "  -> " + msg.substr(0, 80) + "\n";
        }
        log.push_back(h); acts.push_back(act);
    }
    uint64_t whole() const { uint64_t h = 1; for (auto const &a : P.A) h = mix(h ^ hobs(*a)); for (auto const &u : P.U) h = mix(h ^ hobs(*u)); return h; }
    void run(int steps) { for (int k = 0; k < steps; ++k) step(); log.push_back(whole()); acts.push_back("final state of every container"); }
};
} // namespace vh
