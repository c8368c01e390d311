// P14: one argument of an otherwise conforming call is made non-conforming; the documented exception
// type must be thrown and the output left as it was.  The untouched call is the control.
#define CALLS_MAIN
#define HUGE_1IN 1000000000
#define WIDE_1IN 400
#define WIDE_MAX 90
#include "calls.hpp"
using namespace vh;
enum Ex { NONE = 0, DIM, INVIDX, OOB, NOVAL, INVVAL, OTHER };
static const char *exn(int e) { static const char *n[] = {"no exception", "DimensionException", "InvalidIndexException", "IndexOutOfBoundsException", "NoValueException", "InvalidValueException", "another exception"}; return n[e]; }
static std::string g_what;
template <class F> static int caught(F f)
{
    g_what.clear();
    try { f(); }
    catch (grb::DimensionException &e) { g_what = static_cast<std::exception &>(e).what(); return DIM; }
    catch (grb::InvalidIndexException &e) { g_what = static_cast<std::exception &>(e).what(); return INVIDX; }
    catch (grb::IndexOutOfBoundsException &e) { g_what = static_cast<std::exception &>(e).what(); return OOB; }
    catch (grb::NoValueException &e) { g_what = static_cast<std::exception &>(e).what(); return NOVAL; }
    catch (grb::InvalidValueException &e) { g_what = static_cast<std::exception &>(e).what(); return INVVAL; }
    catch (std::exception &e) { g_what = e.what(); return OTHER; }
    catch (...) { return OTHER; }
    return NONE;
}
static Idx huge(Rng &r, Idx n) { switch (r.below(6)) { case 0: case 1: return n; case 2: return n + 1; case 3: return n + 64 + r.below(1000); case 4: return ~(Idx)0; default: return (Idx)1 << 63; } }
static Idx other(Rng &r, Idx n) { for (;;) { Idx k = r.below(3) ? n + 1 - 2 * r.below(2) : 1 + r.below(2 * n + 3); if (k != n && k != 0) return k; } }
static void ops(Rng &r)
{
    Op o; int op = r.below(NMASKED); gop(r, o, op);
    Shape s = gshape(r, o, false, r.below(4) != 0);
    bool isx = op == EXTV || op == EXTM || op == EXTC, asg = op >= ASGV && op <= ASGSM;
    // candidate faults
    std::vector<std::pair<std::string, int>> f;
    auto add = [&](const char *n, int e) { f.push_back({n, e}); };
    if (o.mk) { if (matmask(op)) { add("mask rows", DIM); add("mask cols", DIM); } else add("mask size", DIM); }
    if (!asg && !isx)
    {
        if (matout(op)) { add("C rows", DIM); add("C cols", DIM); } else add("w size", DIM);
        if (usesA(op)) { add("A rows", DIM); if (op != REDV) add("A cols", DIM); }
        if (usesB(op)) { add("B rows", DIM); add("B cols", DIM); }
        if (usesU(op)) add("u size", DIM);
        if (usesV(op)) add("v size", DIM);
    }
    if (isx)
    {
        if (op != EXTM && o.s1.kind != ALL) add("w size", DIM);
        if (op == EXTM && o.s1.kind != ALL) add("C rows", DIM);
        if (op == EXTM && o.s2.kind != ALL) add("C cols", DIM);
    }
    if (op == ASGV || op == ASGC || op == ASGR) add("u size", DIM);
    if (op == ASGM) { add("A rows", DIM); add("A cols", DIM); }
    if (nseq(op) && o.s1.kind == LIST) add("index 1", OOB);
    if (nseq(op) && o.s1.kind == RANGE) add("range 1", OOB);
    if (nseq(op) == 2 && o.s2.kind == LIST) add("index 2", OOB);
    if (nseq(op) == 2 && o.s2.kind == RANGE) add("range 2", OOB);
    if (op == EXTC || op == ASGC || op == ASGR) add("line index", INVIDX);
    if ((op == ASGSV || op == ASGSM) && o.s1.kind == LIST) add("too many indices 1", DIM);
    if (op == ASGSM && o.s2.kind == LIST) add("too many indices 2", DIM);
    int expect = NONE; std::string fault = "none";
    if (f.size() && r.below(5)) { auto p = r.pick(f); fault = p.first; expect = p.second; }
    auto range = [&](Seq &q, Idx n) { Idx len = q.hi - q.lo; q.lo = n - len + 1 + r.below(4); q.hi = q.lo + len; q.ix.clear(); for (Idx i = q.lo; i < q.hi; ++i) q.ix.push_back(i); };
    // dimension that each sequence indexes
    Idx d1 = op == EXTV ? s.un : (op == EXTC || op == EXTM) ? (o.ta ? s.ac : s.ar) : (op == ASGV || op == ASGSV) ? s.wn : op == ASGR ? s.cc : s.cr;
    Idx d2 = op == EXTM ? (o.ta ? s.ar : s.ac) : s.cc;
    if (fault == "mask rows") s.mr = other(r, s.mr);
    if (fault == "mask cols") s.mc = other(r, s.mc);
    if (fault == "mask size") s.mn = other(r, s.mn);
    if (fault == "C rows") { s.cr = other(r, s.cr); s.mr = s.cr; }       // the mask still fits the output
    if (fault == "C cols") { s.cc = other(r, s.cc); s.mc = s.cc; }
    if (fault == "w size") { s.wn = other(r, s.wn); s.mn = s.wn; }
    if (fault == "A rows") (o.ta ? s.ac : s.ar) = other(r, o.ta ? s.ac : s.ar);
    if (fault == "A cols") (o.ta ? s.ar : s.ac) = other(r, o.ta ? s.ar : s.ac);
    if (fault == "B rows") (o.tb ? s.bc : s.br) = other(r, o.tb ? s.bc : s.br);
    if (fault == "B cols") (o.tb ? s.br : s.bc) = other(r, o.tb ? s.br : s.bc);
    if (fault == "u size") s.un = other(r, s.un);
    if (fault == "v size") s.vn = other(r, s.vn);
    if (fault == "index 1") o.s1.ix[r.below(o.s1.ix.size())] = huge(r, d1);
    if (fault == "index 2") o.s2.ix[r.below(o.s2.ix.size())] = huge(r, d2);
    if (fault == "range 1") range(o.s1, d1);
    if (fault == "range 2") range(o.s2, d2);
    if (fault == "line index") o.at = huge(r, op == EXTC ? (o.ta ? s.ar : s.ac) : op == ASGC ? s.cc : s.cr);
    if (fault == "too many indices 1") while (o.s1.ix.size() <= d1) o.s1.ix.push_back(r.below(d1));
    if (fault == "too many indices 2") while (o.s2.ix.size() <= d2) o.s2.ix.push_back(r.below(d2));
    // A kron/ASGM dimension of zero cannot arise: other() never returns 0
    World x; gworld(r, o, s, x);
    std::string cfg = o.cfg() + " fault: " + fault, in = str(o, x), e; label(cfg);
    Live L(o, x, r);
    int got = caught([&] { run_op(o); });
    label(cfg + " after");
    if (got != expect) violation(cfg, fmt("%s, expected %s\n", exn(got), exn(expect)) + in);
    else if (expect)
    {
        if (matout(op)) e = diff(*L.C, x.c); else e = diff(*L.w, x.w);
        if (!e.empty()) violation("output-changed-by-rejected-call " + cfg, e + "\n" + in);
        if (g_what.find(exn(expect)) != 0) violation("exception-message " + cfg, "what() = " + g_what);
    }
    if (!(e = L.inputs(x)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    count(fault + " -> " + exn(expect)); count(opname(op));
    seen(mix(hstr(cfg) ^ shape(x)), expect != NONE); if (expect) sample(cfg + "\n" + in);
}
static void want(std::string const &what, int expect, int got, std::string const &in)
{
    if (got != expect) violation("method|" + what, fmt("%s, expected %s\n", exn(got), exn(expect)) + in);
    count("method " + what);
}
static void methods(Rng &r)
{
    std::string e;
    Idx n = gdim(r), m = gdim(r);
    MM<CT> a = gmat<CT>(r, n, m); VV<CT> u = gvec<CT>(r, n);
    auto A = vh::mk(a, r); auto U = vh::mk(u, r);
    Idx i = r.below(n), j = r.below(m), bi = huge(r, n), bj = huge(r, m); CT v = gval<CT>(r);
    if (r.below(2)) { if (r.below(2)) j = bj; else i = bi; } else { i = bi; if (r.below(2)) j = bj; }
    std::string in = fmt("i=%lu j=%lu\n", (unsigned long)i, (unsigned long)j) + str(a) + str(u);
    int k = r.below(16); label(fmt("method %d", k));
    switch (k)
    {
    case 0: want("Matrix::setElement", OOB, caught([&] { A.setElement(i, j, v); }), in); break;
    case 1: want("Matrix::hasElement", OOB, caught([&] { A.hasElement(i, j); }), in); break;
    case 2: want("Matrix::extractElement", OOB, caught([&] { A.extractElement(i, j); }), in); break;
    case 3: want("Matrix::removeElement", OOB, caught([&] { A.removeElement(i, j); }), in); break;
    case 4: want("Vector::setElement", OOB, caught([&] { U.setElement(bi, v); }), in); break;
    case 5: want("Vector::hasElement", OOB, caught([&] { U.hasElement(bi); }), in); break;
    case 6: want("Vector::extractElement", OOB, caught([&] { U.extractElement(bi); }), in); break;
    case 7: want("Vector::removeElement", OOB, caught([&] { U.removeElement(bi); }), in); break;
    case 8: for (Idx p = 0; p < n; ++p) for (Idx q = 0; q < m; ++q) want("Matrix::extractElement stored?", a.at(p, q).h ? NONE : NOVAL, caught([&] { A.extractElement(p, q); }), in);
            for (Idx p = 0; p < n; ++p) want("Vector::extractElement stored?", u.at(p).h ? NONE : NOVAL, caught([&] { U.extractElement(p); }), in);
            for (Idx p = 0; p < n; ++p) want("Vector::removeElement valid", NONE, caught([&] { grb::Vector<CT> W(U); W.removeElement(p); }), in);
            break;
    case 9: want("Matrix::resize zero", INVVAL, caught([&] { if (r.below(2)) A.resize(0, m); else A.resize(n, 0); }), in);
            want("Vector::resize zero", INVVAL, caught([&] { U.resize(0); }), in); break;
    case 10: want("Vector(0)", INVVAL, caught([&] { grb::Vector<CT> W((Idx)0); }), in);
             want("Vector(empty dense)", INVVAL, caught([&] { grb::Vector<CT> W(std::vector<CT>{}); }), in);
             want("Vector(empty dense,zero)", INVVAL, caught([&] { grb::Vector<CT> W(std::vector<CT>{}, v); }), in); break;
    case 11: { std::vector<std::vector<CT>> d(n, std::vector<CT>(m, v)); Idx p = r.below(n); d[p].resize(other(r, m), v); bool one = n == 1;
               want("Matrix(ragged dense)", one ? NONE : DIM, caught([&] { grb::Matrix<CT> W(d); }), in); want("Matrix(ragged dense,zero)", one ? NONE : DIM, caught([&] { grb::Matrix<CT> W(d, v); }), in); break; }
    case 12: { Idx p = other(r, n), q = other(r, m); int w = r.below(3); grb::Matrix<CT> W(w == 1 ? n : p, w == 0 ? m : q);
               want("Matrix = other shape", DIM, caught([&] { A = W; }), in); grb::Vector<CT> Y(p); want("Vector = other size", DIM, caught([&] { U = Y; }), in);
               want("Vector = dense of other size", DIM, caught([&] { U = std::vector<CT>(p, v); }), in); break; }
    case 13: { grb::IndexArrayType ri(3, 0), ci(3, 0); std::vector<CT> x(3, v); int w = r.below(3); if (w == 0) ri.resize(other(r, 3), 0); else if (w == 1) ci.resize(other(r, 3), 0); else x.resize(other(r, 3), v);
               want("Matrix::build lengths", DIM, caught([&] { A.build(ri, ci, x); }), in);
               grb::IndexArrayType vi(other(r, 3), 0); std::vector<CT> y(3, v); want("Vector::build lengths", DIM, caught([&] { U.build(vi, y); }), in); break; }
    case 14: { Idx len = 1 + r.below(6); grb::IndexArrayType ix; std::vector<CT> y; for (Idx q = 0; q < len; ++q) { ix.push_back(r.below(n)); y.push_back(gval<CT>(r)); } ix[r.below(len)] = bi;
               want("Vector::build index", OOB, caught([&] { U.build(ix, y); }), in); break; }
    default: { Idx len = 1 + r.below(6); grb::IndexArrayType ri, ci; std::vector<CT> y; for (Idx q = 0; q < len; ++q) { ri.push_back(r.below(n)); ci.push_back(r.below(m)); y.push_back(gval<CT>(r)); }
               if (r.below(2)) ri[r.below(len)] = bi; else ci[r.below(len)] = bj;
               grb::Matrix<CT> W(A); want("Matrix::build index", OOB, caught([&] { W.build(ri, ci, y); }), in);
               // whatever was stored before the rejected tuple, the container stays consistent
               if (!(e = diff(W, [&] { MM<CT> x(n, m); for (Idx p = 0; p < n; ++p) for (Idx q = 0; q < m; ++q) if (W.hasElement(p, q)) x.set(p, q, W.extractElement(p, q)); return x; }())).empty()) violation("method|Matrix::build index state", e + "\n" + in);
               break; }
    }
    if (!(e = diff(A, a)).empty()) violation(fmt("method %d changed its matrix", k), e + "\n" + in);
    if (!(e = diff(U, u)).empty()) violation(fmt("method %d changed its vector", k), e + "\n" + in);
    seen(mix(hstr(fmt("m%d", k)) ^ shape(a) ^ shape(u) * 3 ^ i * 7 ^ j), true);
}
static void one(Rng &r, uint64_t) { if (r.below(4)) ops(r); else methods(r); }
int main(int argc, char **argv) { return drive(argc, argv, one); }
