// Every masked operation behind one run-time dispatcher, so that programs, metamorphic relations,
// error injection and threads can all draw from the same set of calls.  calls.cpp is compiled once
// per GROUP (in parallel) and linked with a driver.
#pragma once
#include "types.hpp"
namespace vh
{
enum OpId { MXM, MXV, VXM, EADDV, EADDM, EMULV, EMULM, APPV, APPM, B1V, B1M, B2V, B2M, REDV, TRN, KRON, EXTV, EXTM, EXTC,
            ASGV, ASGM, ASGC, ASGR, ASGSV, ASGSM, NMASKED, REDSV = NMASKED, REDSM, NOPS };
inline const char *opname(int o)
{
    static const char *n[] = {"mxm", "mxv", "vxm", "eWiseAdd(vec)", "eWiseAdd(mat)", "eWiseMult(vec)", "eWiseMult(mat)", "apply(vec)", "apply(mat)",
        "apply1st(vec)", "apply1st(mat)", "apply2nd(vec)", "apply2nd(mat)", "reduce(rows)", "transpose", "kronecker", "extract(vec)", "extract(mat)", "extract(col)",
        "assign(vec)", "assign(mat)", "assign(col)", "assign(row)", "assign(scalar,vec)", "assign(scalar,mat)", "reduce(vec,scalar)", "reduce(mat,scalar)"};
    return n[o];
}
inline bool matout(int o) { switch (o) { case MXM: case EADDM: case EMULM: case APPM: case B1M: case B2M: case TRN: case KRON: case EXTM: case ASGM: case ASGC: case ASGR: case ASGSM: return true; default: return false; } }
inline bool matmask(int o) { return matout(o) && o != ASGC && o != ASGR; }
inline bool usesA(int o) { switch (o) { case MXM: case MXV: case EADDM: case EMULM: case APPM: case B2M: case REDV: case REDSM: case TRN: case KRON: case EXTM: case EXTC: case ASGM: return true; default: return false; } }
inline bool usesB(int o) { return o == MXM || o == VXM || o == EADDM || o == EMULM || o == B1M || o == KRON; }
inline bool usesU(int o) { switch (o) { case VXM: case EADDV: case EMULV: case APPV: case B2V: case EXTV: case ASGV: case ASGC: case ASGR: case REDSV: return true; default: return false; } }
inline bool usesV(int o) { return o == MXV || o == EADDV || o == EMULV || o == B1V; }
// transposable inputs (REDSM takes the matrix as is)
inline bool trA(int o) { return usesA(o) && o != REDSM; }
inline bool trB(int o) { return usesB(o); }
inline int nseq(int o) { switch (o) { case EXTV: case EXTC: case ASGV: case ASGC: case ASGR: case ASGSV: return 1; case EXTM: case ASGM: case ASGSM: return 2; default: return 0; } }
// first group holding the operation
inline int opgroup(int o) { switch (o) { case MXM: case MXV: return 1; case VXM: case EADDV: case EMULV: case EADDM: case EMULM: return 2;
    case APPV: case APPM: case B1V: case B1M: case B2V: case B2M: return 3; case REDV: case REDSV: case REDSM: case TRN: case KRON: return 4; case EXTV: case EXTM: case EXTC: return 5; default: return 6; } }

struct Op
{
    int op = 0, mk = NOMASK; bool acc = false, repl = false, ta = false, tb = false;
    Seq s1, s2; Idx at = 0; AT cl{}; BT cr{}; CT scalar{};
    int add = 0, mul = 0, bop = 0, uop = 0;
    grb::Matrix<CT> *C = nullptr; grb::Matrix<MT> *M = nullptr; grb::Matrix<AT> *A = nullptr; grb::Matrix<BT> *B = nullptr;
    grb::Vector<CT> *w = nullptr; grb::Vector<MT> *m = nullptr; grb::Vector<AT> *u = nullptr; grb::Vector<BT> *v = nullptr;
    std::string cfg() const
    {
        std::string s = opname(op);
        if (trA(op)) s += ta ? " A'" : " A";
        if (trB(op)) s += tb ? " B'" : " B";
        if (nseq(op)) s += std::string(" ") + s1.k();
        if (nseq(op) == 2) s += std::string("/") + s2.k();
        if (op >= NMASKED) return s + (acc ? " accum" : " noaccum");
        return s + fmt(" %s %s %s", mkname(mk), acc ? "accum" : "noaccum", repl ? "replace" : "merge");
    }
    std::string args() const
    {
        std::string s = fmt("ops add=%d mul=%d bop=%d uop=%d", add, mul, bop, uop);
        if (nseq(op)) s += " i=" + s1.s(); if (nseq(op) == 2) s += " j=" + s2.s();
        return s + fmt(" at=%lu", (unsigned long)at) + " cl=" + vs(cl) + " cr=" + vs(cr);
    }
};
void run_group1(Op &); void run_group2(Op &); void run_group3(Op &); void run_group4(Op &); void run_group5(Op &); void run_group6(Op &);
inline void set_ops(Op const &o) { g_add() = o.add; g_mul() = o.mul; g_bop() = o.bop; g_uop() = o.uop; }
#ifdef CALLS_MAIN
inline void run_op(Op &o)
{
    set_ops(o);
    switch (opgroup(o.op)) { case 1: run_group1(o); break; case 2: run_group2(o); break; case 3: run_group3(o); break; case 4: run_group4(o); break; case 5: run_group5(o); break; default: run_group6(o); }
}
#endif
// the values that go into a call
struct World { MM<CT> c; MM<MT> M; MM<AT> a; MM<BT> b; VV<CT> w; VV<MT> m; VV<AT> u; VV<BT> v; };
struct Shape { Idx cr = 1, cc = 1, mr = 1, mc = 1, ar = 1, ac = 1, br = 1, bc = 1, wn = 1, mn = 1, un = 1, vn = 1; };
// sequence-kind pairs offered for matrix extract/assign
inline void gpair(Rng &r, int &a, int &b) { static const int P[4][2] = {{LIST, LIST}, {ALL, ALL}, {RANGE, LIST}, {ALL, RANGE}}; int k = r.below(4); a = P[k][0]; b = P[k][1]; }
// Chooses conforming dimensions and index sequences for o.op; dims may be forced equal (sq) to allow aliasing.
inline Shape gshape(Rng &r, Op &o, bool sq, bool small = false)
{
    auto gd = [&]() -> Idx { return small ? 1 + r.below(6) : gdim(r); };
    Shape s; Idx n = gd(), m = sq ? n : gd(), k = sq ? n : gd();
    auto A = [&](Idx x, Idx y) { s.ar = o.ta ? y : x; s.ac = o.ta ? x : y; };
    auto B = [&](Idx x, Idx y) { s.br = o.tb ? y : x; s.bc = o.tb ? x : y; };
    s.cr = n; s.cc = m; s.wn = n; s.un = s.vn = n;
    switch (o.op)
    {
    case MXM: A(n, k); B(k, m); break;
    case MXV: A(n, k); s.vn = k; break;
    case VXM: B(k, n); s.un = k; break;
    case EADDM: case EMULM: A(n, m); B(n, m); break;
    case APPM: case B2M: A(n, m); break;
    case B1M: B(n, m); break;
    case REDV: A(n, m); break;
    case REDSM: A(n, m); break;
    case TRN: A(m, n); break;
    case KRON:
    {
        Idx p = 1 + r.below(4), q = 1 + r.below(4), t = 1 + r.below(4), z = 1 + r.below(4);
        if (sq) { p = q = n > 6 ? 3 : n; t = z = 1; if (r.below(2)) std::swap(p, t), std::swap(q, z); }
        A(p, q); B(t, z); s.cr = p * t; s.cc = q * z; break;
    }
    case EXTV: s.un = n; o.s1 = gseq(r, n, !sq, sq ? (r.below(2) ? (int)ALL : (int)LIST) : -1); if (sq && o.s1.kind == LIST) { while (o.s1.ix.size() < n) o.s1.ix.push_back(r.below(n)); } s.wn = o.s1.ix.size(); break;
    case EXTC: A(n, m); o.s1 = gseq(r, n, true); s.wn = o.s1.ix.size(); o.at = r.below(m); break;
    case EXTM:
    {
        A(n, m); int a, b; gpair(r, a, b); if (sq) a = b = r.below(2) ? ALL : LIST;
        o.s1 = gseq(r, n, true, a); o.s2 = gseq(r, m, true, b);
        if (sq) { while (o.s1.ix.size() < n) o.s1.ix.push_back(r.below(n)); while (o.s2.ix.size() < m) o.s2.ix.push_back(r.below(m)); o.s1.ix.resize(n); o.s2.ix.resize(m); }
        s.cr = o.s1.ix.size(); s.cc = o.s2.ix.size(); break;
    }
    case ASGV: case ASGSV: o.s1 = gseq(r, n, false, sq ? (int)ALL : -1); s.un = o.s1.ix.size(); break;
    case ASGC: o.s1 = gseq(r, n, false, sq ? (int)ALL : -1); s.un = o.s1.ix.size(); o.at = r.below(m); break;
    case ASGR: o.s1 = gseq(r, m, false, sq ? (int)ALL : -1); s.un = o.s1.ix.size(); o.at = r.below(n); break;
    case ASGM: case ASGSM: { int a, b; gpair(r, a, b); if (sq) a = b = ALL; o.s1 = gseq(r, n, false, a); o.s2 = gseq(r, m, false, b); A(o.s1.ix.size(), o.s2.ix.size()); break; }
    default: break;
    }
    s.mr = s.cr; s.mc = s.cc; s.mn = o.op == ASGC ? s.cr : o.op == ASGR ? s.cc : s.wn;
    return s;
}
inline void gop(Rng &r, Op &o, int op)
{
    o.op = op; o.mk = op < NMASKED ? r.below(NMASKKINDS) : NOMASK; o.acc = r.below(2); o.repl = r.below(2);
    o.ta = trA(op) && r.below(2); o.tb = trB(op) && r.below(2);
    o.add = r.below(NADD); o.mul = r.below(NBIN); o.bop = r.below(NBIN); o.uop = r.below(4);
    o.cl = gval<AT>(r); o.cr = gval<BT>(r); o.scalar = gval<CT>(r);
    if (PROFILE == 5) o.cr = 2;
}
inline void gworld(Rng &r, Op const &o, Shape const &s, World &x)
{
    int p = o.op;
    if (matout(p)) x.c = gmat<CT>(r, s.cr, s.cc); else x.w = gvec<CT>(r, s.wn);
    if (matmask(p)) x.M = gmask<MT>(r, s.mr, s.mc); else x.m = gmaskv<MT>(r, s.mn);
    if (usesA(p)) x.a = gmat<AT>(r, s.ar, s.ac);
    if (usesB(p)) x.b = gmat<BT>(r, s.br, s.bc);
    if (usesU(p)) x.u = gvec<AT>(r, s.un);
    if (usesV(p)) x.v = gvec<BT>(r, s.vn);
    if (PROFILE == 5) { for (auto &c : x.b.a) if (c.h) c.v = c.v < 0 ? -2 : 2; for (auto &c : x.v.a) if (c.h) c.v = c.v < 0 ? -2 : 2; }
}
// Library containers holding a World, attached to an Op
struct Live
{
    std::unique_ptr<grb::Matrix<CT>> C; std::unique_ptr<grb::Matrix<MT>> M; std::unique_ptr<grb::Matrix<AT>> A; std::unique_ptr<grb::Matrix<BT>> B;
    std::unique_ptr<grb::Vector<CT>> w; std::unique_ptr<grb::Vector<MT>> m; std::unique_ptr<grb::Vector<AT>> u; std::unique_ptr<grb::Vector<BT>> v;
    Live(Op &o, World const &x, Rng &r)
    {
        if (x.c.nr) { C = std::make_unique<grb::Matrix<CT>>(x.c.nr, x.c.nc); load(*C, x.c, r); }
        if (x.M.nr) { M = std::make_unique<grb::Matrix<MT>>(x.M.nr, x.M.nc); load(*M, x.M, r); }
        if (x.a.nr) { A = std::make_unique<grb::Matrix<AT>>(x.a.nr, x.a.nc); load(*A, x.a, r); }
        if (x.b.nr) { B = std::make_unique<grb::Matrix<BT>>(x.b.nr, x.b.nc); load(*B, x.b, r); }
        if (x.w.n) { w = std::make_unique<grb::Vector<CT>>(x.w.n); load(*w, x.w, r); }
        if (x.m.n) { m = std::make_unique<grb::Vector<MT>>(x.m.n); load(*m, x.m, r); }
        if (x.u.n) { u = std::make_unique<grb::Vector<AT>>(x.u.n); load(*u, x.u, r); }
        if (x.v.n) { v = std::make_unique<grb::Vector<BT>>(x.v.n); load(*v, x.v, r); }
        o.C = C.get(); o.M = M.get(); o.A = A.get(); o.B = B.get(); o.w = w.get(); o.m = m.get(); o.u = u.get(); o.v = v.get();
    }
    std::string inputs(World const &x) const      // "" when no input or mask changed
    {
        std::string e;
        if (M && !(e = diff(*M, x.M)).empty()) return "mask matrix: " + e;
        if (A && !(e = diff(*A, x.a)).empty()) return "input A: " + e;
        if (B && !(e = diff(*B, x.b)).empty()) return "input B: " + e;
        if (m && !(e = diff(*m, x.m)).empty()) return "mask vector: " + e;
        if (u && !(e = diff(*u, x.u)).empty()) return "input u: " + e;
        if (v && !(e = diff(*v, x.v)).empty()) return "input v: " + e;
        return "";
    }
};
inline std::string str(Op const &o, World const &x)
{
    std::string s = o.cfg() + " " + o.args();
    if (x.c.nr) s += "\nC=" + str(x.c); if (x.w.n) s += "\nw=" + str(x.w);
    if (x.M.nr) s += "\nM=" + str(x.M); if (x.m.n) s += "\nm=" + str(x.m);
    if (x.a.nr) s += "\nA=" + str(x.a); if (x.b.nr) s += "\nB=" + str(x.b);
    if (x.u.n) s += "\nu=" + str(x.u); if (x.v.n) s += "\nv=" + str(x.v);
    return s;
}
inline uint64_t shape(World const &x) { return shape(x.c) * 3 ^ shape(x.w) * 5 ^ shape(x.M) * 7 ^ shape(x.m) * 11 ^ shape(x.a) * 13 ^ shape(x.b) * 17 ^ shape(x.u) * 19 ^ shape(x.v) * 23; }
// Reads a container back into a model through the public interface
template <class T> MM<T> snap(grb::Matrix<T> const &m)
{
    MM<T> x(m.nrows(), m.ncols());
    for (Idx i = 0; i < x.nr; ++i) for (Idx j = 0; j < x.nc; ++j) if (m.hasElement(i, j)) x.set(i, j, m.extractElement(i, j));
    return x;
}
template <class T> VV<T> snap(grb::Vector<T> const &m)
{
    VV<T> x(m.size());
    for (Idx i = 0; i < x.n; ++i) if (m.hasElement(i)) x.set(i, m.extractElement(i));
    return x;
}
} // namespace vh
