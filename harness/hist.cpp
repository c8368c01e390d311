// P12/P13: random histories of container calls (and of operations that rewrite the container),
// with the full public state compared against a map model after every step.
#define HUGE_1IN 4000
#define WIDE_1IN 160
#define WIDE_CELLS 5000
#include "types.hpp"
using namespace vh;
using T = CT;
static std::string logs;
static void note(std::string const &s) { logs += s + "\n"; label(s.substr(0, s.find('('))); count(s.substr(0, s.find('('))); }
static std::string I(Idx i) { return std::to_string(i); }
template <class A, class B> static bool same(A const &x, B const &y)
{
    if (x.a.size() != y.a.size()) return false;
    for (size_t k = 0; k < x.a.size(); ++k) if (x.a[k].h != y.a[k].h || (x.a[k].h && !(x.a[k].v == y.a[k].v))) return false;
    return true;
}
#if VEC
using C = grb::Vector<T>; using M = VV<T>;
static bool eqm(M const &x, M const &y) { return x.n == y.n && same(x, y); }
static M gen(Rng &r) { return gvec<T>(r, gdimv(r)); }
static std::unique_ptr<C> make(Rng &r, M &m)
{
    switch (r.below(5))
    {
    case 0: m = M(m.n); note("Vector(size)(" + I(m.n) + ")"); return std::make_unique<C>(m.n);
    case 1: { T v = gval<T>(r); for (Idx i = 0; i < m.n; ++i) m.set(i, v); note("Vector(size,value)(" + I(m.n) + "," + vs(v) + ")"); return std::make_unique<C>(m.n, v); }
    case 2: { std::vector<T> d; for (Idx i = 0; i < m.n; ++i) { T v = gval<T>(r); d.push_back(v); m.set(i, v); } note("Vector(dense)(" + str(m) + ")"); return std::make_unique<C>(d); }
    case 3: { T z = gval<T>(r); std::vector<T> d; for (Idx i = 0; i < m.n; ++i) { T v = r.below(2) ? z : gval<T>(r); d.push_back(v); if (v == z) m.del(i); else m.set(i, v); }
              note("Vector(dense,zero)(" + str(m) + " zero=" + vs(z) + ")"); return std::make_unique<C>(d, z); }
    default: { note("Vector+load(" + str(m) + ")"); auto c = std::make_unique<C>(m.n); load(*c, m, r); return c; }
    }
}
static void step(Rng &r, C &c, M &m, C &c2, M &m2)
{
    Idx n = m.n, i = r.below(n);
    switch (r.below(20))
    {
    case 0: case 1: case 2: case 3: { T v = gval<T>(r); c.setElement(i, v); m.set(i, v); note("setElement(" + I(i) + "," + vs(v) + ")"); break; }
    case 4: case 5: case 6: c.removeElement(i); m.del(i); note("removeElement(" + I(i) + ")"); break;
    case 7: c.clear(); m = M(n); note("clear()"); break;
    case 8: case 9: { Idx k = r.below(3) ? gdimv(r) : 1 + r.below(n); c.resize(k); M x(k); for (Idx q = 0; q < k && q < n; ++q) x.at(q) = m.at(q); m = x; note("resize(" + I(k) + ")"); break; }
    case 10: case 11: case 12:
    {   // build replaces the contents
        Idx k = r.below(2 * n + 2); grb::IndexArrayType ix; std::vector<AT> v; M x(n); std::string s; int dup = r.below(2);
        for (Idx q = 0; q < k; ++q)
        {
            Idx p = r.below(n); AT w = gval<AT>(r); ix.push_back(p); v.push_back(w); s += I(p) + "=" + vs(w) + " ";
            if (x.at(p).h) x.set(p, dup ? static_cast<T>(ACC()(x.at(p).v, w)) : static_cast<T>(w)); else x.set(p, static_cast<T>(w));
        }
        bool it = r.below(2);
        if (dup) { if (it) c.build(ix.begin(), v.begin(), k, ACC()); else c.build(ix, v, ACC()); }
        else { if (it) c.build(ix.begin(), v.begin(), k); else c.build(ix, v); }
        m = x; note(std::string("build") + (dup ? "-dup" : "") + (it ? "-iter" : "") + "(" + s + ")"); break;
    }
    case 13: { C copy(c); c.setElement(i, gval<T>(r)); c = copy; note("copy+modify+assign()"); break; }
    case 14: { std::vector<T> d; for (Idx q = 0; q < n; ++q) { T v = gval<T>(r); d.push_back(v); m.set(q, v); } c = d; note("assign-dense(" + str(m) + ")"); break; }
    case 15: if (m2.n != n) { c2.resize(n); M x(n); for (Idx q = 0; q < n && q < m2.n; ++q) x.at(q) = m2.at(q); m2 = x; note("resize-other(" + I(n) + ")"); }
             std::swap(c, c2); std::swap(m, m2); note("swap()"); break;
    case 16: { Seq s = gseq(r, n, false); VV<AT> u = gvec<AT>(r, s.ix.size()); auto U = vh::mk(u, r); with_seq(s, [&](auto const &ix) { grb::assign(c, grb::NoMask(), grb::NoAccumulate(), U, ix); });
               for (Idx q = 0; q < s.ix.size(); ++q) if (u.at(q).h) m.set(s.ix[q], static_cast<T>(u.at(q).v)); else m.del(s.ix[q]); note("op-assign(" + s.s() + str(u) + ")"); break; }
    case 17: { VV<T> u = gvec<T>(r, n); auto U = vh::mk(u, r); grb::eWiseAdd(c, grb::NoMask(), grb::NoAccumulate(), grb::Second<T>(), c, U); for (Idx q = 0; q < n; ++q) if (u.at(q).h) m.at(q) = u.at(q); note("op-eWiseAdd(" + str(u) + ")"); break; }
    case 18: { VV<T> u = gvec<T>(r, n); auto U = vh::mk(u, r); grb::eWiseMult(c, grb::NoMask(), grb::NoAccumulate(), grb::First<T>(), c, U); for (Idx q = 0; q < n; ++q) if (!u.at(q).h) m.del(q); note("op-eWiseMult(" + str(u) + ")"); break; }
    default: c2 = (m2.n == n ? c : c2); if (m2.n == n) m2 = m; note("assign-copy()"); break;
    }
}
static std::string tuples(C const &c, M const &m)
{
    grb::IndexArrayType ix; std::vector<T> v; c.extractTuples(std::back_inserter(ix), std::back_inserter(v));
    if (ix.size() != m.nvals()) return "extractTuples(iterators) emitted " + I(ix.size()) + " tuples, expected " + I(m.nvals());
    std::set<Idx> seen;
    for (size_t k = 0; k < ix.size(); ++k) if (ix[k] >= m.n || !seen.insert(ix[k]).second || !m.at(ix[k]).h || !eqv<T>(m.at(ix[k]).v, v[k])) return "extractTuples(iterators) wrong tuple " + I(k);
    return "";
}
#else
using C = grb::Matrix<T>; using M = MM<T>;
static bool eqm(M const &x, M const &y) { return x.nr == y.nr && x.nc == y.nc && same(x, y); }
static void fresh() { if (scale().lev == 2) scale().lev = 1; scale().used = false; scale().cells = WIDE_CELLS; }
static M gen(Rng &r) { fresh(); Idx a = gdim(r), b = gdim(r); return gmat<T>(r, a, b); }
static M rs(M const &m, Idx a, Idx b) { M x(a, b); for (Idx i = 0; i < a && i < m.nr; ++i) for (Idx j = 0; j < b && j < m.nc; ++j) x.at(i, j) = m.at(i, j); return x; }
static std::unique_ptr<C> make(Rng &r, M &m)
{
    switch (r.below(4))
    {
    case 0: m = M(m.nr, m.nc); note("Matrix(rows,cols)(" + I(m.nr) + "," + I(m.nc) + ")"); return std::make_unique<C>(m.nr, m.nc);
    case 1: { std::vector<std::vector<T>> d(m.nr); for (Idx i = 0; i < m.nr; ++i) for (Idx j = 0; j < m.nc; ++j) { T v = gval<T>(r); d[i].push_back(v); m.set(i, j, v); } note("Matrix(dense)(" + str(m) + ")"); return std::make_unique<C>(d); }
    case 2: { T z = gval<T>(r); std::vector<std::vector<T>> d(m.nr); for (Idx i = 0; i < m.nr; ++i) for (Idx j = 0; j < m.nc; ++j) { T v = r.below(2) ? z : gval<T>(r); d[i].push_back(v); if (v == z) m.del(i, j); else m.set(i, j, v); }
              note("Matrix(dense,zero)(" + str(m) + " zero=" + vs(z) + ")"); return std::make_unique<C>(d, z); }
    default: { note("Matrix+load(" + str(m) + ")"); auto c = std::make_unique<C>(m.nr, m.nc); load(*c, m, r); return c; }
    }
}
static void step(Rng &r, C &c, M &m, C &c2, M &m2)
{
    Idx n = m.nr, k = m.nc, i = r.below(n), j = r.below(k);
    switch (r.below(23))
    {
    case 0: case 1: case 2: case 3: { T v = gval<T>(r); c.setElement(i, j, v); m.set(i, j, v); note("setElement(" + I(i) + "," + I(j) + "," + vs(v) + ")"); break; }
    case 4: case 5: case 6: c.removeElement(i, j); m.del(i, j); note("removeElement(" + I(i) + "," + I(j) + ")"); break;
    case 7: c.clear(); m = M(n, k); note("clear()"); break;
    case 8: case 9: { fresh(); Idx a = r.below(3) ? gdim(r) : n, b = r.below(3) ? gdim(r) : k; if (scale().lev && a * b > 200000) b = 1 + r.below(2); c.resize(a, b); m = rs(m, a, b); note("resize(" + I(a) + "," + I(b) + ")"); break; }
    case 10: case 11: case 12:
    {   // build merges into the contents
        Idx q = r.below(std::min<Idx>(2 * n + 4, 300)); grb::IndexArrayType ri, ci; std::vector<AT> v; std::string s; int dup = r.below(2);
        M before = m;
        for (Idx t = 0; t < q; ++t)
        {
            Idx a = r.below(n), b = r.below(k); AT w = gval<AT>(r); ri.push_back(a); ci.push_back(b); v.push_back(w); s += I(a) + "," + I(b) + "=" + vs(w) + " ";
            if (m.at(a, b).h) m.set(a, b, dup ? static_cast<T>(ACC()(m.at(a, b).v, static_cast<T>(w))) : static_cast<T>(w)); else m.set(a, b, static_cast<T>(w));
        }
        bool it = r.below(2);
        if (dup) { if (it) c.build(ri.begin(), ci.begin(), v.begin(), q, ACC()); else c.build(ri, ci, v, ACC()); }
        else { if (it) c.build(ri.begin(), ci.begin(), v.begin(), q); else c.build(ri, ci, v); }
        note(std::string("build") + (dup ? "-dup" : "") + (it ? "-iter" : "") + "(" + s + ")"); break;
    }
    case 13: { C copy(c); c.setElement(i, j, gval<T>(r)); c = copy; note("copy+modify+assign()"); break; }
    case 14: if (m2.nr != n || m2.nc != k) { c2.resize(n, k); m2 = rs(m2, n, k); note("resize-other(" + I(n) + "," + I(k) + ")"); }
             std::swap(c, c2); std::swap(m, m2); note("swap()"); break;
    case 15: if (m2.nr == n && m2.nc == k) { c2 = c; m2 = m; } note("assign-copy()"); break;
    case 16: { Seq s = gseq(r, n, false); VV<T> u = gvec<T>(r, s.ix.size()); auto U = vh::mk(u, r); with_seq(s, [&](auto const &ix) { grb::assign(c, grb::NoMask(), grb::NoAccumulate(), U, ix, j); });
               for (Idx q = 0; q < s.ix.size(); ++q) if (u.at(q).h) m.set(s.ix[q], j, u.at(q).v); else m.del(s.ix[q], j); note("op-assign-col(" + I(j) + s.s() + str(u) + ")"); break; }
    case 17: { Seq s = gseq(r, k, false); VV<T> u = gvec<T>(r, s.ix.size()); auto U = vh::mk(u, r); with_seq(s, [&](auto const &ix) { grb::assign(c, grb::NoMask(), grb::NoAccumulate(), U, i, ix); });
               for (Idx q = 0; q < s.ix.size(); ++q) if (u.at(q).h) m.set(i, s.ix[q], u.at(q).v); else m.del(i, s.ix[q]); note("op-assign-row(" + I(i) + s.s() + str(u) + ")"); break; }
    case 18: { MM<T> u = gmat<T>(r, n, k); auto U = vh::mk(u, r); grb::eWiseAdd(c, grb::NoMask(), grb::NoAccumulate(), grb::Second<T>(), c, U); for (size_t q = 0; q < u.a.size(); ++q) if (u.a[q].h) m.a[q] = u.a[q]; note("op-eWiseAdd(" + str(u) + ")"); break; }
    case 19: { MM<T> u = gmat<T>(r, n, k); auto U = vh::mk(u, r); grb::eWiseMult(c, grb::NoMask(), grb::NoAccumulate(), grb::First<T>(), c, U); for (size_t q = 0; q < u.a.size(); ++q) if (!u.a[q].h) m.a[q] = Cell<T>(); note("op-eWiseMult(" + str(u) + ")"); break; }
    case 20: { MM<T> u = gmat<T>(r, k, n); auto U = vh::mk(u, r); grb::transpose(c, grb::NoMask(), grb::NoAccumulate(), U); m = u.tr(); note("op-transpose(" + str(u) + ")"); break; }
    case 21: { MM<bool> u = gmask<bool>(r, n, k); auto U = vh::mk(u, r); T v = gval<T>(r); grb::assign(c, grb::structure(U), grb::NoAccumulate(), v, grb::AllIndices(), grb::AllIndices()); for (size_t q = 0; q < u.a.size(); ++q) if (u.a[q].h) { m.a[q].h = true; m.a[q].v = v; } note("op-assign-scalar-masked(" + vs(v) + str(u) + ")"); break; }
    default: { MM<bool> u = gmask<bool>(r, n, k); auto U = vh::mk(u, r); C src(c); grb::apply(c, grb::structure(U), grb::NoAccumulate(), grb::Identity<T>(), src, grb::REPLACE); for (size_t q = 0; q < u.a.size(); ++q) if (!u.a[q].h) m.a[q] = Cell<T>(); note("op-apply-masked-replace(" + str(u) + ")"); break; }
    }
}
static std::string tuples(C const &c, M const &m)
{
    grb::IndexArrayType ri, ci; std::vector<T> v; c.extractTuples(std::back_inserter(ri), std::back_inserter(ci), std::back_inserter(v));
    if (ri.size() != m.nvals() || ci.size() != ri.size() || v.size() != ri.size()) return "extractTuples(iterators) emitted " + I(ri.size()) + " tuples, expected " + I(m.nvals());
    std::set<std::pair<Idx, Idx>> seen;
    for (size_t k = 0; k < ri.size(); ++k) if (ri[k] >= m.nr || ci[k] >= m.nc || !seen.insert({ri[k], ci[k]}).second || !m.at(ri[k], ci[k]).h || !eqv<T>(m.at(ri[k], ci[k]).v, v[k])) return "extractTuples(iterators) wrong tuple " + I(k);
    return "";
}
#endif
static void one(Rng &r, uint64_t)
{
    logs.clear();
    std::vector<M> m; std::vector<std::unique_ptr<C>> c;
    M base = gen(r);
    for (int s = 0; s < 3; ++s)
    {
        M x = r.below(3) ? base : gen(r);
        auto p = make(r, x); std::string e = diff(*p, x);
        if (!e.empty()) { violation("constructor|" + ctx().tag, e + "\n" + logs); return; }
        m.push_back(x); c.push_back(std::move(p));
    }
    int steps = 4 + r.below(28); if (scale().lev == 2) steps = 3 + r.below(4); else if (scale().lev) steps = 3 + r.below(12); uint64_t h = 0; bool nt = false;
    for (int s = 0; s < steps; ++s)
    {
        int a = r.below(3), b = (a + 1 + r.below(2)) % 3;
        if (r.below(12) == 0) { c[a].reset(new C(*c[b])); m[a] = m[b]; note("copy-construct()"); }
        else step(r, *c[a], m[a], *c[b], m[b]);
        std::string at = ctx().tag, e;
        for (int q : {a, b}) if (!(e = diff(*c[q], m[q])).empty() || !(e = tuples(*c[q], m[q])).empty()) { violation("state|" + at, e + "\n" + logs); return; }
        for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
        {
            bool want = eqm(m[p], m[q]);
            if ((*c[p] == *c[q]) != want || (*c[p] != *c[q]) == want) { violation("equality|" + at, fmt("container %d == %d gives %d, expected %d\n", p, q, (int)(*c[p] == *c[q]), want) + logs); return; }
            count(want && p != q ? "equality true pairs" : "equality other pairs");
        }
        nt |= m[a].nvals() > 0; h = mix(h ^ shape(m[a]) ^ hstr(at));
    }
    // near-equal pair: copy, then change one thing
    {
        C y(*c[0]); M ym = m[0];
        bool want = true;
#if VEC
        Idx i = r.below(ym.n);
        if (r.below(2)) { if (ym.at(i).h) { y.removeElement(i); ym.del(i); } else { y.setElement(i, gval<T>(r)); ym.at(i).h = true; } want = false; }
        else if (ym.at(i).h) { T v = gval<T>(r); want = v == ym.at(i).v; y.setElement(i, v); }
#else
        Idx i = r.below(ym.nr), j = r.below(ym.nc);
        if (r.below(2)) { if (ym.at(i, j).h) y.removeElement(i, j); else y.setElement(i, j, gval<T>(r)); want = false; }
        else if (ym.at(i, j).h) { T v = gval<T>(r); want = v == ym.at(i, j).v; y.setElement(i, j, v); }
#endif
        if ((y == *c[0]) != want || (*c[0] != y) == want) violation("near-equality", "changed copy compares wrongly\n" + logs);
    }
    count("steps", steps);
    seen(h, nt); if (nt) sample(logs.substr(0, 500));
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
