// Common runtime-verification harness: deterministic RNG, independent dense
// reference models, state observers, violation reporting and evidence counters.
// Only the public frontend API of the library (namespace grb) is used.
#pragma once

#include <graphblas/graphblas.hpp>

#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh
{
using Idx = grb::IndexType;

// ---------------------------------------------------------------------------
// RNG (splitmix64): case content depends only on (seed, tag, case number)
// ---------------------------------------------------------------------------
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t a = 1) : s(mix(a)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
};
inline uint64_t hstr(std::string const &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// ---------------------------------------------------------------------------
// Context: command line, state file for crash attribution, result file
// ---------------------------------------------------------------------------
struct Ctx
{
    std::string prop = "P00", shard = "s", out;
    uint64_t seed = 1;
    uint64_t from = 0, count = 1000;   // case range
    bool verbose = false;
    uint64_t max_viol = 40;

    std::string tag;                    // names the current case
    uint64_t cur = 0;

    // evidence
    uint64_t evaluations = 0, observations = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;

    struct V { std::string sig, detail; uint64_t cas; };
    std::vector<V> viols;
    std::map<std::string, uint64_t> vcount;

    char *state = nullptr;              // mmap'd: last case + label
};
inline Ctx &ctx() { static Ctx c; return c; }

inline std::string jesc(std::string const &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
inline void label(std::string const &what)
{
    ctx().tag = what;
    if (ctx().state)
    {
        size_t n = std::min<size_t>(what.size(), 900);
        memcpy(ctx().state + 64, what.data(), n);
        ctx().state[64 + n] = 0;
    }
}
// Re-arm the per-case watchdog (CPU time of this process, so independent of load)
inline void arm(unsigned cpu_s)
{
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline void on_prof(int)
{
    static const char m[] = "\nVH-HANG: case exceeded its CPU budget\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(97);
}
inline unsigned &case_cpu() { static unsigned s = 60; return s; }
inline void begin_case(uint64_t c)
{
    ctx().cur = c;
    if (ctx().state) snprintf(ctx().state, 60, "%" PRIu64, c);
    arm(case_cpu());
}
inline void count(std::string const &k, uint64_t n = 1) { ctx().counters[k] += n; }

inline void violation(std::string const &sig, std::string const &detail)
{
    auto &c = ctx();
    if (c.vcount[sig]++ == 0 && c.viols.size() < c.max_viol)
        c.viols.push_back({sig, detail, c.cur});
    if (c.verbose) fprintf(stderr, "VIOL %s case=%" PRIu64 "\n%s\n", sig.c_str(), c.cur, detail.c_str());
}
// Record one evaluated case: key describes configuration+shape, nontrivial flag by caller
inline void seen(uint64_t key, bool nontrivial)
{
    auto &c = ctx();
    ++c.evaluations;
    if (nontrivial) { ++c.nontrivial; c.distinct.insert(key); }
}
inline void sample(std::string const &s)
{
    if (ctx().samples.size() < 4) ctx().samples.push_back(s.substr(0, 600));
}

inline void parse(int argc, char **argv)
{
    auto &c = ctx();
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") c.prop = v;
        else if (k == "--shard") c.shard = v;
        else if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--from") c.from = strtoull(v.c_str(), 0, 10);
        else if (k == "--count") c.count = strtoull(v.c_str(), 0, 10);
        else if (k == "--out") c.out = v;
        else if (k == "--verbose") c.verbose = v == "1";
    }
    if (!c.out.empty())
    {
        std::string sf = c.out + ".state";
        int fd = open(sf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
        {
            void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.state = (char *)p;
        }
        if (fd >= 0) close(fd);
    }
    signal(SIGPROF, on_prof);
}
inline int finish()
{
    arm(0);
    auto &c = ctx();
    FILE *f = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%" PRIu64 ",\"observations\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct\":[",
            c.evaluations, c.observations, c.nontrivial);
    bool first = true;
    for (auto h : c.distinct) { fprintf(f, "%s\"%016" PRIx64 "\"", first ? "" : ",", h); first = false; }
    fprintf(f, "],\"counters\":{");
    first = true;
    for (auto &kv : c.counters) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto &v : c.viols)
    {
        fprintf(f, "%s{\"sig\":\"%s\",\"case\":%" PRIu64 ",\"n\":%" PRIu64 ",\"detail\":\"%s\"}", first ? "" : ",",
                jesc(v.sig).c_str(), v.cas, c.vcount[v.sig], jesc(v.detail.substr(0, 4000)).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}

// ---------------------------------------------------------------------------
// Rare large cases: 1 in WIDE_1IN cases may draw dimensions up to a few hundred,
// 1 in HUGE_1IN one dimension beyond 65536 (sparse, the others tiny)
// ---------------------------------------------------------------------------
#ifndef WIDE_1IN
#define WIDE_1IN 96
#endif
#ifndef HUGE_1IN
#define HUGE_1IN 1200
#endif
#ifndef WIDE_MAX
#define WIDE_MAX 380
#endif
#ifndef WIDE_CELLS
#define WIDE_CELLS 12000
#endif
struct Scale { int lev = 0; uint64_t cells = 0; bool used = false; };
inline Scale &scale() { static thread_local Scale s; return s; }
inline void set_scale(uint64_t h)
{
    Scale s; uint64_t z = mix(h ^ 0x5ca1e);
    if (z % HUGE_1IN == 1 && HUGE_1IN < 1000000000) { s.lev = 2; ctx().counters["cases with a dimension beyond 65536"]++; }
    else if (z % WIDE_1IN == 0 && WIDE_1IN < 1000000000) { s.lev = 1; ctx().counters["cases with dimensions in the tens to hundreds"]++; }
    s.cells = WIDE_CELLS; scale() = s;
}

// Runs body(rng, case) over this shard's case range.
template <class F> int drive(int argc, char **argv, F body)
{
    parse(argc, argv);
    auto &c = ctx();
    for (uint64_t k = c.from; k < c.from + c.count; ++k)
    {
        begin_case(k);
        Rng r(mix(c.seed * 1000003ULL) ^ hstr(c.shard) ^ mix(k + 77));
        label("?"); set_scale(r.s);
        try { body(r, k); }
        catch (std::exception &e)
        {
            violation("unexpected-exception|" + c.tag, std::string("exception escaped a valid call: ") + typeid(e).name() + " during " + c.tag);
        }
        catch (...)
        {
            violation("unexpected-exception|" + c.tag, "non-std exception escaped a valid call during " + c.tag);
        }
    }
    return finish();
}

// ---------------------------------------------------------------------------
// Reference models
// ---------------------------------------------------------------------------
template <class T> struct Cell { bool h = false; T v{}; };

template <class T> struct MM
{
    Idx nr = 0, nc = 0;
    std::vector<Cell<T>> a;
    MM() {}
    MM(Idx r, Idx c) : nr(r), nc(c), a(r * c) {}
    Cell<T> &at(Idx i, Idx j) { return a[i * nc + j]; }
    Cell<T> const &at(Idx i, Idx j) const { return a[i * nc + j]; }
    void set(Idx i, Idx j, T v) { auto &c = at(i, j); c.h = true; c.v = v; }
    void del(Idx i, Idx j) { auto &c = at(i, j); c.h = false; c.v = T{}; }
    Idx nvals() const { Idx n = 0; for (auto &c : a) n += c.h; return n; }
    MM<T> tr() const
    {
        MM<T> t(nc, nr);
        for (Idx i = 0; i < nr; ++i) for (Idx j = 0; j < nc; ++j) t.at(j, i) = at(i, j);
        return t;
    }
};
template <class T> struct VV
{
    Idx n = 0;
    std::vector<Cell<T>> a;
    VV() {}
    explicit VV(Idx k) : n(k), a(k) {}
    Cell<T> &at(Idx i) { return a[i]; }
    Cell<T> const &at(Idx i) const { return a[i]; }
    void set(Idx i, T v) { a[i].h = true; a[i].v = v; }
    void del(Idx i) { a[i].h = false; a[i].v = T{}; }
    Idx nvals() const { Idx k = 0; for (auto &c : a) k += c.h; return k; }
};

template <class T> std::string vs(T const &v)
{
    std::ostringstream o; o.precision(17);
    if constexpr (sizeof(T) == 1 && std::is_integral_v<T>) o << (int)v; else o << v;
    return o.str();
}
template <class T> std::string str(MM<T> const &m)
{
    std::string s = fmt("%lux%lu{", (unsigned long)m.nr, (unsigned long)m.nc);
    for (Idx i = 0; i < m.nr; ++i) for (Idx j = 0; j < m.nc; ++j)
        if (m.at(i, j).h) s += fmt("(%lu,%lu)=", (unsigned long)i, (unsigned long)j) + vs(m.at(i, j).v) + " ";
    return s + "}";
}
template <class T> std::string str(VV<T> const &m)
{
    std::string s = fmt("%lu{", (unsigned long)m.n);
    for (Idx i = 0; i < m.n; ++i)
        if (m.at(i).h) s += fmt("[%lu]=", (unsigned long)i) + vs(m.at(i).v) + " ";
    return s + "}";
}
template <class T> uint64_t shape(MM<T> const &m)
{
    uint64_t h = mix(m.nr * 131 + m.nc);
    for (size_t k = 0; k < m.a.size(); ++k) if (m.a[k].h) h = mix(h ^ (k + 1));
    return h;
}
template <class T> uint64_t shape(VV<T> const &m)
{
    uint64_t h = mix(m.n + 7);
    for (size_t k = 0; k < m.a.size(); ++k) if (m.a[k].h) h = mix(h ^ (k + 1));
    return h;
}

template <class T> bool eqv(T const &a, T const &b)
{
    if constexpr (std::is_floating_point_v<T>) { return a == b || (std::isnan(a) && std::isnan(b)); }
    else return a == b;
}

// vector<bool> cannot hand out T&: extractTuples for bool uses vector<bool>
template <class T> using VecOf = std::vector<T>;

// ---------------------------------------------------------------------------
// Observers: the complete public state of a container against the model.
// Returns "" when everything agrees.
// ---------------------------------------------------------------------------
template <class T, class... Tags>
std::string diff(grb::Matrix<T, Tags...> const &m, MM<T> const &x)
{
    ++ctx().observations;
    std::string e;
    if (m.nrows() != x.nr || m.ncols() != x.nc)
        return fmt("shape %lux%lu, expected %lux%lu", (unsigned long)m.nrows(), (unsigned long)m.ncols(),
                   (unsigned long)x.nr, (unsigned long)x.nc);
    Idx nv = x.nvals();
    // element access is probed everywhere, or at a sample of positions when there are very many
    // (the extracted tuples below are compared completely in either case)
    uint64_t const total = (uint64_t)x.nr * x.nc, limit = 30000, step = total > limit ? total / 3000 | 1 : 1;
    for (uint64_t p = 0; p < total; p += step)
        {
            Idx i = p / x.nc, j = p % x.nc;
            bool h = m.hasElement(i, j);
            auto &c = x.at(i, j);
            if (h != c.h)
                return fmt("(%lu,%lu) %s, expected %s", (unsigned long)i, (unsigned long)j,
                           h ? "present" : "absent", c.h ? ("value " + vs(c.v)).c_str() : "absent");
            if (h)
            {
                T v = m.extractElement(i, j);
                if (!eqv<T>(v, c.v))
                    return fmt("(%lu,%lu) = %s, expected %s", (unsigned long)i, (unsigned long)j, vs(v).c_str(), vs(c.v).c_str());
            }
        }
    if (m.nvals() != nv) return fmt("nvals %lu, expected %lu", (unsigned long)m.nvals(), (unsigned long)nv);
    grb::IndexArrayType ri(nv), ci(nv);
    std::vector<T> vv(nv);
    if (nv) m.extractTuples(ri, ci, vv);
    MM<T> y(x.nr, x.nc);
    for (Idx k = 0; k < nv; ++k)
    {
        if (ri[k] >= x.nr || ci[k] >= x.nc) return fmt("tuple %lu out of range", (unsigned long)k);
        if (y.at(ri[k], ci[k]).h) return fmt("duplicate tuple at (%lu,%lu)", (unsigned long)ri[k], (unsigned long)ci[k]);
        y.set(ri[k], ci[k], vv[k]);
        if (!x.at(ri[k], ci[k]).h || !eqv<T>(x.at(ri[k], ci[k]).v, vv[k]))
            return fmt("extracted tuple (%lu,%lu)=%s disagrees with element access", (unsigned long)ri[k], (unsigned long)ci[k], vs<T>(vv[k]).c_str());
    }
    return e;
}
template <class T, class... Tags>
std::string diff(grb::Vector<T, Tags...> const &m, VV<T> const &x)
{
    ++ctx().observations;
    if (m.size() != x.n) return fmt("size %lu, expected %lu", (unsigned long)m.size(), (unsigned long)x.n);
    Idx nv = x.nvals();
    for (Idx i = 0; i < x.n; ++i)
    {
        bool h = m.hasElement(i);
        auto &c = x.at(i);
        if (h != c.h)
            return fmt("[%lu] %s, expected %s", (unsigned long)i, h ? "present" : "absent",
                       c.h ? ("value " + vs(c.v)).c_str() : "absent");
        if (h)
        {
            T v = m.extractElement(i);
            if (!eqv<T>(v, c.v)) return fmt("[%lu] = %s, expected %s", (unsigned long)i, vs(v).c_str(), vs(c.v).c_str());
        }
    }
    if (m.nvals() != nv) return fmt("nvals %lu, expected %lu", (unsigned long)m.nvals(), (unsigned long)nv);
    grb::IndexArrayType ri(nv);
    std::vector<T> vv(nv);
    if (nv) m.extractTuples(ri.begin(), vv.begin());
    std::vector<char> dup(x.n, 0);
    for (Idx k = 0; k < nv; ++k)
    {
        if (ri[k] >= x.n) return fmt("tuple %lu out of range", (unsigned long)k);
        if (dup[ri[k]]++) return fmt("duplicate tuple at [%lu]", (unsigned long)ri[k]);
        if (!x.at(ri[k]).h || !eqv<T>(x.at(ri[k]).v, vv[k]))
            return fmt("extracted tuple [%lu]=%s disagrees with element access", (unsigned long)ri[k], vs<T>(vv[k]).c_str());
    }
    return "";
}

// ---------------------------------------------------------------------------
// Building library containers from models, by different public routes
// ---------------------------------------------------------------------------
template <class T>
void load(grb::Matrix<T> &m, MM<T> const &x, Rng &r)
{
    std::vector<std::pair<Idx, Idx>> pos;
    for (Idx i = 0; i < x.nr; ++i) for (Idx j = 0; j < x.nc; ++j) if (x.at(i, j).h) pos.emplace_back(i, j);
    uint64_t how = r.below(3);
    if (how != 0)
        for (size_t k = pos.size(); k > 1; --k) std::swap(pos[k - 1], pos[r.below(k)]);
    if (how == 2)
    {
        grb::IndexArrayType ri, ci; std::vector<T> v;
        for (auto &p : pos) { ri.push_back(p.first); ci.push_back(p.second); v.push_back(x.at(p.first, p.second).v); }
        m.build(ri, ci, v);
    }
    else
        for (auto &p : pos) m.setElement(p.first, p.second, x.at(p.first, p.second).v);
}
template <class T>
void load(grb::Vector<T> &m, VV<T> const &x, Rng &r)
{
    std::vector<Idx> pos;
    for (Idx i = 0; i < x.n; ++i) if (x.at(i).h) pos.push_back(i);
    uint64_t how = r.below(3);
    if (how != 0)
        for (size_t k = pos.size(); k > 1; --k) std::swap(pos[k - 1], pos[r.below(k)]);
    if (how == 2)
    {
        grb::IndexArrayType ri; std::vector<T> v;
        for (auto p : pos) { ri.push_back(p); v.push_back(x.at(p).v); }
        m.build(ri, v);
    }
    else
        for (auto p : pos) m.setElement(p, x.at(p).v);
}
template <class T> grb::Matrix<T> mk(MM<T> const &x, Rng &r) { grb::Matrix<T> m(x.nr, x.nc); load(m, x, r); return m; }
template <class T> grb::Vector<T> mk(VV<T> const &x, Rng &r) { grb::Vector<T> m(x.n); load(m, x, r); return m; }

// ---------------------------------------------------------------------------
// Generators
// ---------------------------------------------------------------------------
// Values exactly representable everywhere; fractional for floating types so
// that a truncation through an integer type is visible.
template <class T> T gval(Rng &r)
{
    if constexpr (std::is_same_v<T, bool>) return r.below(4) != 0;
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (r.below(8) == 0) return T(0);
        return (T)(r.range(-24, 24) * 0.25);
    }
    else if constexpr (std::is_unsigned_v<T>)
    {
        if (r.below(8) == 0) return T(0);
        return (T)r.range(0, sizeof(T) == 1 ? 11 : 23);
    }
    else
    {
        if (r.below(8) == 0) return T(0);
        return (T)r.range(sizeof(T) == 1 ? -6 : -15, sizeof(T) == 1 ? 6 : 15);
    }
}
inline Idx gdim0(Rng &r)
{
    switch (r.below(12))
    {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return 4;
    case 4: return 5;
    case 5: return 6;
    case 6: return 7 + r.below(4);
    case 7: return r.below(12) == 0 ? 63 + r.below(4) : 8 + r.below(9);
    default: return 2 + r.below(6);
    }
}
// Dimension of a matrix side (the sides of a case share one budget of cells)
inline Idx gdim(Rng &r)
{
    Scale &s = scale();
    if (s.lev == 2)
    {
        if (!s.used && r.below(2)) { s.used = true; return 65500 + r.below(700); }
        return 1 + r.below(3);
    }
    if (s.lev == 1)
    {
        Idx d = r.below(3) ? 17 + r.below(r.below(3) ? std::min(60, WIDE_MAX) : WIDE_MAX) : gdim0(r);
        d = std::max<Idx>(1, std::min<Idx>(d, s.cells)); s.cells = std::max<uint64_t>(1, s.cells / d);
        return d;
    }
    return gdim0(r);
}
// Size of a vector
inline Idx gdimv(Rng &r)
{
    Scale &s = scale();
    if (s.lev == 2) return 65500 + r.below(700);
    if (s.lev == 1) return 17 + r.below(r.below(3) ? 120 : 1500);
    return gdim0(r);
}
inline double gdens(Rng &r)
{
    if (scale().lev == 2) { static const double t[] = {0.00005, 0.0005, 0.002, 0.006}; return t[r.below(4)]; }
    static const double d[] = {0.0, 0.08, 0.2, 0.35, 0.5, 0.7, 0.9, 1.0};
    uint64_t k = r.below(16);
    return k < 8 ? d[k] : 0.15 + 0.05 * (double)(k - 8);
}
template <class T> MM<T> gmat(Rng &r, Idx nr, Idx nc, double dens = -1)
{
    MM<T> x(nr, nc);
    if (dens < 0) dens = gdens(r);
    uint64_t pat = r.below(8);
    for (Idx i = 0; i < nr; ++i)
    {
        if (pat == 1 && r.below(2)) continue;                   // empty rows
        for (Idx j = 0; j < nc; ++j)
        {
            if (pat == 2 && j % 2) continue;                    // empty columns
            if (pat == 3 && i != j && r.below(3)) continue;     // near diagonal
            if (r.chance(dens)) x.set(i, j, gval<T>(r));
        }
    }
    if (scale().lev == 2) for (int k = 0; k < 4; ++k) { x.set(nr - 1 - r.below(std::min<Idx>(nr, 600)), nc - 1 - r.below(std::min<Idx>(nc, 600)), gval<T>(r)); x.set(r.below(std::min<Idx>(nr, 3)), r.below(std::min<Idx>(nc, 3)), gval<T>(r)); }
    return x;
}
template <class T> VV<T> gvec(Rng &r, Idx n, double dens = -1)
{
    VV<T> x(n);
    if (dens < 0) dens = gdens(r);
    for (Idx i = 0; i < n; ++i) if (r.chance(dens)) x.set(i, gval<T>(r));
    if (scale().lev == 2) for (int k = 0; k < 4; ++k) x.set(n - 1 - r.below(std::min<Idx>(n, 600)), gval<T>(r));
    return x;
}
template <class T> T mval(Rng &r)   // mask values: plenty of explicit falses
{
    if constexpr (std::is_same_v<T, bool>) return r.below(2);
    else if constexpr (std::is_floating_point_v<T>) { static const double d[] = {0.0, 0.5, 1.0, -0.25, 0.0}; return (T)d[r.below(5)]; }
    else { static const int d[] = {0, 1, 2, 0, 4}; return (T)d[r.below(5)]; }
}
template <class T> MM<T> gmask(Rng &r, Idx nr, Idx nc)
{
    auto x = gmat<T>(r, nr, nc);
    bool allfalse = r.below(16) == 0;
    for (auto &c : x.a) if (c.h) c.v = allfalse ? T(0) : mval<T>(r);
    return x;
}
template <class T> VV<T> gmaskv(Rng &r, Idx n)
{
    auto x = gvec<T>(r, n);
    bool allfalse = r.below(16) == 0;
    for (auto &c : x.a) if (c.h) c.v = allfalse ? T(0) : mval<T>(r);
    return x;
}

// ---------------------------------------------------------------------------
// Masks
// ---------------------------------------------------------------------------
enum MaskKind { NOMASK = 0, VALUE, COMP, STRUCT, SCOMP, NMASKKINDS };
inline const char *mkname(int k)
{
    static const char *n[] = {"nomask", "mask", "!mask", "struct", "!struct"};
    return n[k];
}
template <class T> bool in_mask(int kind, Cell<T> const &c)
{
    switch (kind)
    {
    case NOMASK: return true;
    case VALUE: return c.h && static_cast<bool>(c.v);
    case COMP: return !(c.h && static_cast<bool>(c.v));
    case STRUCT: return c.h;
    default: return !c.h;
    }
}
template <class M, class F> void with_mask(int kind, M const &m, F f)
{
    switch (kind)
    {
    case NOMASK: f(grb::NoMask()); break;
    case VALUE: f(m); break;
    case COMP: f(grb::complement(m)); break;
    case STRUCT: f(grb::structure(m)); break;
    default: f(grb::complement(grb::structure(m))); break;
    }
}
template <class ACC, class F> void with_accum(bool acc, F f)
{
    if (acc) f(ACC()); else f(grb::NoAccumulate());
}
template <class M, class F> void with_tr(bool t, M const &m, F f)
{
    if (t) f(grb::transpose(m)); else f(m);
}

// Reference write-back: C<M,z> = C (+) T
template <class CT, class TT, class MT, class ACC>
MM<CT> writeback(MM<CT> const &C, MM<TT> const &T, int mk, MM<MT> const &M, bool acc, ACC accum, bool repl)
{
    MM<CT> R(C.nr, C.nc);
    for (size_t k = 0; k < C.a.size(); ++k)
    {
        bool in = mk == NOMASK ? true : in_mask(mk, M.a[k]);
        Cell<CT> o;
        if (in)
        {
            if (T.a[k].h)
            {
                o.h = true;
                if (acc && C.a[k].h) o.v = static_cast<CT>(accum(C.a[k].v, T.a[k].v));
                else o.v = static_cast<CT>(T.a[k].v);
            }
            else if (acc && C.a[k].h) o = C.a[k];
        }
        else if (!repl) o = C.a[k];
        R.a[k] = o;
    }
    return R;
}
template <class CT, class TT, class MT, class ACC>
VV<CT> writeback(VV<CT> const &C, VV<TT> const &T, int mk, VV<MT> const &M, bool acc, ACC accum, bool repl)
{
    MM<CT> c(1, C.n); c.a = C.a;
    MM<TT> t(1, T.n); t.a = T.a;
    MM<MT> m(1, M.n); m.a = M.a;
    VV<CT> r(C.n);
    r.a = writeback(c, t, mk, m, acc, accum, repl).a;
    return r;
}
} // namespace vh
