// P15: output passed again as input and/or mask (and inputs passed twice) versus separate copies.
#define CALLS_MAIN
#define HUGE_1IN 1000000000
#define WIDE_1IN 200
#define WIDE_MAX 90
#include "calls.hpp"
using namespace vh;
static void one(Rng &r, uint64_t)
{
    Op o; int op = r.below(NMASKED); gop(r, o, op);
    bool sq = r.below(8) != 0;
    Shape s = gshape(r, o, sq, r.below(3) != 0); World x; gworld(r, o, s, x);
    // which roles share the output container (bit 0 A/u, 1 B/v, 2 mask), and which inputs share one container
    std::string al; bool aA = false, aB = false, aM = false, iAB = false, iAM = false;
    auto fit = [](auto const &p, auto const &q) { return p.nr && p.nr == q.nr && p.nc == q.nc; };
    auto fitv = [](auto const &p, auto const &q) { return p.n && p.n == q.n; };
    if (matout(op))
    {
        if (fit(x.a, x.c) && r.below(2)) { aA = true; x.a = x.c; al += " A=C"; }
        if (fit(x.b, x.c) && r.below(2)) { aB = true; x.b = x.c; al += " B=C"; }
        if (o.mk && fit(x.M, x.c) && r.below(2)) { aM = true; for (auto &c : x.c.a) if (c.h && r.below(3) == 0) c.v = CT(0); x.M = x.c; if (aA) x.a = x.c; if (aB) x.b = x.c; al += " M=C"; }
        if (!aA && !aB && fit(x.a, x.b) && r.below(3) == 0) { iAB = true; x.b = x.a; al += " B=A"; }
        if (!aA && !aM && o.mk && fit(x.a, x.M) && r.below(4) == 0) { iAM = true; x.M = x.a; al += " M=A"; }
    }
    else
    {
        if (fitv(x.u, x.w) && r.below(2)) { aA = true; x.u = x.w; al += " u=w"; }
        if (fitv(x.v, x.w) && r.below(2)) { aB = true; x.v = x.w; al += " v=w"; }
        if (o.mk && fitv(x.m, x.w) && r.below(2)) { aM = true; for (auto &c : x.w.a) if (c.h && r.below(3) == 0) c.v = CT(0); x.m = x.w; if (aA) x.u = x.w; if (aB) x.v = x.w; al += " m=w"; }
        if (!aA && !aB && fitv(x.u, x.v) && r.below(3) == 0) { iAB = true; x.v = x.u; al += " v=u"; }
        if (!aA && !aM && o.mk && fitv(x.u, x.m) && r.below(4) == 0) { iAM = true; x.m = x.u; al += " m=u"; }
        // matrix-input operations whose input matrix is also used twice are covered by the cases above
    }
    std::string cfg = o.cfg() + " alias:" + (al.empty() ? " none" : al), in = str(o, x), e; label(cfg);
    Rng ra(r.next());
    Op o2 = o; Live L1(o, x, ra); Live L2(o2, x, ra);
    if (aA) { o.A = L1.C.get(); o.u = L1.w.get(); }
    if (aB) { o.B = L1.C.get(); o.v = L1.w.get(); }
    if (aM) { o.M = matmask(op) ? L1.C.get() : o.M; if (!matout(op)) o.m = L1.w.get(); }
    if (iAB) { o.B = L1.A.get(); o.v = L1.u.get(); }
    if (iAM) { if (matout(op)) o.M = L1.A.get(); else o.m = L1.u.get(); }
    run_op(o);
    label(cfg + " (separate copies)");
    run_op(o2);
    label(cfg + " compare");
    if (matout(op)) e = diff(*L1.C, snap(*L2.C)); else e = diff(*L1.w, snap(*L2.w));
    if (!e.empty()) violation(cfg, e + "\n" + in);
    // containers that were not the output are untouched (aliased roles live in the output container, their spares are unused)
    if (!(e = L1.inputs(x)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    if (!(e = L2.inputs(x)).empty()) violation("input-modified " + o2.cfg(), e + "\n" + in);
    count(std::string(opname(op)) + al); count(al.empty() ? "calls without aliasing" : "aliased calls");
    bool nt = !al.empty();
    seen(mix(hstr(cfg) ^ shape(x)), nt); if (nt) sample(cfg + "\n" + in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
