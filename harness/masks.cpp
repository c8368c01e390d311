// P11: the masked call related, position by position, to the same unmasked call.
#define CALLS_MAIN
#define HUGE_1IN 1000000000
#define WIDE_1IN 300
#define WIDE_MAX 90
#include "calls.hpp"
using namespace vh;
static void one(Rng &r, uint64_t)
{
    Op o; int op = r.below(NMASKED); gop(r, o, op);
    Shape s = gshape(r, o, false, r.below(3) != 0); World x; gworld(r, o, s, x);
    std::string cfg = o.cfg(), in = str(o, x), e; label(cfg);
    Rng ra(r.next());
    Op o2 = o; Live L1(o, x, ra); Live L2(o2, x, ra);
    run_op(o);
    label(cfg + " (unmasked twin)");
    o2.mk = NOMASK; run_op(o2);
    label(cfg + " compare");
    Idx in_n = 0, out_n = 0;
    auto rule = [&](auto const &old, auto const &full, bool sel) { (sel ? in_n : out_n)++; auto c = sel ? full : (o.repl ? decltype(old)() : old); return c; };
    if (matout(op))
    {
        MM<CT> z = snap(*L2.C), want = x.c;
        for (Idx i = 0; i < x.c.nr; ++i) for (Idx j = 0; j < x.c.nc; ++j)
        {
            bool sel, governed = true;
            if (op == ASGC) { governed = j == o.at; sel = in_mask(o.mk, x.m.at(i)); }
            else if (op == ASGR) { governed = i == o.at; sel = in_mask(o.mk, x.m.at(j)); }
            else sel = in_mask(o.mk, x.M.at(i, j));
            if (!governed) { want.at(i, j) = x.c.at(i, j); continue; }
            Cell<CT> f = z.at(i, j), od = x.c.at(i, j);
            if (sel) ++in_n; else ++out_n;
            want.at(i, j) = sel ? f : (o.repl ? Cell<CT>() : od);
        }
        e = diff(*L1.C, want);
        if (!e.empty()) e += "\nunmasked result=" + str(z);
    }
    else
    {
        VV<CT> z = snap(*L2.w), want = x.w;
        for (Idx i = 0; i < x.w.n; ++i)
        {
            bool sel = in_mask(o.mk, x.m.at(i));
            if (sel) ++in_n; else ++out_n;
            want.at(i) = sel ? z.at(i) : (o.repl ? Cell<CT>() : x.w.at(i));
        }
        e = diff(*L1.w, want);
        if (!e.empty()) e += "\nunmasked result=" + str(z);
    }
    if (!e.empty()) violation(cfg, e + "\n" + in);
    if (!(e = L1.inputs(x)).empty()) violation("input-modified " + cfg, e + "\n" + in);
    count(std::string(opname(op)) + " " + mkname(o.mk)); count("positions selected", in_n); count("positions rejected", out_n);
    bool nt = in_n && out_n;
    seen(mix(hstr(cfg) ^ shape(x)), nt); if (nt) sample(in);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
