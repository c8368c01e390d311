// P16: long random programs (including rejected calls, repeated indices, printing, aliasing) and every
// algorithm, run under sanitizers.  The sanitizers, libstdc++ assertions, valgrind and the watchdog are
// the oracle; this driver only generates and counts.
#define CALLS_MAIN
#include "prog.hpp"
#include "algall.hpp"
using namespace vh;
static void one(Rng &r, uint64_t cas)
{
    if (cas % 5 == 4)
    {
        Rng rl(r.next()); AlgIn a(r, rl); uint64_t h = a.g.key() ^ a.u.key();
        for (int c = 0; c < 12; ++c) { int k = r.below(NALGS); label(fmt("algorithm %d", k)); auto o = run_alg(k, a); count(std::string("alg ") + o.name); ++ctx().observations; h = mix(h ^ k); }
        seen(h, true); sample(a.str()); return;
    }
    uint64_t s = r.next(); Prog p(s, r.next(), true, true, true);
    try { p.run(10 + r.below(40)); }
    catch (std::exception const &e) { violation(std::string("undocumented exception|") + typeid(e).name() + "|" + ctx().tag, p.what.substr(p.what.size() > 3500 ? p.what.size() - 3500 : 0)); return; }
    uint64_t h = 0; int ok = 0;
    for (size_t k = 0; k < p.log.size(); ++k) { h = mix(h ^ p.log[k]); count(p.acts[k]); ++ctx().observations; }
    ok = (int)p.log.size() - (int)p.rejected; count("calls rejected with an exception", p.rejected); count("assigns through repeated indices (memory safety only)", p.undef); count("calls with output aliased to an input", p.aliased);
    seen(h, ok > 2); sample(p.what);
}
int main(int argc, char **argv) { return drive(argc, argv, one); }
