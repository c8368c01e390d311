// P17: the same program on both platforms.  Each case's observations are appended to <out>.log; the
// driver compares the two platforms' logs.  In-process: a second run, after unrelated calls and with
// every container filled in a different order, must observe the same.
#define CALLS_MAIN
#include "prog.hpp"
#include "algall.hpp"
using namespace vh;
static FILE *lg;
static void one(Rng &, uint64_t cas)
{
    uint64_t base = mix(ctx().seed * 7919 + 13) ^ mix(cas * 31 + PROFILE);     // the same on both platforms
    Rng q(base ^ 0xabcdef);
    if (cas % 8 == 7)
    {
        Rng r1(base), l1(base + 1), r2(base), l2(base + 2); AlgIn a(r1, l1), b(r2, l2); uint64_t h = a.g.key() ^ a.u.key(); fprintf(lg, "%lu", (unsigned long)cas);
        int first = q.below(NALGS), cnt = 14;
        for (int c = 0; c < cnt; ++c)
        {
            int k = (first + c * 7) % NALGS; label(fmt("algorithm %d", k)); auto x = run_alg(k, a); count(std::string("alg ") + x.name); ctx().observations += 2;
            run_alg(q.below(NALGS), a);
            auto y = run_alg(k, b); if (x.hash() != y.hash()) violation(std::string("not repeatable|") + x.name, "second run (other insertion order) differs\n" + a.str());
            if (x.cls == EXACT) fprintf(lg, "\t%08x:%s", (unsigned)x.hash(), x.name);
            else if (x.cls == APPROX) { fprintf(lg, "\t~"); for (double v : x.v) fprintf(lg, "%.9g,", v); fprintf(lg, ":%s", x.name); }
            h = mix(h ^ k);
        }
        fprintf(lg, "\n"); seen(h, true); sample(a.str()); return;
    }
    Prog p(base, base + 1, true, false, false); int steps = 8 + q.below(25); p.run(steps);
    fprintf(lg, "%lu", (unsigned long)cas); uint64_t h = 0;
    for (size_t k = 0; k < p.log.size(); ++k) { fprintf(lg, "\t%08x:%s", (unsigned)p.log[k], p.acts[k]); h = mix(h ^ p.log[k]); count(p.acts[k]); ctx().observations += 2; }
    fprintf(lg, "\n"); if (ctx().verbose) fprintf(stderr, "%s\n", p.what.c_str());
    { Prog noise(q.next(), q.next(), true, false, false); noise.run(3); }
    Prog p2(base, base + 2, true, false, false); p2.run(steps);
    for (size_t k = 0; k < p.log.size() && k < p2.log.size(); ++k) if (p.log[k] != p2.log[k]) { violation(std::string("not repeatable|") + p.acts[k], fmt("step %zu observed something else in a second run with other insertion orders\n", k) + p.what); break; }
    count("calls rejected with an exception", p.rejected); count("calls with output aliased to an input", p.aliased);
    seen(h, p.log.size() > p.rejected + 2); sample(p.what);
}
int main(int argc, char **argv)
{
    parse(argc, argv); lg = fopen((ctx().out.empty() ? std::string("/dev/null") : ctx().out + fmt(".log%lu", (unsigned long)ctx().from)).c_str(), "w"); if (!lg) return 3;
    int rc = drive(argc, argv, one); fclose(lg); return rc;
}
