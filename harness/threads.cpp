// P20: several threads run programs on their own containers with shared read-only inputs and masks, and
// algorithms on shared graphs; ThreadSanitizer watches, and every observation is compared with the same
// program run alone.  The threads publish what they are doing with relaxed atomics (no ordering for
// ThreadSanitizer to lean on), so that the pairs of calls actually in flight together are counted.
#define CALLS_MAIN
#include "prog.hpp"
#include "algall.hpp"
#include <atomic>
#include <thread>
using namespace vh;
constexpr int MAXT = 4;
static std::atomic<const char *> now[MAXT]; static std::atomic<int> ready;
struct Job
{
    uint64_t seed; int steps, algs; Pool const *S; AlgIn const *G; Idx n;
    std::vector<uint64_t> log; std::vector<std::string> acts; std::string err; uint64_t shared = 0; std::vector<std::pair<const char *, const char *>> pairs;
    void go(int me, int of, bool par)
    {
        Rng q(seed ^ 0x77); Prog p(seed, seed + 1, true, false, true, S, n); int a = algs, s = steps;
        if (par) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < of) std::this_thread::yield(); }
        try
        {
            while (a || s)
            {
                bool al = a && (!s || q.below(3) == 0); const char *act;
                int k = q.below(NALGS), pause = q.below(4) ? 0 : q.below(200);
                for (volatile int z = 0; z < pause; z = z + 1) {}
                if (par) for (int o = 0; o < of; ++o) if (o != me) { const char *x = now[o].load(std::memory_order_relaxed); if (x && pairs.size() < 400) pairs.push_back({al ? "algorithm" : "program", x}); }
                if (al) { --a; if (par) now[me].store("algorithm", std::memory_order_relaxed); auto x = run_alg(k, *G); act = x.name; log.push_back(x.hash()); if (par) now[me].store(x.name, std::memory_order_relaxed); }
                else { --s; if (par) now[me].store("program", std::memory_order_relaxed); p.step(); act = p.acts.back(); log.push_back(p.log.back()); if (par) now[me].store(act, std::memory_order_relaxed); }
                if (par && pairs.size()) pairs.back().first = act;
                acts.push_back(act);
            }
            log.push_back(p.whole()); acts.push_back("final state of every container");
        }
        catch (std::exception const &e) { err = e.what(); }
        if (par) now[me].store(nullptr, std::memory_order_relaxed);
        shared = p.sharedin;
    }
};
static void one(Rng &r, uint64_t)
{
    Idx n = Prog::dim(r); if (n > 12) n = 5; Rng rl(r.next()); Pool S(r, rl, n); AlgIn G(r, rl); int of = 2 + r.below(3); label("threads");
    std::vector<Job> jobs(of); for (auto &j : jobs) { j.seed = r.next(); j.steps = 8 + r.below(12); j.algs = r.below(6); j.S = &S; j.G = &G; j.n = n; }
    if (r.below(3) == 0) for (auto &j : jobs) j.seed = jobs[0].seed;          // everyone runs the same program: the same functions at the same time
    auto alone = jobs; for (auto &j : alone) j.go(0, 1, false);
    uint64_t h0 = 0; for (auto const &a : S.A) h0 = mix(h0 ^ hobs(*a)); for (auto const &u : S.U) h0 = mix(h0 ^ hobs(*u));
    ready.store(0); for (auto &x : now) x.store(nullptr);
    std::vector<std::thread> th; for (int k = 0; k < of; ++k) th.emplace_back([&, k] { jobs[k].go(k, of, true); }); for (auto &t : th) t.join();
    uint64_t h1 = 0, key = n; for (auto const &a : S.A) h1 = mix(h1 ^ hobs(*a)); for (auto const &u : S.U) h1 = mix(h1 ^ hobs(*u));
    if (h0 != h1) violation("shared input changed", "a shared read-only container changed");
    for (int k = 0; k < of; ++k)
    {
        auto &a = alone[k], &b = jobs[k];
        if (a.err != b.err) violation("exception|" + b.err, "alone: " + a.err);
        for (size_t c = 0; c < a.log.size() && c < b.log.size(); ++c) if (a.log[c] != b.log[c]) { violation("result differs from running alone|" + a.acts[c], fmt("thread %d of %d step %zu", k, of, c)); break; }
        if (a.log.size() != b.log.size()) violation("result differs from running alone|length", "");
        ctx().observations += b.log.size(); count("inputs shared between threads", b.shared); count("steps run in parallel", b.log.size());
        for (auto &q : b.pairs) { count("pairs of calls in flight together"); ctx().distinct.insert(mix(hstr(q.first) * 3 + hstr(q.second))); }
        for (auto x : b.log) key = mix(key ^ x);
        for (auto &x : b.acts) count(x);
    }
    seen(key, true); sample(fmt("%d threads, shared n=%lu: ", of, (unsigned long)n) + G.str());
}
int main(int argc, char **argv) { case_cpu() = 240; return drive(argc, argv, one); }
