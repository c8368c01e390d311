"""Which binaries each property's check builds and runs (counts of cases, not seconds)."""

class Shard:
    def __init__(self, src, plat, defs=None, quick=1000, thorough=None, san="asan", parts=1, leaks=False, weight=1, wall=700, objs=()):
        self.src, self.plat, self.defs, self.san = src, plat, dict(defs or {}), san
        self.quick, self.thorough = quick, thorough or quick * 20
        self.parts, self.leaks, self.weight, self.wall = parts, leaks, weight, wall
        self.objs = list(objs)
    def name(self):
        return "/".join([self.src, self.plat, self.san] + ["%s=%s" % kv for kv in sorted(self.defs.items())])

def grid(src, profiles, quick, plats=("seq", "opt"), **kw):
    return [Shard(src, p, dict(d), quick=quick, **kw) for d in profiles for p in plats]

def PR(*ks): return [{"PROFILE": k} for k in ks]

def grid8(src, quick, extra=None, **kw):
    """Eight binaries, one per core: four type profiles per platform, every profile on at least one."""
    return [Shard(src, p, dict(extra or {}, PROFILE=k), quick=quick, **kw) for p, ks in (("seq", (1, 2, 3, 5)), ("opt", (1, 2, 4, 5))) for k in ks]

CALLS = [("calls", {"GROUP": g}) for g in (1, 2, 3, 4, 5, 6)]
# rough compile seconds per unit, so that the longest start first
COST = {"callsG6": 30, "callsG5": 18, "assign": 30, "extract": 20}

ASSUME = ["oracle: dense reference model written from the GraphBLAS specification, independent of the library's algorithms",
          "generated values are exactly representable in every type involved, so no tolerance is used"]
CHECKS = {}
def check(prop, shards, rule, assumptions=ASSUME, **kw):
    CHECKS[prop] = dict(shards=shards, rule=rule, assumptions=list(assumptions), **kw)

check("P01", grid("mxm", PR(1, 2, 3, 4), 25000, parts=2),
      "random shapes, patterns, values, mask contents and configuration (transposes x mask kind x accumulate x replace x operators) per type profile; non-trivial = at least one product term was formed; distinct = distinct (configuration, patterns of C, A, B, mask)")
NT = "; distinct = distinct (configuration, sparsity patterns of all arguments)"
check("P02", grid8("mxv", 25000), "random mxv/vxm calls over shapes, patterns, values, configurations; non-trivial = at least one product term formed" + NT)
check("P03", grid8("ewise", 25000, dict(MULT=0)), "random eWiseAdd calls (vector, matrix); non-trivial = both inputs have entries" + NT)
check("P04", grid8("ewise", 25000, dict(MULT=1)), "random eWiseMult calls (vector, matrix); non-trivial = both inputs have entries" + NT)
check("P07", grid8("apply", 25000), "random apply calls (unary, bound first, bound second; vector, matrix); non-trivial = input has entries" + NT)
check("P08", grid8("reduce", 25000), "random reduce calls (rows, vector->scalar, matrix->scalar); non-trivial = entries folded, or a scalar reduce" + NT)
check("P09", grid8("transp", 25000), "random transpose calls; non-trivial = input has entries" + NT)
check("P10", grid8("kron", 15000), "random kronecker calls; non-trivial = at least one product" + NT)
check("P05", grid8("extract", 25000), "random extract calls (vector, matrix, column, row of transpose; list with repeats / range / all); non-trivial = at least one source entry gathered" + NT)
check("P06", grid8("assign", 25000), "random assign calls (vector, matrix, transposed matrix, row, column, scalar to vector, scalar to matrix; list in any order / range / all); every call addresses a non-empty region" + NT)
HR = "random histories of 4..31 calls over three containers (constructors, element access, build, resize, clear, copy, swap, comparison, rewriting operations), full state compared after every call; non-trivial = entries were stored; distinct = distinct sequences of (call, resulting pattern)"
check("P12", grid8("hist", 6000, dict(VEC=0)), HR)
check("P13", grid8("hist", 8000, dict(VEC=1)), HR)

check("P11", [Shard("masks", p, dict(PROFILE=k), quick=30000, objs=CALLS) for p, k in (("seq", 3), ("opt", 2), ("opt", 1))],
      "random call of any of the 25 masked operations run twice on identical arguments, masked and unmasked, and related position by position; non-trivial = the mask selects some and rejects some positions; distinct = distinct (configuration, patterns)")
check("P14", [Shard("errors", p, dict(PROFILE=k), quick=40000, objs=CALLS) for p, k in (("seq", 6), ("opt", 6), ("opt", 5))],
      "random call with exactly one argument made non-conforming (each dimension of each container, each index sequence, each line index) or none (control), and container methods with bad indices, lengths and sizes; non-trivial = a call that must be rejected; distinct = distinct (configuration, fault, patterns)")
check("P15", [Shard("alias", p, dict(PROFILE=k), quick=40000, objs=CALLS) for p, k in (("seq", 6), ("opt", 6), ("opt", 8))],
      "random call of any of the 25 masked operations with the output container passed again as any combination of inputs and mask (plain or transposed, any mask kind), or one container passed as two inputs, against the same call on separate copies; non-trivial = at least two roles share a container; distinct = distinct (configuration, aliasing, patterns)")

def alg(src, quick, ks=(1, 2, 3, 4), plats=("seq", "opt"), **kw):
    return [Shard(src, p, dict(PROFILE=k), quick=quick, **kw) for p in plats for k in ks]
ALG = ["oracle: textbook reference implementation on a plain adjacency array, written independently of the library"]
GD = "; non-trivial = the graph has structure to get wrong (edges reachable from the source etc.); distinct = distinct labelled graphs with sources/parameters"
check("P21", alg("bfs", 2500), "random graphs of 12 families with noise, loops, isolated vertices and random labels; every BFS variant from random sources, start sets and batches" + GD, ALG)
check("P22", alg("sssp", 2500), "random weighted digraphs (positive, non-negative, negative with and without negative cycles), random sources, batches and bucket widths" + GD, ALG + ["weights are multiples of 1/4, so sums are exact in every type"])
check("P23", alg("bc", 800), "random loop-free digraphs and undirected graphs with tied shortest paths; every betweenness variant on random source batches (repeats allowed); non-trivial = some vertex lies inside a shortest path; distinct = distinct (labelled graph, source list)", ALG + ["single-precision variants are compared within a bound proportional to n times the number of sources times 2e-6"])
check("P24", alg("tri", 2000), "random loop-free undirected graphs of 12 families; all seven triangle counts, both k-truss forms (k 3..6, incidence rows shuffled); non-trivial = has a triangle; distinct = distinct (labelled graph, k)", ALG)
check("P25", alg("mis", 1500), "random loop-free undirected graphs x three random seeds x both variants; non-trivial = has edges; distinct = distinct (labelled graph, seed)", ALG)
check("P26", alg("mst", 5000), "random symmetric weighted graphs (ties, negative and zero weights, loops), connected and not; non-trivial = at least two tree edges; distinct = distinct weighted labelled graphs", ALG)
check("P28", alg("pagerank", 2500), "random directed and undirected weighted graphs with dangling vertices, vertices without in-edges and loops, seven damping factors, thresholds down to 1e-23; residual, distance to the stationary vector, mass, presence of every vertex, exact iterates under max_iters; non-trivial = has edges and damping > 0; distinct = distinct (weighted labelled graph, damping)", ALG)
check("P27", alg("maxflow", 1500), "random directed and undirected capacity networks (unit, small, wide capacities, loops, edges into the source and out of the sink), plus networks climbed towards many augmenting paths; both algorithms; non-trivial = maximum flow is positive; distinct = distinct (network, source, sink)", ["oracle: independent Edmonds-Karp whose result is certified against its own minimum cut", "capacities are multiples of 1/4, so sums are exact in every type"])
check("P30", alg("metrics", 1500), "random weighted digraphs and undirected graphs with loops, two thirds made strongly connected; degrees of sampled vertices, distances from two roots, the distance matrix, eccentricity, farness, radius, diameter; non-trivial = at least two edges; distinct = distinct weighted labelled graphs", ALG)
check("P29", alg("cluster", 3000), "peer pressure (both forms) from identity and arbitrary starts under max_iters, against a vote simulation with exact dyadic votes; markov clustering against a dense simulation; louvain (plain, masked): partition, local optimality, repeatability; non-trivial = at least two edges; distinct = distinct (weighted labelled graph, parameters)", ALG + ["louvain runs that reach max_iters throw the iteration count by design and are counted, not judged"])
check("P18", [Shard("laws", "seq", dict(PROFILE=1), quick=30000), Shard("laws", "opt", dict(PROFILE=2), quick=30000), Shard("laws", "seq", dict(PROFILE=3), quick=15000), Shard("laws", "opt", dict(PROFILE=1), quick=600, thorough=30000)],
      "every predefined operator, monoid, semiring and adaptor on all pairs of 8-bit integers, on random and extreme values of all 11 scalar types, and on 14 mixed operand/result type combinations; signed overflow, division by zero and NaN operands excluded; non-trivial = an operand is non-zero; distinct = distinct (type, operands)",
      ["oracle: operator definitions evaluated in 128-bit integers or the declared floating type, written independently", "logical monoids are judged on truth values, as the library documents"])
check("P19", alg("util", 12000), "index ranges (also at extreme bounds), the same extract/assign written with a range, a list and AllIndices, transpose views tracking a changing matrix, diag, scaled_identity, split, normalize_rows/cols on square and rectangular inputs; non-trivial = entries present (or a non-empty range); distinct = distinct (kind, shape, pattern, parameters)",
      ["oracle: definitions on dense arrays", "normalisation is judged on lines whose sum is non-zero, within rounding"])
ALGS = [("algall", {"GROUP": g}) for g in (1, 2, 3, 4, 5)]
P16R = "random programs of 10..49 steps over a pool of 14 containers (all 27 operations with pool operands, container methods, printing, comparison, rejected calls, repeated indices, aliasing) and all 55 algorithm entry points; the sanitizers, memcheck, leak checker and watchdog decide; non-trivial = at least three calls accepted; distinct = distinct observation sequences"
check("P16", [Shard("safety", "seq", dict(PROFILE=6), quick=2500, san="asan", leaks=True, objs=CALLS + ALGS, parts=2),
              Shard("safety", "opt", dict(PROFILE=7), quick=2500, san="asan", leaks=True, objs=CALLS + ALGS, parts=2),
              Shard("safety", "seq", dict(PROFILE=9), quick=150, thorough=2500, san="vg", objs=CALLS + ALGS, parts=4),
              Shard("safety", "opt", dict(PROFILE=6), quick=150, thorough=2500, san="vg", objs=CALLS + ALGS, parts=4)], P16R,
      ["oracle: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, valgrind memcheck, CPU-time watchdog"])

P17R = "the same random programs (27 operations, container methods, comparisons, rejected calls, aliasing) and all 55 algorithm entry points on both platforms, observation by observation; each also re-run in process after unrelated calls with other insertion orders; non-trivial = at least three calls accepted; distinct = distinct observation sequences"
check("P17", [Shard("cross", p, dict(PROFILE=k), quick=12000, san="plain", objs=CALLS + ALGS, parts=2) for k in (6, 9) for p in ("seq", "opt")], P17R,
      ["oracle: the other platform, and the program's own second run", "operators are associative and commutative where order of evaluation is unspecified; floating-point centrality and ranks are compared within 1e-4, clustering on inexact votes only for repeatability"], post="cross")
P20R = "2 to 4 threads run random programs on their own containers with shared read-only inputs and masks, and all algorithms on shared graphs; compared with each program run alone; non-trivial = a parallel run completed; distinct = distinct parallel runs plus distinct pairs of calls observed in flight together"
check("P20", [Shard("threads", "seq", dict(PROFILE=6), quick=2500, san="tsan", objs=CALLS + ALGS, parts=3), Shard("threads", "opt", dict(PROFILE=9), quick=2500, san="tsan", objs=CALLS + ALGS, parts=3)], P20R,
      ["oracle: ThreadSanitizer's happens-before analysis of the executions, and each program's own run alone"])
