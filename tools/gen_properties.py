#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
G = "src/graphblas/"
PL = [G + "platforms/sequential/", G + "platforms/optimized_sequential/"]
def both(f): return [p + f for p in PL]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HELP = both("sparse_helpers.hpp"); MATVEC = both("LilSparseMatrix.hpp") + both("BitmapSparseVector.hpp")
WB = ("accumulate step then masked write-back", "sparse_helpers.hpp: ewise_or_opt_accum(_1D), write_with_opt_mask(_1D)")
FRONT = G + "operations.hpp"

prop("P01", "Matrix-matrix multiply computes the semiring product for every call form",
 "For every pair of conforming input matrices, each optionally transposed, every semiring, mask kind (none, value, structural, and their complements), accumulator choice and replace/merge setting, the multiply stores exactly the entry set and values defined by the GraphBLAS specification: at (i,j) the semiring sum over the shared inner positions of mult(A entry, B entry), with operands in that order and intermediates in the semiring's own types, then accumulated and written back under the mask. Positions with no shared inner index produce no entry, and a computed zero is still a stored entry.",
 ["inputs", "configurations"], "All shapes, sparsity patterns and values of C, A, B and mask; all semirings including non-commutative multiplies and mixed scalar types; 4 transpose forms x 5 mask kinds x accumulate x replace, on both platforms.",
 "The tests fix a handful of small matrices and mostly symmetric operators on one scalar type; the space of shape x pattern x mask x transpose x type combinations is unbounded, and the optimised platform has a separate kernel per combination.",
 both("sparse_mxm.hpp") + [PL[1] + f"sparse_mxm_{k}.hpp" for k in ("AB", "ABT", "ATB", "ATBT")] + HELP + [FRONT],
 [("row-wise axpy / dot kernels", "sparse_helpers.hpp: axpy, dot, masked_axpy"), ("per-transpose, per-mask kernels", "optimized_sequential/sparse_mxm_*.hpp"), WB])

prop("P02", "Matrix-vector and vector-matrix multiply compute the semiring product",
 "For every matrix (optionally transposed), vector, semiring, mask kind, accumulator choice and replace/merge setting, both products store exactly the specified result: each output position is the semiring sum over shared inner positions of mult(left operand entry, right operand entry), in the order the operands are written, absent where nothing is shared. The two forms agree with each other and with the matrix-matrix product on one-column or one-row matrices.",
 ["inputs", "configurations"], "All shapes, patterns, values, semirings (non-commutative, mixed scalar types), masks, accumulators, both platforms.",
 "Tests use a few 3x3/4x3 examples with commutative multiplies; operand order, intermediate type and empty-row paths are input dependent.",
 both("sparse_mxv.hpp") + both("sparse_vxm.hpp") + HELP + [FRONT],
 [("row dot products", "sparse_mxv.hpp / sparse_vxm.hpp: dot"), ("axpy accumulation", "sparse_helpers.hpp: axpy"), WB])

prop("P03", "Element-wise addition is the union with the operator on the intersection",
 "For every pair of same-size vectors or matrices (matrices optionally transposed), the element-wise addition contains an entry exactly where at least one input does: op(left, right) in that order where both are stored, otherwise the stored input value unchanged up to the conversion to the output type. The result is then accumulated and written back under the mask and replace/merge setting.",
 ["inputs", "configurations"], "All shapes, patterns, values, scalar-type mixes, operators, masks, accumulators, transposes, both platforms.",
 "Tests sample a few fixed patterns with equal scalar types; which of the merge branches runs depends on the relative position of the entries in each row.",
 both("sparse_ewiseadd.hpp") + HELP + [FRONT], [("ordered merge of two index lists", "sparse_helpers.hpp: ewise_or"), WB])

prop("P04", "Element-wise multiplication is the intersection of the two inputs",
 "For every pair of same-size vectors or matrices (matrices optionally transposed), the element-wise multiplication contains an entry exactly where both inputs do, with value op(left, right) in that order computed in the operator's own types. The result is then accumulated and written back under the mask and replace/merge setting.",
 ["inputs", "configurations"], "All shapes, patterns, values, scalar-type mixes, operators, masks, accumulators, transposes, both platforms.",
 "Tests sample a few fixed patterns with equal scalar types; which merge branch runs depends on the relative position of the entries in each row.",
 both("sparse_ewisemult.hpp") + HELP + [FRONT], [("ordered intersection of two index lists", "sparse_helpers.hpp: ewise_and"), WB])

prop("P05", "Extract gathers exactly the requested positions",
 "For every source vector or matrix (optionally transposed) and every index sequence (lists in any order with repeats, ranges, or all indices), extract yields at output position k exactly the source entry at the k-th requested index, or no entry if there is none; the column variant does the same for one column, or one row of a transposed source. The result is then accumulated and written back under the mask and replace/merge setting.",
 ["inputs", "configurations"], "All sources, index sequences (permuted, repeated, ranges, all), masks, accumulators, vector/matrix/column/row forms, both platforms.",
 "Tests use a few sorted index lists; repeated, unsorted and range sequences and their combination with masks are unbounded.",
 both("sparse_extract.hpp") + HELP + [FRONT, G + "indices.hpp"], [("indexed gather", "sparse_extract.hpp: vectorExtract, matrixExtract, extractColumn"), ("index sequences", "indices.hpp"), WB])

prop("P06", "Assign writes exactly the addressed region and nothing else",
 "For every destination and every duplicate-free index sequence (in any order, ranges, or all indices), assigning a vector, matrix, row, column or scalar replaces the addressed region by the source (source entry stored, source hole deletes, scalar stored everywhere in the region), or combines it with the accumulator and then deletes nothing; every position outside the region keeps its previous content subject only to the mask and replace setting. For row and column assignment the mask and replace setting govern only that row or column.",
 ["inputs", "configurations"], "All destinations, sources, index sequences in any order, masks, accumulators, all seven assign forms, both platforms.",
 "Tests use a few sorted index lists on small fixtures; hole-deletes-entry, region boundaries and unsorted lists are pattern dependent.",
 both("sparse_assign.hpp") + HELP + [FRONT, G + "indices.hpp"], [("region expansion", "sparse_assign.hpp: assign, assign_constant, *_expand"), ("region-aware accumulate", "sparse_helpers.hpp: ewise_or_stencil*"), WB])

prop("P07", "Apply maps every stored entry and only stored entries",
 "For every input vector or matrix (optionally transposed), apply produces an entry exactly where the input has one, with value op(entry) for a unary operator, op(constant, entry) when the constant is given first and op(entry, constant) when it is given second, computed in the operator's own types. The result is then accumulated and written back under the mask and replace/merge setting.",
 ["inputs", "configurations"], "All inputs, operators (order revealing, type changing), bound constants, masks, accumulators, transposes, both platforms.",
 "Tests sample a few operators and fixtures; operand order, transposed inputs and mixed types are combinatorial.",
 both("sparse_apply.hpp") + HELP + [FRONT], [("element-wise map", "sparse_apply.hpp: apply, apply_binop_1st, apply_binop_2nd"), WB])

prop("P08", "Reduce folds exactly the stored entries",
 "Reducing a matrix (optionally transposed) to a vector yields, for each non-empty row, the fold of exactly that row's stored values under a commutative associative operator, and no entry for an empty row, followed by the accumulate and masked write-back. Reducing a vector or matrix to a scalar yields the monoid fold of all stored values (the identity when there are none), replacing the scalar or combined with it by the accumulator as accum(old, fold).",
 ["inputs", "configurations"], "All inputs, monoids/operators, masks, accumulators, transposes, three reduce forms, both platforms.",
 "Tests use a few small fixtures; empty rows, single-entry rows, explicit zeros and accumulator order are pattern dependent.",
 both("sparse_reduce.hpp") + HELP + [FRONT], [("row fold", "sparse_helpers.hpp: reduction"), ("scalar folds", "sparse_reduce.hpp"), WB])

prop("P09", "Transpose moves every entry (i,j) to (j,i) under the write-back rules",
 "The transpose operation yields an entry at (j,i) exactly where the input has one at (i,j), with the same value, for rectangular and square matrices alike; applied to an already transposed input it copies the matrix. The result is then accumulated and written back under the mask and replace/merge setting, and transposing twice restores the input.",
 ["inputs", "configurations"], "All shapes, patterns, values, masks, accumulators, both input forms, both platforms.",
 "Tests use a handful of fixtures; rectangular shapes, empty rows/columns and mask combinations are unbounded.",
 both("sparse_transpose.hpp") + HELP + [FRONT], [("transpose copy", "sparse_transpose.hpp"), WB])

prop("P10", "Kronecker product places op(A(i,j),B(k,l)) at the block position",
 "For every pair of matrices, each optionally transposed, the Kronecker product holds an entry exactly at (i*rows(B)+k, j*cols(B)+l) for each stored A(i,j) and stored B(k,l), with value op(A(i,j), B(k,l)) in that order computed in the operator's own types. The result is then accumulated and written back under the mask and replace/merge setting.",
 ["inputs", "configurations"], "All shapes, patterns, values, operators, transposes, masks, accumulators, both platforms.",
 "Tests use a few small fixtures; operand order, rectangular blocks and the four transpose forms with masks are combinatorial.",
 both("sparse_kronecker.hpp") + HELP + [FRONT], [("block expansion", "sparse_kronecker.hpp: kronecker (4 transpose forms)"), WB])

prop("P11", "One write-back rule governs mask, accumulator and replace in every operation",
 "For every operation that takes a mask, positions the mask does not select keep their old output content under merge and become empty under replace, and positions it selects receive exactly what the same unmasked operation would have left there. A value mask selects stored entries that convert to true, a structural mask selects stored entries whatever their value, and complementing either selects precisely the other positions, whatever the mask's scalar type and whether or not it stores explicit false values.",
 ["inputs", "configurations"], "All operations x mask kinds x mask scalar types x accumulate x replace x output/mask/input contents, both platforms.",
 "Each test pins one combination; the rule is a relation between runs of the same operation, over every mask content and every operation.",
 [FRONT] + HELP + [G + f for f in ("ComplementView.hpp", "StructureView.hpp", "StructuralComplementView.hpp")] + both("sparse_assign.hpp") + [PL[1] + "sparse_mxm.hpp"],
 [("mask evaluation", "sparse_helpers.hpp: check_mask, get_structure_row, get_complement_row, apply_with_mask"), ("mask views", "ComplementView.hpp, StructureView.hpp, StructuralComplementView.hpp"), WB])

prop("P12", "A matrix behaves as a map from positions to values through any history of calls",
 "After any sequence of construction, build, set, remove, clear, resize, swap-by-copy, assignment, comparison and extraction calls on a matrix, its dimensions, entry count, membership, element values and extracted tuples all equal those of a simple map from (row, column) to value replaying the same history, and no position is reported twice. Duplicate positions given to build are combined by the duplicate operator in the order supplied, and two matrices compare equal exactly when their dimensions, stored positions and values are equal.",
 ["histories", "inputs"], "All finite histories of matrix method calls with any valid arguments, all scalar types, both platforms.",
 "Unit tests run a few short fixed histories; bookkeeping such as the cached entry count can drift only along particular sequences.",
 [G + "Matrix.hpp"] + both("LilSparseMatrix.hpp") + both("Matrix.hpp"), [("sorted row lists with cached count", "LilSparseMatrix.hpp")],
 [("stored rows", "sorted (column,value) lists per row", "LilSparseMatrix.hpp: m_data"), ("entry count", "must equal the number of stored entries", "LilSparseMatrix.hpp: m_nvals")])

prop("P13", "A vector behaves as a map from indices to values through any history of calls",
 "After any sequence of construction (empty, dense fill, from values with an absent marker), build, set, remove, clear, resize, assignment, comparison and extraction calls on a vector, its size, entry count, membership, element values and extracted tuples all equal those of a simple map from index to value replaying the same history. Duplicate indices given to build are combined by the duplicate operator in the order supplied and counted once, and two vectors compare equal exactly when size, stored positions and values are equal.",
 ["histories", "inputs"], "All finite histories of vector method calls with any valid arguments, all scalar types, both platforms.",
 "Unit tests run a few short fixed histories; the cached entry count and the presence bitmap can drift apart only along particular sequences.",
 [G + "Vector.hpp"] + both("BitmapSparseVector.hpp") + both("Vector.hpp"), [("bitmap plus value array with cached count", "BitmapSparseVector.hpp")],
 [("presence bitmap", "which indices are stored", "BitmapSparseVector.hpp: m_bitmap"), ("entry count", "must equal the number of set bits", "BitmapSparseVector.hpp: m_nvals")])

prop("P14", "Invalid calls are rejected with the documented error and change nothing",
 "Every operation called with non-conforming dimensions or an out-of-range index, and every container method called with an out-of-range index, mismatched lengths or a missing element, throws the library exception type for that error class (dimension, invalid index, index out of bounds, no value, invalid value), and conforming calls never throw. After such a throw from an operation the output container is exactly as it was before the call.",
 ["inputs", "configurations"], "All operations and methods x all kinds of single-argument non-conformance x container contents, masks and index sequences, both platforms.",
 "Tests probe one bad argument per operation; each operation has several checks per call form, and 'output unchanged' must hold whatever it contained.",
 [FRONT, G + "detail/checks.hpp", G + "exceptions.hpp"] + MATVEC + both("sparse_assign.hpp") + both("sparse_extract.hpp"),
 [("front-end dimension checks", "detail/checks.hpp"), ("index-content checks", "sparse_helpers.hpp: check_index_array_content"), ("exception classes", "exceptions.hpp")])

prop("P15", "Operations never modify inputs and tolerate the output also being an input or mask",
 "Every operation leaves every input and mask container it does not also write exactly as it was. When the output container is also passed as one or more of the inputs or as the mask, the result is exactly what the same call gives with separate copies of those arguments.",
 ["inputs", "configurations"], "All operations x every way of passing the output again as input and/or mask (plain, transposed, complemented, structural) x contents, both platforms.",
 "Tests alias in only a few operations; whether an early write corrupts a later read depends on pattern, mask and kernel.",
 [FRONT] + HELP + both("sparse_mxm.hpp") + both("sparse_assign.hpp") + both("sparse_apply.hpp") + both("sparse_transpose.hpp"),
 [("temporary results before write-back", "platforms/*/sparse_*.hpp"), ("explicit aliasing tests in optimised kernels", "optimized_sequential/sparse_mxm_*.hpp")])

prop("P16", "No call sequence corrupts memory, leaks or executes undefined behaviour",
 "No sequence of public calls with in-contract or rejectable arguments, on containers or views of any size, reads or writes outside owned memory, reads uninitialised values, uses freed memory, leaks, or executes undefined behaviour; this includes error paths and reading the message of a caught exception. The same holds while running each of the provided graph algorithms on valid graphs, and no call on valid input fails to terminate.",
 ["inputs", "histories", "programs"], "All programs over the public interface, including rejected calls, exception messages, printing, comparison and all algorithms, both platforms.",
 "The test suite is not built with any sanitizer, and a stray read or dangling message leaves its assertions satisfied.",
 ["src/graphblas", "src/algorithms"], [("bounds checks before access", "LilSparseMatrix.hpp, BitmapSparseVector.hpp"), ("index-content checks", "sparse_helpers.hpp: check_index_array_content"), ("exception messages", "exceptions.hpp")])

prop("P17", "Both backend platforms give identical results, and results are repeatable",
 "Any program over the public interface observes the same values, stored positions, entry counts and exception types on the sequential and the optimised platform. Re-running the same program on the same platform observes the same results, independently of earlier unrelated calls and of the order in which a container's entries were inserted.",
 ["programs", "inputs", "configurations"], "All programs over operations and containers; scalar types exact under reordering.",
 "The suite is built once per platform against expected values; it never compares the platforms on generated programs.",
 ["src/graphblas/platforms/sequential", "src/graphblas/platforms/optimized_sequential"], [("platform selection", "platforms/*/backend_include.hpp"), ("duplicate implementations of every operation", "platforms/*/sparse_*.hpp")])

prop("P18", "Predefined operators, monoids and semirings satisfy their definitions and laws",
 "For every scalar type, each predefined unary and binary operator returns its mathematical definition with operands in the given order and the declared conversions. Each monoid's identity is neutral on both sides and its operation commutative and associative for all values, and each semiring's addition, multiplication and zero are those its name states, also when adapted to a binary operator or monoid.",
 ["inputs"], "All operand values (including extremes, infinities and mixed types) of all predefined operators, monoids, semirings and adaptors.",
 "Tests evaluate a few values per operator in one or two types; neutrality and associativity are laws over every value of every type.",
 [G + "algebra.hpp"], [("operator functors", "algebra.hpp: Unary/Binary operators"), ("monoid and semiring generators", "algebra.hpp: GEN_GRAPHBLAS_MONOID, GEN_GRAPHBLAS_SEMIRING")])

prop("P19", "Index ranges, transpose views and matrix utilities mean what they say",
 "An index range denotes exactly begin..end-1 and the all-indices marker every index, wherever an index list is accepted; a transpose view shows the same entries with swapped coordinates and tracks the underlying matrix. Building a diagonal or scaled identity, splitting into lower (with diagonal) and upper triangles, and normalising rows or columns produce exactly the defined matrices for every input, including rectangular ones, with each non-empty line of a normalised matrix summing to one.",
 ["inputs", "configurations"], "All ranges, matrices and vectors passed to index sequences, views and utilities, both platforms.",
 "Tests check one or two square examples of each.",
 [G + "indices.hpp", G + "matrix_utils.hpp", G + "TransposeView.hpp"], [("sequence classes", "indices.hpp"), ("utilities", "matrix_utils.hpp: diag, scaled_identity, split, normalize_rows, normalize_cols"), ("transpose view", "TransposeView.hpp")])

prop("P20", "Independent use from several threads is race-free and gives sequential results",
 "Threads that operate on disjoint output objects, sharing at most read-only inputs and masks, never race and each obtain exactly the result the same call sequence gives when run alone. This covers all operations, container reads and the provided algorithms.",
 ["schedules", "programs"], "All interleavings of threads running operations/algorithms on disjoint outputs with shared const inputs.",
 "All tests are single threaded; a hidden static buffer or a cache updated in a const method only shows under particular interleavings.",
 ["src/graphblas", "src/algorithms"], [("no shared mutable state; const reads", "platforms/*/sparse_*.hpp, LilSparseMatrix.hpp, BitmapSparseVector.hpp")])

A = "src/algorithms/"
prop("P21", "Breadth-first search finds exactly the reachable vertices at their true levels",
 "On every directed graph and every start set, each level-BFS variant labels exactly the vertices reachable from the source with one plus their shortest hop distance, and each parent-BFS variant gives exactly those vertices a parent that is a real in-neighbour one level nearer the source, the source being its own parent. The batched, masked and appendix variants agree with the single-source one for every source.",
 ["inputs"], "All directed graphs (self-loops, disconnected, isolated sources), all sources and source batches, all variants, both platforms.",
 "Tests run a few small fixed graphs; correctness depends on graph shape and depth.",
 [A + "bfs.hpp", A + "appendix_algorithms.hpp"], [("masked frontier expansion", "bfs.hpp"), ("appendix versions", "appendix_algorithms.hpp: bfs_*_appendixB1..B3")])

prop("P22", "Shortest-path algorithms return exact distances or report a negative cycle",
 "On every weighted directed graph without negative cycles, single-source, batched, filtered and all-pairs shortest path return exactly the minimum path weight for every reachable vertex (zero for the source itself) and nothing for unreachable ones; delta-stepping does so for all positive weights and every positive bucket width. The single-source variants that report success return false exactly when a negative cycle is reachable from a source.",
 ["inputs"], "All weighted digraphs (negative weights, self-loops, disconnected), sources, bucket widths, both platforms.",
 "Tests run a few graphs with fixed weights and one or two bucket widths.",
 [A + "sssp.hpp", A + "apsp.hpp"], [("min-plus relaxation", "sssp.hpp"), ("bucketed relaxation", "sssp.hpp: sssp_delta_step"), ("Floyd-Warshall", "apsp.hpp")])

prop("P23", "Betweenness centrality equals the count over all shortest paths",
 "On every loop-free unweighted directed graph, each vertex-betweenness variant returns for each vertex the sum over the given sources (all vertices for the exact variant) and targets of the fraction of shortest paths passing strictly through it, up to rounding. The edge variant returns for each edge the number of shortest paths over all ordered vertex pairs that use it.",
 ["inputs"], "All loop-free digraphs within the documented depth limits, all source batches, all variants, both platforms.",
 "Tests compare a few graphs; path counting errors need particular diamonds, depths or batch sizes.",
 [A + "bc.hpp", A + "appendix_algorithms.hpp"], [("forward path counting, backward accumulation", "bc.hpp"), ("appendix versions", "appendix_algorithms.hpp: BC_appendixB4, BC_update_appendixB5")])

prop("P24", "Triangle counting and k-truss are exact",
 "On every loop-free undirected graph all triangle-counting variants return the number of triangles. The k-truss variants return the unique maximal subgraph in which every edge lies in at least k-2 triangles of that subgraph.",
 ["inputs"], "All loop-free undirected graphs, all k >= 3, adjacency and incidence forms, both platforms.",
 "Tests use a few fixed graphs; k-truss peeling depth depends on the graph.",
 [A + "triangle_count.hpp", A + "k_truss.hpp", A + "appendix_algorithms.hpp"], [("masked triangular products", "triangle_count.hpp"), ("iterated support peeling", "k_truss.hpp")])

prop("P25", "The independent set returned is independent and maximal",
 "On every loop-free undirected graph and for every random seed, the computed vertex set contains no two adjacent vertices, every vertex outside it is adjacent to a member, and every isolated vertex is a member. The reported vertex list names exactly the members.",
 ["inputs"], "All loop-free undirected graphs and seeds, both variants, both platforms.",
 "Randomised algorithm: the suite samples one seed on a few graphs.",
 [A + "mis.hpp", A + "appendix_algorithms.hpp"], [("Luby rounds", "mis.hpp, appendix_algorithms.hpp: mis_appendixB6")])

prop("P26", "The minimum spanning tree is a spanning tree of minimum weight",
 "On every connected undirected weighted graph the parent list returned describes a spanning tree rooted at the start vertex using only real edges, whose total weight equals both the returned weight and the minimum over all spanning trees. A disconnected graph is reported as an error.",
 ["inputs"], "All symmetric weighted graphs, connected or not, with ties and negative weights, both platforms.",
 "Tests use one or two fixed graphs; ties, negative weights and re-parenting are graph dependent.",
 [A + "mst.hpp"], [("Prim selection", "mst.hpp")])

prop("P27", "Maximum flow returns the maximum flow value",
 "On every directed capacitated network and every distinct source and sink, both maximum-flow algorithms return the value of a maximum flow, equal to the minimum cut. A sink unreachable from the source gives zero.",
 ["inputs"], "All networks with positive capacities (antiparallel edges, cycles, zero-flow sinks), all source/sink pairs, both platforms.",
 "Tests use a few textbook networks; push/relabel and augmentation orders depend on the network.",
 [A + "maxflow.hpp"], [("push/relabel/discharge", "maxflow.hpp: maxflow_push_relabel"), ("augmenting paths", "maxflow.hpp: maxflow_ford_fulk")])

prop("P28", "PageRank converges to the PageRank fixed point",
 "On every directed graph and for every damping factor below one, the returned ranks satisfy, within the tolerance implied by the stopping threshold, rank(v) = (1-d)/n + d * sum over in-neighbours u of rank(u) * weight share of edge (u,v), for every vertex including those without in-edges. Every vertex receives a rank of at least (1-d)/n.",
 ["inputs"], "All directed graphs with positive weights (sources, sinks, isolated vertices), damping factors and thresholds, both platforms.",
 "Tests compare a few graphs whose vertices all have in-edges.",
 [A + "page_rank.hpp"], [("damped power iteration", "page_rank.hpp"), ("row normalisation", "src/graphblas/matrix_utils.hpp: normalize_rows")])

prop("P29", "Clusterings follow their method and end where it says they do",
 "Peer-pressure clustering returns what simultaneous voting gives from the initial clusters (each vertex joins the cluster with the largest vote weight among its in-neighbours, ties to the highest cluster number, no votes no cluster), stopping at a vote-stable assignment or the iteration limit; Markov clustering returns what repeated expansion along existing entries, inflation and column normalisation give. Modularity clustering of a symmetric graph puts every vertex in exactly one cluster, leaves isolated vertices alone, ends where no single vertex gains modularity by moving to another (masked form: neighbouring) cluster, and depends only on the graph and the seed; cluster-assignment helpers read any such result correctly.",
 ["inputs"], "All weighted graphs (symmetric for modularity clustering; loops, isolated vertices, disconnected), iteration limits, initial clusterings and seeds, plain and masked variants, both platforms.",
 "Tests compare a few graphs against stored assignments.",
 [A + "cluster.hpp", A + "cluster_louvain.hpp"], [("vote tally", "cluster.hpp: peer_pressure_cluster*"), ("expansion/inflation", "cluster.hpp: markov_cluster"), ("local moving", "cluster_louvain.hpp")])

prop("P30", "Graph metrics equal their definitions",
 "On every graph the in-degree, out-degree and degree of a vertex equal the counts of stored edges entering it, leaving it and both, and distances from a vertex and the distance matrix equal shortest-path distances with unreachable vertices absent. On strongly connected graphs eccentricity is the largest distance from a vertex, radius and diameter are the smallest and largest eccentricity, and closeness returns the sum of distances from the vertex.",
 ["inputs"], "All digraphs (loops included) for degrees and distances; all strongly connected positively weighted digraphs for the rest, both platforms.",
 "Tests evaluate two small graphs.",
 [A + "metrics.hpp", A + "sssp.hpp"], [("degree/distance queries", "metrics.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
