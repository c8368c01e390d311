#include "algall.hpp"
#ifndef GROUP
#error GROUP
#endif
#if GROUP == 1
#include <algorithms/bfs.hpp>
#include <algorithms/appendix_algorithms.hpp>
#elif GROUP == 2
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/mis.hpp>
#include <algorithms/triangle_count.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/appendix_algorithms.hpp>
#elif GROUP == 3
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
#elif GROUP == 4
#include <algorithms/maxflow.hpp>
#include <algorithms/page_rank.hpp>
#include <algorithms/metrics.hpp>
#else
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
#endif
namespace vh
{
#define RUN(nm) o.name = nm; 
#if GROUP == 1
void alg_group1(int k, AlgIn const &a, AlgOut &o)
{
    auto const &G = *a.Gb; Idx n = a.g.n; grb::Vector<Idx> x(n), w(n); w.setElement(a.s, 1); Idx B = a.src.size(); grb::Matrix<Idx> W(B, n), P(B, n);
    for (Idx b = 0; b < B; ++b) W.setElement(b, a.src[b], 1);
    switch (k)
    {
    case 0: RUN("bfs(source)") algorithms::bfs(G, a.s, x); o.add(x); break;
    case 1: RUN("bfs(wavefront)") algorithms::bfs(G, w, x); o.add(x); break;
    case 2: RUN("bfs_batch") algorithms::bfs_batch(G, W, P); o.add(P); break;
    case 3: RUN("bfs_level(source)") algorithms::bfs_level(G, a.s, x); o.add(x); break;
    case 4: RUN("bfs_level(batch)") algorithms::bfs_level(G, W, P); o.add(P); break;
    case 5: RUN("bfs_level_masked") algorithms::bfs_level_masked(G, w, x); o.add(x); break;
    case 6: RUN("batch_bfs_level_masked") algorithms::batch_bfs_level_masked(G, W, P); o.add(P); break;
    case 7: { RUN("bfs_level_masked_v2") grb::Vector<bool> wb(n); wb.setElement(a.s, true); algorithms::bfs_level_masked_v2(G, wb, x); o.add(x); break; }
    case 8: RUN("bfs_level_appendixB1") algorithms::bfs_level_appendixB1(x, G, a.s); o.add(x); break;
    case 9: RUN("bfs_level_appendixB2") algorithms::bfs_level_appendixB2(x, G, a.s); o.add(x); break;
    default: RUN("bfs_parent_appendixB3") algorithms::bfs_parent_appendixB3(x, G, a.s); o.add(x); break;
    }
}
#elif GROUP == 2
void alg_group2(int k, AlgIn const &a, AlgOut &o)
{
    Idx n = a.g.n; grb::Vector<double> d(n); d.setElement(a.s, 0); Idx m = a.u.n;
    switch (k)
    {
    case 0: RUN("sssp") o.add((double)algorithms::sssp(*a.Gd, d)); o.add(d); break;
    case 1: RUN("filtered_sssp") o.add((double)algorithms::filtered_sssp(*a.Gd, d)); o.add(d); break;
    case 2: { RUN("batch_sssp") grb::Matrix<double> D(a.src.size(), n); for (Idx b = 0; b < a.src.size(); ++b) D.setElement(b, a.src[b], 0); o.add((double)algorithms::batch_sssp(*a.Gd, D)); o.add(D); break; }
    case 3: { RUN("sssp_delta_step") grb::Vector<double> x(n); algorithms::sssp_delta_step(*a.Gd, (double)a.k, a.s, x); o.add(x); break; }
    case 4: RUN("apsp") o.add(algorithms::apsp(*a.Gd)); break;
    case 5: { RUN("mst") grb::Vector<Idx> p(m); o.add((double)algorithms::mst(*a.Ud, p)); o.add(p); break; }
    case 6: { RUN("mis") grb::Vector<bool> s(m); algorithms::mis(*a.Ue, s, a.seed); o.add(s); o.add(algorithms::get_vertex_IDs(s)); break; }
    case 7: { RUN("mis_appendixB6") grb::Vector<bool> s(m); algorithms::mis_appendixB6(s, *a.Ue, a.seed); o.add(s); break; }
    case 8: RUN("triangle_count") o.add((double)algorithms::triangle_count(*a.Ue)); break;
    case 9: RUN("triangle_count_masked(L,U)") o.add((double)algorithms::triangle_count_masked(*a.L, *a.Up)); break;
    case 10: RUN("triangle_count_masked(L)") o.add((double)algorithms::triangle_count_masked(*a.L)); break;
    case 11: RUN("triangle_count_masked_noT") o.add((double)algorithms::triangle_count_masked_noT(*a.L)); break;
    case 12: RUN("triangle_count_newGBTL") o.add((double)algorithms::triangle_count_newGBTL(*a.L, *a.Up)); break;
    case 13: RUN("triangle_count_newGBTL(U',U)") o.add((double)algorithms::triangle_count_newGBTL(grb::transpose(*a.Up), *a.Up)); break;
    case 14: RUN("triangle_count_appendixB7") o.add((double)algorithms::triangle_count_appendixB7(*a.L)); break;
    case 15: RUN("k_truss2") o.add(algorithms::k_truss2(*a.Ue, a.k)); break;
    default: RUN("k_truss") o.add(algorithms::k_truss(*a.E, a.k)); break;
    }
}
#elif GROUP == 3
void alg_group3(int k, AlgIn const &a, AlgOut &o)
{
    auto const &G = *a.Gu; Idx n = a.g.n; grb::Vector<float> b(n); o.cls = APPROX;
    switch (k)
    {
    case 0: RUN("bc_batch") o.add(algorithms::vertex_betweenness_centrality_batch(G, a.src)); break;
    case 1: RUN("bc_batch_alt") o.add(algorithms::vertex_betweenness_centrality_batch_alt(G, a.src)); break;
    case 2: RUN("bc_batch_alt_trans") o.add(algorithms::vertex_betweenness_centrality_batch_alt_trans(G, a.src)); break;
    case 3: RUN("bc_batch_alt_trans_v2") o.add(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(G, a.src)); break;
    case 4: RUN("bc_batch_old") o.add(algorithms::vertex_betweenness_centrality_batch_old(G, a.src)); break;
    case 5: RUN("vertex_betweenness_centrality") o.add(algorithms::vertex_betweenness_centrality(G)); break;
    case 6: RUN("edge_betweenness_centrality") o.add(algorithms::edge_betweenness_centrality(G)); break;
    case 7: RUN("BC_appendixB4") algorithms::BC_appendixB4(b, G, a.s); o.add(b); break;
    default: RUN("BC_update_appendixB5") algorithms::BC_update_appendixB5(b, G, a.src); o.add(b); break;
    }
}
#elif GROUP == 4
void alg_group4(int k, AlgIn const &a, AlgOut &o)
{
    auto const &G = *a.Gd; Idx n = a.g.n; grb::Vector<double> x(n);
    switch (k)
    {
    case 0: RUN("maxflow_push_relabel") o.add(algorithms::maxflow_push_relabel(G, a.s, a.t)); break;
    case 1: RUN("maxflow_ford_fulk") o.add(algorithms::maxflow_ford_fulk(G, a.s, a.t)); break;
    case 2: RUN("page_rank") o.cls = APPROX; algorithms::page_rank(G, x, 0.85, 1e-14); o.add(x); break;
    case 3: RUN("vertex_in_degree") o.add(algorithms::vertex_in_degree(G, a.s)); break;
    case 4: RUN("vertex_out_degree") o.add(algorithms::vertex_out_degree(G, a.s)); break;
    case 5: RUN("vertex_degree") o.add(algorithms::vertex_degree(G, a.s)); break;
    case 6: RUN("graph_distance") algorithms::graph_distance(G, a.s, x); o.add(x); break;
    case 7: { RUN("graph_distance_matrix") grb::Matrix<double> D(n, n); algorithms::graph_distance_matrix(G, D); o.add(D); break; }
    case 8: RUN("vertex_eccentricity") o.add(algorithms::vertex_eccentricity(G, a.s)); break;
    case 9: RUN("graph_radius") o.add(algorithms::graph_radius(G)); break;
    case 10: RUN("graph_diameter") o.add(algorithms::graph_diameter(G)); break;
    default: RUN("closeness_centrality") o.add(algorithms::closeness_centrality(G, a.s)); break;
    }
}
#else
void alg_group5(int k, AlgIn const &a, AlgOut &o)
{
    o.cls = LOCAL;
    switch (k)
    {
    case 0: RUN("peer_pressure_cluster") o.add(algorithms::peer_pressure_cluster(*a.Gd, 12u)); break;
    case 1: { RUN("peer_pressure_cluster_v2") grb::Matrix<bool> C(a.g.n, a.g.n); for (Idx i = 0; i < a.g.n; ++i) C.setElement(i, i, true); algorithms::peer_pressure_cluster_v2(*a.Gd, C, 12u); o.add(C); break; }
    case 2: RUN("markov_cluster") o.add(algorithms::markov_cluster(*a.Ud, 2u, 2u, 1e-12, 6u)); break;
    case 3: RUN("get_cluster_assignments") { auto C = algorithms::peer_pressure_cluster(*a.Ud, 4u); o.add(algorithms::get_cluster_assignments(C)); o.add(algorithms::get_cluster_assignments_v2(C)); } break;
    case 4: RUN("louvain_cluster") try { auto S = algorithms::louvain_cluster(*a.Ud, a.seed, 40u); o.add(S); o.add(algorithms::get_louvain_cluster_assignments(S)); } catch (unsigned x) { o.add((double)x); } break;
    default: RUN("louvain_cluster_masked") try { o.add(algorithms::louvain_cluster_masked(*a.Ud, a.seed, 40u)); } catch (unsigned x) { o.add((double)x); } break;
    }
}
#endif
} // namespace vh
