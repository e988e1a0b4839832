#include "ring.h"
#include "large.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/sat2.h"
using namespace altruct::graph;
// every directed graph on N nodes at once: edge (u, v) is present iff the unknown boolean u * N + v holds
#ifdef VF_LARGE // every second instance is acyclic
#define E_(N, u, v) ((vf_inst % 2 || ((u) * 5 + vf_inst) % 7 < ((v) * 5 + vf_inst) % 7) && bool_sym((u) * N + (v)))
#else
#define E_(N, u, v) bool_sym((u) * N + (v))
#endif
template<int N> INL void reach(bool (&r)[N][N]) { for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] = r[i][j] || (r[i][k] && r[k][j]); }
#define GRAPH(N) graph<edge> g(N); bool r[N][N], d[N][N]; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { bool e = u != v && E_(N, u, v); r[u][v] = d[u][v] = e; if (e) g.add_edge(u, v); } reach<N>(r);
// every directed acyclic graph: edges of the order given by a permutation of the nodes (all permutations)
#define DAG(N) GRAPH(N) for (int u = 0; u < N; u++) vf_assume(!r[u][u]);
#define T1(N) W(closure_##N) { GRAPH(N) auto c = transitive_closure(g); vf_true("size", c.size() == N); for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if (u != v) { int n = 0; for (auto& e : c[u]) n += e.v == v; vf_true("closure edge iff path", n == (r[u][v] ? 1 : 0)); } }
#define T2(N) W(scc_##N) { GRAPH(N) auto c = tarjan_scc(g); int comp[N]; for (int u = 0; u < N; u++) comp[u] = -1; int i = 0; for (auto& s : c) { for (int v : s) { for (int u = 0; u < N; u++) if (u == v) { vf_true("each node in one component", comp[u] == -1); comp[u] = i; } } i++; } \
 for (int u = 0; u < N; u++) { vf_true("each node in a component", comp[u] != -1); for (int v = 0; v < N; v++) if (u != v) { vf_iff("same component iff mutually reachable", comp[u] == comp[v], r[u][v] && r[v][u]); if (r[u][v]) vf_true("topological order of components", comp[u] <= comp[v]); } } }
#define T3(N) W(reduction_##N) { DAG(N) auto c = transitive_reduction(g); for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { int n = 0; for (auto& e : c[u]) n += e.v == v; bool need = d[u][v]; for (int w = 0; w < N; w++) need = need && !(r[u][w] && r[w][v]); vf_true("reduction edge iff no longer path", n == (need ? 1 : 0)); } }
#define T4(N) W(topo_##N) { DAG(N) auto t = topological_sort(g); vf_true("every node listed", t.size() == N); int pos[N]; for (int u = 0; u < N; u++) pos[u] = -1; for (int i = 0; i < N; i++) for (int u = 0; u < N; u++) if (t[i] == u) pos[u] = i; for (int u = 0; u < N; u++) { vf_true("every node listed", pos[u] >= 0); for (int v = 0; v < N; v++) if (d[u][v]) vf_true("edges point forward", pos[u] < pos[v]); } \
  auto deg = in_degrees(g); for (int v = 0; v < N; v++) { int n = 0; for (int u = 0; u < N; u++) n += d[u][v]; vf_true("in-degree", deg[v] == n); } }
#define T5(N) W(dfs_##N) { GRAPH(N) for (int s = -1; s < N; s++) { bool seen[N], open[N], left[N]; int par[N]; for (int u = 0; u < N; u++) seen[u] = open[u] = left[u] = false, par[u] = -1; int dep = 0; \
   iterative_dfs(g, [&](int root, int parent, int node, int depth) { for (int u = 0; u < N; u++) { if (node == u) { vf_true("entered once", !seen[u]); seen[u] = open[u] = true; par[u] = parent; vf_true("depth", depth == dep); dep++; } if (node == -1 && parent == u) { vf_true("left while open", open[u]); open[u] = false; left[u] = true; dep--; vf_true("depth on leaving", depth == dep + 1); } \
     if (node >= 0) { if (s >= 0) vf_true("root", root == s); if (parent == u) { vf_true("parent is open", open[u]); } if (node == u && parent >= 0) for (int p = 0; p < N; p++) if (p == parent) vf_true("tree edge is an edge", d[p][u]); } } return true; }, s); \
   for (int u = 0; u < N; u++) { vf_true("all entered nodes are left", left[u] == seen[u]); vf_iff("entered iff reachable", seen[u], s < 0 || u == s || r[s < 0 ? 0 : s][u]); } } \
  auto vp = parents(g); vf_true("parent of each node", vp.size() == N); for (int u = 0; u < N; u++) { bool any = vp[u] == -1; for (int p = 0; p < N; p++) if (vp[u] == p) any = d[p][u]; vf_true("parent is a predecessor", any); bool f = true; for (int p = 0; p < u; p++) f = f && !r[p][u]; vf_iff("root iff not reachable from an earlier node", vp[u] == -1, f); } }
#ifdef VF_LARGE
T1(6) T2(6) T2(7) T3(6) T4(7) T5(5) T5(6)
#else
T1(2) T1(3) T2(2) T2(3) T1(4) T2(4) T3(3) T3(4) T4(3) T4(4) T5(2) T5(3)
#endif
// containers of graphs: every list of K edges (multi-edges and self loops included) on N nodes
#ifdef VF_LARGE
INL int pick(int i, int n) { return inst_pick(200 + 4 * i, n); }
#else
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(200 + 4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
#endif
#define CONT(N, K) \
W(delete_edge_##N##_##K) { graph<edge> g(N); int a[K], b[K]; for (int i = 0; i < K; i++) { a[i] = pick(2 * i, N), b[i] = pick(2 * i + 1, N); g.add_edge(a[i], b[i]); } vf_true("number of edges", g.num_edges() == K); int u = pick(2 * K, N), v = pick(2 * K + 1, N); g.delete_edge(u, v); \
  for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) { int n = 0, m = 0; for (auto& e : g[x]) n += e.v == y; for (int i = 0; i < K; i++) m += a[i] == x && b[i] == y && !(x == u && y == v); vf_true("edges left by delete_edge", n == m); } } \
W(delete_node_##N##_##K) { for (int u = 0; u < N; u++) { graph<edge> g(N); int a[K], b[K]; for (int i = 0; i < K; i++) { a[i] = pick(2 * i, N), b[i] = pick(2 * i + 1, N); g.add_edge(a[i], b[i]); } g.delete_node(u); vf_true("size", g.size() == N - 1); \
  for (int x = 0; x < N - 1; x++) for (int y = 0; y < N - 1; y++) { int ox = x == u ? N - 1 : x, oy = y == u ? N - 1 : y; int n = 0, m = 0; for (auto& e : g[x]) n += e.v == y; for (int i = 0; i < K; i++) m += a[i] == ox && b[i] == oy; vf_true("edges left by delete_node", n == m); } } } \
W(dedup_##N##_##K) { graph<edge> g(N); int b[K]; for (int i = 0; i < K; i++) { b[i] = pick(i, N); g.add_edge(0, b[i]); } g.deduplicate_edges(0); for (int y = 0; y < N; y++) { int n = 0; bool m = false; for (auto& e : g[0]) n += e.v == y; for (int i = 0; i < K; i++) m = m || b[i] == y; vf_true("each edge once", n == (m ? 1 : 0)); } } \
W(undirected_##N##_##K) { graph<edge> g(N); int a[K], b[K]; for (int i = 0; i < K; i++) { a[i] = pick(2 * i, N), b[i] = pick(2 * i + 1, N); g.add_edge2(a[i], b[i]); } int w = g.add_node(); vf_true("add_node returns the new node", w == N && g.size() == N + 1); for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) { int n = 0, m = 0; for (auto& e : g[x]) n += e.v == y; for (int i = 0; i < K; i++) m += (a[i] == x && b[i] == y) + (b[i] == x && a[i] == y); vf_true("edges in both directions", n == m); } }
#ifdef VF_LARGE
CONT(5, 11) CONT(6, 20)
#else
CONT(3, 3) CONT(4, 2)
#endif
#define CONTRACT(N) W(contract_##N) { for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if (u != v) { graph<edge> g(N); bool d[N][N]; for (int x = 0; x < N; x++) d[x][x] = false; for (int x = 0; x < N; x++) for (int y = 0; y < x; y++) { d[x][y] = d[y][x] = E_(N, x, y); if (d[x][y]) g.add_edge2(x, y); } g.contract(u, v); vf_true("size", g.size() == N - 1); \
  for (int x = 0; x < N - 1; x++) for (int y = 0; y < N - 1; y++) { int ox = x == v ? N - 1 : x, oy = y == v ? N - 1 : y; bool e = ox != oy && (d[ox][oy] || (ox == u && d[v][oy]) || (oy == u && d[ox][v])); int n = 0; for (auto& f : g[x]) n += f.v == y; vf_true("edges after contract", n == (e ? 1 : 0)); } } }
#ifdef VF_LARGE
CONTRACT(6)
#else
CONTRACT(3) CONTRACT(4)
#endif
// disjoint sets: any K unions of N elements
#define DSU(N, K) W(dsu_##N##_##K) { disjoint_set s(N); int c[N]; for (int i = 0; i < N; i++) c[i] = i; int dist = N; for (int k = 0; k < K; k++) { int a = pick(2 * k, N), b = pick(2 * k + 1, N); int ca = 0, cb = 0; for (int i = 0; i < N; i++) { if (i == a) ca = c[i]; if (i == b) cb = c[i]; } bool n = s.unite(a, b); vf_true("unite reports a change", n == (ca != cb)); if (ca != cb) dist--; for (int i = 0; i < N; i++) if (c[i] == cb) c[i] = ca; } vf_true("number of sets", (int)s.distinct() == dist); \
  for (int i = 0; i < N; i++) { int n = 0; for (int j = 0; j < N; j++) { n += c[i] == c[j]; vf_true("same set iff connected", (s.find(i) == s.find(j)) == (c[i] == c[j])); } vf_true("set size", (int)s.count(i) == n); } \
  vf_true("new element is alone", s.count(N + 1) == 1 && s.find(N + 1) == N + 1 && s.size() == N + 2 && (int)s.distinct() == dist + 2); s.add_count(0, 5); int n = 0; for (int j = 0; j < N; j++) n += c[0] == c[j]; for (int j = 0; j < N; j++) if (c[j] == c[0]) vf_true("added count", (int)s.count(j) == n + 5); s.clear(2); vf_true("clear", s.size() == 2 && s.distinct() == 2 && s.find(1) == 1 && s.count(0) == 1); }
#ifdef VF_LARGE
DSU(9, 7) DSU(12, 14)
#else
DSU(3, 2) DSU(4, 3)
#endif
// 2-satisfiability: every list of K clauses over N variables, literals of either sign or absent, any partial assignment given
INL int lit(int i, int n) { int v = pick(i, 2 * n + 1); return v - 1; }
#define SAT(N, K) W(sat_##N##_##K) { std::vector<std::pair<int, int>> cl; for (int i = 0; i < K; i++) cl.push_back({ lit(2 * i, N), lit(2 * i + 1, N) }); std::vector<int> sol(N, -1); int pre[N]; for (int i = 0; i < N; i++) { pre[i] = bool_sym(i) ? (bool_sym(10 + i) ? 1 : 0) : -1; sol[i] = pre[i]; } \
  bool any = false; for (int m = 0; m < (1 << N); m++) { bool ok = true; for (int i = 0; i < N; i++) ok = ok && (pre[i] == -1 || pre[i] == ((m >> i) & 1)); for (auto& c : cl) { bool s = false; for (int i = 0; i < N; i++) s = s || c.first == 2 * i + ((m >> i) & 1) || c.second == 2 * i + ((m >> i) & 1); ok = ok && s; } any = any || ok; } \
  bool got = sat2(sol, cl); vf_iff("reported satisfiable iff some assignment satisfies", got, any); if (got) { for (int i = 0; i < N; i++) if (pre[i] != -1) vf_true("given values respected", sol[i] == pre[i]); for (auto& c : cl) { bool s = false; for (int i = 0; i < N; i++) s = s || (sol[i] == 1 && (c.first == 2 * i + 1 || c.second == 2 * i + 1)) || (sol[i] == 0 && (c.first == 2 * i || c.second == 2 * i)); vf_true("clause satisfied", s); } } }
#ifndef VF_LARGE
W(sat_list) { std::vector<std::pair<int, int>> cl; for (int i = 0; i < 2; i++) cl.push_back({ lit(2 * i, 2), lit(2 * i + 1, 2) }); auto s = sat2(cl); std::vector<int> t; bool got = sat2(t, cl); vf_true("empty iff unsatisfiable", got == !s.empty()); if (got) { bool eq = s.size() == t.size(); for (int i = 0; i < (int)t.size() && i < (int)s.size(); i++) eq = eq && s[i] == t[i]; vf_true("the same assignment", eq); } vf_true("no clauses", !sat2(std::vector<std::pair<int, int>>()).size()); std::vector<int> more(4, 1); vf_true("variables no clause mentions keep their value", !sat2(more, cl) || (more.size() == 4 && more[2] == 1 && more[3] == 1)); }
#endif
#ifdef VF_LARGE
SAT(4, 6) SAT(5, 9)
#else
SAT(2, 1) SAT(2, 2)
#endif
#ifdef VF_BIG
SAT(3, 2) SAT(2, 3) T5(4)
#endif
