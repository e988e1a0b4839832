#include "ring.h"
#include "large.h"
#include <limits>
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
using namespace altruct::graph;
// every simple undirected graph on N nodes at once
#define E_(u, v) bool_sym((u) * 8 + (v))
#define GRAPH(N) graph<edge> g(N); bool d[N][N]; for (int u = 0; u < N; u++) { d[u][u] = false; for (int v = 0; v < u; v++) { d[u][v] = d[v][u] = E_(u, v); if (d[u][v]) g.add_edge2(u, edge(v)); } }
// reachability without node x (x = -1: none) and without edge (a, b)
template<int N> INL void reach(bool (&r)[N][N], bool (&d)[N][N], int x, int a = -1, int b = -1) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] = (i == j || d[i][j]) && i != x && j != x && !(i == a && j == b) && !(i == b && j == a); for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r[i][j] = r[i][j] || (r[i][k] && r[k][j]); }
#define BICON(N) W(bicon_##N) { GRAPH(N) biconnectivity<edge> b(g); bool r0[N][N]; reach<N>(r0, d, -1); bool cutv[N], bridge[N][N]; bool rx[N][N][N]; \
  for (int x = 0; x < N; x++) { reach<N>(rx[x], d, x); cutv[x] = false; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (i != x && j != x) cutv[x] = cutv[x] || (r0[i][j] && !rx[x][i][j]); } \
  for (int u = 0; u < N; u++) for (int v = 0; v < u; v++) { bool r[N][N]; reach<N>(r, d, -1, u, v); bridge[u][v] = bridge[v][u] = d[u][v] && !r[u][v]; } \
  for (int x = 0; x < N; x++) { int n = 0; for (int c : b.cut_vertices) n += c == x; vf_true("cut vertex iff it separates", n == (cutv[x] ? 1 : 0)); } \
  for (int u = 0; u < N; u++) for (int v = 0; v < u; v++) { int n = 0; for (auto& e : b.cut_edges) n += (e.u == u && e.v == v) || (e.u == v && e.v == u); vf_true("bridge iff it separates", n == (bridge[u][v] ? 1 : 0)); } \
  /* two nodes share a biconnected component iff they are linked by an edge that is no bridge, or by two disjoint paths */ \
  for (int u = 0; u < N; u++) for (int v = 0; v < u; v++) { bool two = r0[u][v] && !(d[u][v] && bridge[u][v]); for (int x = 0; x < N; x++) if (x != u && x != v) two = two && rx[x][u][v]; int n = 0; for (auto& c : b.components) { bool hu = false, hv = false; for (int w : c) { hu = hu || w == u; hv = hv || w == v; } n += hu && hv; } vf_true("in one biconnected component", n == (two ? 1 : 0)); } \
  int total = 0, chains = 0; for (auto& c : b.decomposition) for (auto& bc : c) for (auto& ch : bc) { total += (int)ch.size() - 1; chains++; for (int i = 0; i + 1 < (int)ch.size(); i++) { bool e = false; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if (ch[i] == u && ch[i + 1] == v) e = d[u][v] && !bridge[u][v]; vf_true("chain edge is an edge and no bridge", e); } } \
  int m = 0, br = 0, comps = 0; for (int u = 0; u < N; u++) { bool f = true; for (int v = 0; v < u; v++) { m += d[u][v]; br += bridge[u][v]; f = f && !r0[u][v]; } comps += f; } vf_true("chains cover every edge that is no bridge", total == m - br); vf_true("number of chains", chains == m - N + comps); vf_true("one entry per connected component", (int)b.decomposition.size() == comps); }
#define BCT(N) W(bctree_##N) { GRAPH(N) biconnectivity<edge> b(g); bool r0[N][N]; reach<N>(r0, d, -1); const int M = 2 * N; int n = b.block_cut_tree.size(), e = b.block_cut_tree.num_edges(); vf_true("tree is symmetric", e % 2 == 0); int comps = 0; for (int u = 0; u < N; u++) { bool f = true; for (int v = 0; v < u; v++) f = f && !r0[u][v]; comps += f; } vf_true("forest with a tree per component", e / 2 == n - comps); \
  vf_true("nodes", n <= M); for (int u = 0; u < N; u++) vf_true("every node is mapped", b.bc_tree_idx[u] >= 0 && b.bc_tree_idx[u] < n); }
#ifdef VF_LARGE
BICON(6) BICON(7) BICON(8) BCT(6) BCT(7)
#else
BICON(2) BICON(3) BICON(4) BCT(3) BCT(4)
#endif
#ifdef VF_BIG
BICON(5)
#endif
// chromatic polynomial against the number of colourings with k colours, k = 0 .. N
#define CHROM(N) W(chromatic_##N) { GRAPH(N) auto p = chromatic_polynomial<R>(g); vf_true("degree", p.deg() == N); for (int k = 0; k <= N; k++) { int tot = 1, cnt = 0; for (int i = 0; i < N; i++) tot *= k; for (int c = 0; c < tot; c++) { bool ok = true; int cu = c; for (int u = 0; u < N; u++, cu /= k) { int cv = c; for (int v = 0; v < u; v++, cv /= k) ok = ok && !(d[u][v] && cu % k == cv % k); } cnt += ok; } R s(0); for (int i = N; i >= 0; i--) s = s * R(k) + p.at(i); R w(0); for (int q = 1; q <= tot; q++) if (cnt == q) w = R(q); EQ("number of colourings", s, w); } }
#ifdef VF_LARGE
CHROM(4) CHROM(5)
#else
CHROM(1) CHROM(2) CHROM(3)
#endif
#ifdef VF_BIG
CHROM(4)
#endif
// trees, cycles and complete graphs: colourings with k colours of a path, a ring and a clique, counted
template<class P> INL void colourings(const char*, const P& p, int n, int kind) { for (int k = 0; k <= n + 1; k++) { int tot = 1, cnt = 0; for (int i = 0; i < n; i++) tot *= k; for (int c = 0; c < tot; c++) { int x[8]; int t = c; for (int i = 0; i < n; i++, t /= k) x[i] = t % k; bool ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (kind == 2 || j == i - 1 || (kind == 1 && j == 0 && i == n - 1)) ok = ok && x[i] != x[j]; cnt += ok; } R s(0), w(1); for (int i = 0; i <= p.deg(); i++) { s += R(p[i]) * w; w = w * R(k); } EQ("number of colourings", s, R(cnt)); } vf_true("degree", p.deg() == n); }
#ifndef VF_LARGE
W(chromatic_path) { for (int n = 1; n <= 4; n++) colourings("", chromatic_polynomial_T<R>(n), n, 0); }
W(chromatic_ring) { for (int n = 3; n <= 5; n++) colourings("", chromatic_polynomial_C<int>(n), n, 1); }
W(chromatic_clique) { for (int n = 0; n <= 4; n++) colourings("", chromatic_polynomial_K<R>(n), n, 2); }
#endif
// weights: every edge is absent or has one of three weights
INL int wt(int u, int v) { bool a = bool_sym(u * 8 + v), b = bool_sym(100 + u * 8 + v); return a ? (b ? 1 : 2) : (b ? 4 : 0); }
#define WGRAPH(N) graph<weighted_edge<int>> g(N); int w[N][N]; for (int u = 0; u < N; u++) { w[u][u] = 0; for (int v = 0; v < u; v++) { w[u][v] = w[v][u] = wt(u, v); if (w[u][v]) g.add_edge2(u, weighted_edge<int>(v, w[u][v])); } }
#define INF 1000
#define DIST(N) int s[N][N], f[N][N]; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) s[u][v] = u == v ? 0 : w[u][v] ? w[u][v] : INF; for (int k = 0; k < N; k++) for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if (s[u][k] + s[k][v] < s[u][v]) s[u][v] = s[u][k] + s[k][v];
#define SHORT(N) W(dijkstra_##N) { WGRAPH(N) DIST(N) for (int u = 0; u < N; u++) { auto r = dijkstra(g, u, INF); for (int v = 0; v < N; v++) { vf_true("shortest distance", r[v].w == s[u][v]); bool ok = u == v ? r[v].v == u : s[u][v] == INF ? r[v].v == -1 : false; if (u != v) for (int p = 0; p < N; p++) if (r[v].v == p) ok = w[p][v] && s[u][p] + w[p][v] == s[u][v]; vf_true("previous node lies on a shortest path", ok); } } } \
W(floyd_##N) { WGRAPH(N) DIST(N) auto r = floyd_warshall(g, INF); for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { vf_true("shortest distance", r[u][v].w == s[u][v]); bool ok = u == v ? r[u][v].v == u : s[u][v] == INF ? r[u][v].v == -1 : false; if (u != v) for (int p = 0; p < N; p++) if (r[u][v].v == p) ok = w[u][p] && w[u][p] + s[p][v] == s[u][v]; vf_true("next node lies on a shortest path", ok); } }
#ifdef VF_LARGE
SHORT(6) SHORT(7)
#else
SHORT(2) SHORT(3)
#endif
// minimum spanning tree: parents form a tree of the root's component; maximal edge weight on every path is minimal
#define PRIM(N) W(prim_##N) { WGRAPH(N) int b[N][N]; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) b[u][v] = u == v ? 0 : w[u][v] ? w[u][v] : INF; for (int k = 0; k < N; k++) for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { int m = b[u][k] < b[k][v] ? b[k][v] : b[u][k]; if (m < b[u][v]) b[u][v] = m; } \
  for (int u = 0; u < N; u++) { auto r = prim_spanning_tree(g, u, INF); for (int v = 0; v < N; v++) { int x = v, mx = 0; bool lost = false; for (int k = 0; k < N; k++) { if (x == u || lost) continue; int p = -1, c = 0; for (int y = 0; y < N; y++) if (x == y) { p = r[y].v; c = r[y].w; } if (p < 0) { lost = true; continue; } bool e = false; for (int y = 0; y < N; y++) for (int z = 0; z < N; z++) if (x == y && p == z) e = w[y][z] == c && c > 0; vf_true("tree edge is an edge with its weight", e); if (c > mx) mx = c; x = p; } \
     vf_true("in the tree iff connected to the root", (lost || x != u) == (b[u][v] == INF)); if (b[u][v] < INF) { vf_true("parents lead to the root", x == u); vf_true("path with the least largest weight", mx == b[u][v]); } } } }
#ifdef VF_LARGE
PRIM(6) PRIM(7)
#else
PRIM(2) PRIM(3) PRIM(4)
#endif
