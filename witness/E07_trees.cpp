#include "ring.h"
#include "large.h"
#include <limits>
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
using namespace altruct::graph;
// every forest on N labelled nodes at once: node u > 0 hangs from any earlier node or from none, labels permuted by L,
// with the adjacency lists in two orders
#ifdef VF_LARGE
INL int pick(int i, int n) { return inst_pick(i, n); }
#else
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
#endif
template<int N> struct Forest { int par[N], dep[N], root[N]; bool anc[N][N]; // in label space after the relabelling l
    int l[N]; };
#define FOREST(N, CONN, PERM) \
  int P[N]; bool d[N][N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) d[i][j] = false; graph<edge> g(N); \
  for (int i = 1; i < N; i++) { P[i] = pick(i, CONN ? i : i + 1); int a = (i * PERM + 1) % N; if (PERM == 0) a = i; for (int j = 0; j < i; j++) if (P[i] == j) { int b = PERM == 0 ? j : (j * PERM + 1) % N; d[a][b] = d[b][a] = true; g.add_edge2(a, edge(b)); } } \
  /* rooted at the smallest label of each tree */ \
  int s[N][N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) s[i][j] = i == j ? 0 : d[i][j] ? 1 : 99; for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (s[i][k] + s[k][j] < s[i][j]) s[i][j] = s[i][k] + s[k][j]; \
  int dep[N], up[N], root[N]; for (int i = 0; i < N; i++) { root[i] = i; dep[i] = 0; for (int j = N - 1; j >= 0; j--) if (s[i][j] < 99) { root[i] = j; dep[i] = s[i][j]; } } for (int i = 0; i < N; i++) { up[i] = -1; for (int j = 0; j < N; j++) if (d[i][j] && dep[j] == dep[i] - 1) up[i] = j; }
// j lies between the root and i
#define ANC(i, j) (s[i][j] < 99 && dep[j] + s[i][j] == dep[i])
#define LCA(N, PERM) W(lca_##N##_##PERM) { FOREST(N, false, PERM) lowest_common_ancestor l(g); vf_true("no node", l.depth(-1) == -1 && l.ancestor(-1, 0) == -1 && l.distance(0, -1) == -1); for (int u = 0; u < N; u++) { vf_true("depth", l.depth(u) == dep[u]); for (int v = 0; v < N; v++) { int a = -1; for (int x = 0; x < N; x++) if (ANC(u, x) && ANC(v, x)) { bool deeper = true; for (int y = 0; y < N; y++) if (ANC(u, y) && ANC(v, y) && dep[y] > dep[x]) deeper = false; if (deeper) a = x; } vf_true("lowest common ancestor", l.ancestor(u, v) == a); vf_true("distance", l.distance(u, v) == (s[u][v] == 99 ? -1 : s[u][v])); } } }
#ifdef VF_LARGE
LCA(6, 0) LCA(8, 3)
#else
LCA(2, 0) LCA(3, 0) LCA(4, 0) LCA(4, 3) LCA(5, 3)
#endif
#define HLD(N, CONN, PERM) W(hld_##N##_##CONN##_##PERM) { FOREST(N, CONN, PERM) heavy_light_decomposition h(g); int sz[N]; for (int i = 0; i < N; i++) { sz[i] = 0; for (int j = 0; j < N; j++) sz[i] += ANC(j, i); } bool used[N]; for (int i = 0; i < N; i++) used[i] = false; \
  for (int u = 0; u < N; u++) { vf_true("subtree size", h.subtree_size(u) == sz[u]); int p = h.position(u); vf_true("position in range", p >= 0 && p < N); for (int i = 0; i < N; i++) if (p == i) { vf_true("positions are distinct", !used[i]); used[i] = true; vf_true("node at position", h.node(i) == u); } \
    /* subtrees are contiguous */ for (int v = 0; v < N; v++) vf_true("subtree is an interval", ANC(v, u) == (h.position(v) >= p && h.position(v) < p + sz[u])); \
    /* the chain of u: nodes above u at consecutive positions, ending below parent(u) */ int c = h.parent(u); vf_true("chain parent is a proper ancestor", c == -1 || (c != u && [&]{ bool r = false; for (int x = 0; x < N; x++) if (c == x) r = ANC(u, x); return r; }())); \
    int cd = -1; for (int x = 0; x < N; x++) if (c == x) cd = dep[x]; for (int x = 0; x < N; x++) if (ANC(u, x) && dep[x] > cd) { vf_true("chain is contiguous", h.position(x) == p - (dep[u] - dep[x])); vf_true("one parent per chain", h.parent(x) == c); } \
    /* chains follow a heaviest child: a child off the chain is no heavier than some sibling on it */ for (int v = 0; v < N; v++) if (up[v] == u && h.parent(v) == u) { bool heavier = false; for (int w = 0; w < N; w++) if (up[w] == u && h.parent(w) != u) heavier = sz[w] >= sz[v]; vf_true("light child has a heavy sibling", heavier); } } \
  for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { int n = 0; for (auto& e : g[u]) n += e.v == v; vf_true("graph is unchanged", n == (d[u][v] ? 1 : 0)); } }
#ifdef VF_LARGE
HLD(7, true, 0) HLD(8, false, 3) HLD(10, true, 7)
#else
HLD(2, false, 0) HLD(3, false, 0) HLD(4, false, 0) HLD(4, true, 3) HLD(5, true, 3) HLD(5, true, 0)
#endif
#define HLX(N, PERM) W(hlx_##N##_##PERM) { FOREST(N, true, PERM) heavy_light_decomposition_ex h(g); for (int u = 0; u < N; u++) for (int k = -1; k <= N; k++) { int x = u; for (int i = 0; i < k; i++) { int y = -1; for (int j = 0; j < N; j++) if (x == j) y = up[j]; x = y; } if (k < 0) x = -1; vf_true("k-th parent", h.parent(u, k) == x); vf_true("forwarding", h.parent(u) == h.hld.parent(u) && h.position(u) == h.hld.position(u) && h.node(u) == h.hld.node(u) && h.subtree_size(u) == h.hld.subtree_size(u) && h.depth(u) == dep[u]); } \
  for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) for (int inc = 0; inc < 2; inc++) { int D = s[u][v] + inc; int at[N + 1]; for (int i = 0; i <= N; i++) at[i] = -1; int a = h.ancestor(u, v); bool rev = false; \
    int r = h.walk(u, v, [&](int cb, int ce, int pf, int pl, int len, bool dir) { vf_true("segment is not empty", cb < ce && cb >= 0 && ce <= N); vf_true("path length passed on", len == D); vf_true("segment lengths match", (dir ? pf - pl : pl - pf) == ce - cb - 1); for (int c = 0; c < N; c++) if (c >= cb && c < ce) { int q = dir ? pf - (c - cb) : pf + (c - cb); for (int i = 0; i <= N; i++) if (q == i) { vf_true("path position visited once", at[i] == -1); at[i] = h.node(c); } } }, inc != 0); vf_true("path length", r == D); \
    /* nodes of the path, without the ancestor when edges are walked */ for (int i = 0; i <= N; i++) { int w = -1; for (int x = 0; x < N; x++) { bool on = s[u][x] + s[x][v] == s[u][v]; if (!inc && x == a) on = false; bool below = !inc && ANC(v, x) && !ANC(u, x); if (on && s[u][x] - (below ? 1 : 0) == i) w = x; } vf_true("node at each place of the path", at[i] == w); } } }
#ifdef VF_LARGE
HLX(5, 3) HLX(6, 0)
#else
HLX(2, 0) HLX(3, 0) HLX(4, 3)
#endif
// edge data stay with their edges
W(hld_weights) { graph<weighted_edge<R>> g(4); g.add_edge2(0, weighted_edge<R>(1, rsym(1))); g.add_edge2(0, weighted_edge<R>(2, rsym(2))); g.add_edge2(2, weighted_edge<R>(3, rsym(3))); heavy_light_decomposition h(g); for (int u = 0; u < 4; u++) for (auto& e : g[u]) EQ("weight of each edge", e.w, rsym(u > e.v ? u : e.v)); }
