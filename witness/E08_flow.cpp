#include "ring.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"
using namespace altruct::graph;
// every network on N nodes whose arcs have capacity 0, 1 or (2 - the arcs given by WIDE) two
INL int capOf(int N, int u, int v, int wide) { int c = bool_sym(u * 8 + v) ? 1 : 0; if (wide) c += bool_sym(100 + u * 8 + v) ? wide : 0; return c; }
#define NET(N, WIDE) typedef std::vector<int> row; std::vector<row> c(N, row(N)); int w[N][N]; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) { w[u][v] = u == v ? 0 : capOf(N, u, v, WIDE(u, v)); c[u][v] = w[u][v]; }
#define CUT(N, S, T) int cut = 1000; for (int m = 0; m < (1 << N); m++) if ((m >> S & 1) && !(m >> T & 1)) { int x = 0; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if ((m >> u & 1) && !(m >> v & 1)) x += w[u][v]; if (x < cut) cut = x; }
#define W0(u, v) 0
#define W2(u, v) ((u) < (v) ? 2 : 0)
#define DINIC(N, S, T, WIDE) W(dinic_##N##_##S##T##_##WIDE) { NET(N, WIDE) CUT(N, S, T) dinic_flow<int> d(c); int f = d.calc_max_flow(S, T); vf_true("maximum flow equals minimum cut", f == cut); for (int u = 0; u < N; u++) { int b = 0; for (int v = 0; v < N; v++) { b += d.flow[u][v] - d.flow[v][u]; vf_true("flow within capacity", d.flow[u][v] >= 0 && d.flow[u][v] <= w[u][v]); } vf_true("flow is conserved", b == (u == S ? f : u == T ? -f : 0)); } vf_true("computed again", d.calc_max_flow(S, T) == cut); }
#define PUSH(N, S, T, WIDE, RULE) W(push_##N##_##S##T##_##WIDE##_##RULE) { NET(N, WIDE) CUT(N, S, T) push_relabel_flow<int> d(c, 1000); int f = d.calc_max_flow(S, T, push_relabel_flow<int>::RULE); vf_true("maximum flow equals minimum cut", f == cut); for (int u = 0; u < N; u++) { int b = 0; for (int v = 0; v < N; v++) { b += d.flow[u][v]; vf_true("flow within capacity", d.flow[u][v] <= w[u][v]); vf_true("flow is skew-symmetric", d.flow[u][v] == -d.flow[v][u]); } vf_true("flow is conserved", b == (u == S ? f : u == T ? -f : 0)); } }
DINIC(2, 0, 1, W2) DINIC(3, 0, 2, W2) DINIC(3, 2, 1, W2) DINIC(4, 0, 3, W0) DINIC(4, 0, 3, W2)
PUSH(2, 0, 1, W2, RELABEL_TO_FRONT) PUSH(3, 0, 2, W0, RELABEL_TO_FRONT) PUSH(3, 2, 1, W0, RELABEL_TO_FRONT) PUSH(2, 0, 1, W2, LARGEST_LABEL) PUSH(3, 0, 2, W0, LARGEST_LABEL) PUSH(4, 0, 3, W0, RELABEL_TO_FRONT) PUSH(4, 2, 1, W0, LARGEST_LABEL)
W(same_node) { std::vector<std::vector<int>> c(2, std::vector<int>(2, 1)); dinic_flow<int> d(c); vf_true("no flow from a node to itself", d.calc_max_flow(1, 1) == 0); push_relabel_flow<int> p(c, 100); vf_true("no flow from a node to itself", p.calc_max_flow(1, 1) == 0); }
// every bipartite graph between A left and B right nodes
#define MATCH(A, B) W(matching_##A##_##B) { std::vector<full_edge> e; for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) if (bool_sym(i * B + j)) { e.push_back(full_edge(i, A + j)); if (i == 0 && j == 0) e.push_back(full_edge(i, A + j)); } auto m = bipartite_matching<full_edge>(A + B, e); \
  int best = 0; for (int s = 0; s < (1 << (A * B)); s++) { bool ok = true; int n = 0; for (int i = 0; i < A; i++) { int k = 0; for (int j = 0; j < B; j++) k += s >> (i * B + j) & 1; ok = ok && k <= 1; n += k; } for (int j = 0; j < B; j++) { int k = 0; for (int i = 0; i < A; i++) k += s >> (i * B + j) & 1; ok = ok && k <= 1; } if (!ok) continue; for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) if (s >> (i * B + j) & 1) ok = ok && bool_sym(i * B + j); if (ok && n > best) best = n; } vf_true("as many edges as possible", (int)m.size() == best); \
  for (int u = 0; u < A + B; u++) { int n = 0; for (auto& x : m) n += (x.u == u) + (x.v == u); vf_true("node matched at most once", n <= 1); } for (auto& x : m) { bool in = false; for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) if (x.u == i && x.v == A + j) in = bool_sym(i * B + j); vf_true("matched along an edge", in); } }
MATCH(1, 1) MATCH(2, 2) MATCH(2, 3) MATCH(3, 3)
// every cost matrix with entries from a set of four values
INL int costOf(int k, int wide) { bool a = bool_sym(2 * k), b = wide ? bool_sym(2 * k + 1) : bool_sym(2 * (k / 2) + 1); return a ? (b ? 7 : -1) : (b ? 2 : 0); }
#define HUNG(N, WIDE) W(hungarian_##N##_##WIDE) { int c[N][N]; hungarian<int> h; h.resize(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) h.cost(i, j) = c[i][j] = costOf(i * N + j, WIDE); int best = -1000, worst = 1000; int p[N]; int F = 1; for (int i = 1; i <= N; i++) F *= i; for (int k = 0; k < F; k++) { int q = k; bool used[N]; for (int i = 0; i < N; i++) used[i] = false; int s = 0; for (int i = 0; i < N; i++) { int r = q % (N - i); q /= N - i; for (int j = 0; j < N; j++) if (!used[j] && r-- == 0) { used[j] = true; s += c[i][j]; } } if (s > best) best = s; if (s < worst) worst = s; } \
  vf_true("largest cost", h.calc_max_cost() == best); auto x = h.get_matches_for_x(), y = h.get_matches_for_y(); int s = 0; for (int i = 0; i < N; i++) { bool ok = false; for (int j = 0; j < N; j++) if (x[i] == j) { ok = y[j] == i; s += c[i][j]; } vf_true("matching is a permutation", ok); } vf_true("cost of the matching", s == best); vf_true("smallest cost", h.calc_min_cost() == worst); s = 0; auto z = h.get_matches_for_x(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (z[i] == j) s += c[i][j]; vf_true("cost of the smallest matching", s == worst); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vf_true("costs unchanged", h.cost(i, j) == c[i][j]); }
HUNG(1, 1) HUNG(2, 1) HUNG(3, 0)
#ifdef VF_BIG
HUNG(3, 1) DINIC(5, 0, 4, W0) PUSH(4, 1, 3, W2, RELABEL_TO_FRONT)
#endif
// larger networks and matrices, fixed
INL unsigned lcg(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 16; }
template<class F> INL void feasible(const F& d, const std::vector<std::vector<int>>& c, int n, int s, int t, int f) { bool fits = true, kept = true; for (int u = 0; u < n; u++) { int b = 0; for (int v = 0; v < n; v++) { b += d.flow[u][v] - d.flow[v][u]; fits = fits && d.flow[u][v] <= c[u][v]; } (void)b; } (void)kept; vf_true("within capacities", fits); for (int u = 0; u < n; u++) { int b = 0; for (int v = 0; v < n; v++) b += d.flow[u][v] > 0 ? d.flow[u][v] : 0; for (int v = 0; v < n; v++) b -= d.flow[v][u] > 0 ? d.flow[v][u] : 0; vf_true("conserved", b == (u == s ? f : u == t ? -f : 0)); } }
#define LARGE(N, CNT, SEED, DENS) W(large_##N##_##SEED) { for (unsigned k = 0; k < CNT; k++) { unsigned s = SEED * 1000 + k; std::vector<std::vector<int>> c(N, std::vector<int>(N, 0)); for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if (u != v && lcg(s) % 10 < DENS) c[u][v] = 1 + lcg(s) % 9; int S = lcg(s) % N, T = (S + 1 + lcg(s) % (N - 1)) % N; \
  int cut = 100000; for (int m = 0; m < (1 << N); m++) if ((m >> S & 1) && !(m >> T & 1)) { int x = 0; for (int u = 0; u < N; u++) for (int v = 0; v < N; v++) if ((m >> u & 1) && !(m >> v & 1)) x += c[u][v]; if (x < cut) cut = x; } \
  { dinic_flow<int> d(c); int f = d.calc_max_flow(S, T); vf_true("dinic: maximum flow equals minimum cut", f == cut); feasible(d, c, N, S, T, f); } { push_relabel_flow<int> d(c, 1000000); int f = d.calc_max_flow(S, T, push_relabel_flow<int>::RELABEL_TO_FRONT); vf_true("push-relabel: maximum flow equals minimum cut", f == cut); feasible(d, c, N, S, T, f); } { push_relabel_flow<int> d(c, 1000000); int f = d.calc_max_flow(S, T, push_relabel_flow<int>::LARGEST_LABEL); vf_true("push-relabel: maximum flow equals minimum cut", f == cut); feasible(d, c, N, S, T, f); } } }
LARGE(5, 12, 1, 6) LARGE(5, 12, 2, 4) LARGE(6, 10, 3, 4) LARGE(6, 10, 4, 7) LARGE(7, 6, 5, 4)
#define HUNGL(N, CNT, SEED, RANGE) W(hungarian_large_##N##_##SEED) { for (unsigned k = 0; k < CNT; k++) { unsigned s = SEED * 1000 + k; int c[N][N]; hungarian<int> h; h.resize(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) h.cost(i, j) = c[i][j] = int(lcg(s) % RANGE) - RANGE / 3; int p[N], best = -100000, worst = 100000; for (int i = 0; i < N; i++) p[i] = i; do { int x = 0; for (int i = 0; i < N; i++) x += c[i][p[i]]; if (x > best) best = x; if (x < worst) worst = x; } while (std::next_permutation(p, p + N)); \
  vf_true("largest cost", h.calc_max_cost() == best); { auto x = h.get_matches_for_x(); int t = 0, m = 0; for (int i = 0; i < N; i++) { t += c[i][x[i]]; m |= 1 << x[i]; } vf_true("attained by a permutation", t == best && m == (1 << N) - 1); } vf_true("smallest cost", h.calc_min_cost() == worst); { auto x = h.get_matches_for_x(); int t = 0, m = 0; for (int i = 0; i < N; i++) { t += c[i][x[i]]; m |= 1 << x[i]; } vf_true("attained by a permutation", t == worst && m == (1 << N) - 1); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vf_true("costs unchanged", h.cost(i, j) == c[i][j]); } }
HUNGL(4, 10, 1, 20) HUNGL(5, 6, 2, 7) HUNGL(5, 4, 3, 100)
#define MATCHL(A, B, CNT, SEED, DENS) W(matching_large_##A##_##B##_##SEED) { for (unsigned k = 0; k < CNT; k++) { unsigned s = SEED * 1000 + k; bool a[A][B]; std::vector<full_edge> e; for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) if ((a[i][j] = lcg(s) % 10 < DENS)) e.push_back(full_edge(i, A + j)); auto m = bipartite_matching<full_edge>(A + B, e); int d[1 << B]; for (int x = 0; x < (1 << B); x++) d[x] = 0; for (int i = 0; i < A; i++) for (int x = (1 << B) - 1; x >= 0; x--) for (int j = 0; j < B; j++) if ((x >> j & 1) && a[i][j] && d[x ^ (1 << j)] + 1 > d[x]) d[x] = d[x ^ (1 << j)] + 1; \
  vf_true("largest", (int)m.size() == d[(1 << B) - 1]); int um = 0, vm = 0; bool ok = true; for (auto& x : m) { ok = ok && x.u >= 0 && x.u < A && x.v >= A && x.v < A + B && a[x.u][x.v - A] && !(um >> x.u & 1) && !(vm >> x.v & 1); um |= 1 << x.u; vm |= 1 << x.v; } vf_true("given edges without a common node", ok); } }
MATCHL(5, 5, 10, 1, 3) MATCHL(6, 5, 8, 2, 3) MATCHL(6, 6, 8, 3, 2)
