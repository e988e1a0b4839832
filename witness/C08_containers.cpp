#include "ring.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/series.h"
#include "altruct/structure/graph/graph.h"
using namespace altruct::math;
namespace g = altruct::graph;
// the six operators of x, y against "x < y" and "x == y" computed from the components
template<typename X> INL void ops(const X& x, const X& y, bool lt, bool eq) { IFF("==", x == y, eq); IFF("!=", x != y, !eq); IFF("<", x < y, lt); IFF(">", x > y, !lt && !eq); IFF("<=", x <= y, lt || eq); IFF(">=", x >= y, !lt);
    IFF("> is < with the operands swapped", y > x, lt); IFF(">= is <= with the operands swapped", y >= x, lt || eq); vf_true("x == x", x == x && !(x != x)); vf_true("x <= x", x <= x && x >= x && !(x < x) && !(x > x)); }
INL matrix<R> mat(int n, int m, int k) { matrix<R> a(n, m, rsym(k)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = rsym(k + i * m + j); return a; }
INL int val(const R& x, const R& y) { return x < y ? -1 : y < x ? 1 : 0; }
#define MAT(N, M, L, K) W(matrix_##N##_##M##_##L##_##K) { matrix<R> a = mat(N, M, 0), b = mat(L, K, 10); int c = 0; for (int i = 0; i < N && i < L; i++) { for (int j = 0; j < M && j < K; j++) if (c == 0) c = val(a[i][j], b[i][j]); if (c == 0) c = M < K ? -1 : M > K ? 1 : 0; } if (c == 0) c = N < L ? -1 : N > L ? 1 : 0; ops(a, b, c < 0, c == 0); }
MAT(1, 1, 1, 1) MAT(1, 2, 1, 2) MAT(2, 1, 2, 1) MAT(2, 2, 2, 2) MAT(1, 2, 2, 2) MAT(2, 2, 1, 2) MAT(1, 1, 1, 2) MAT(1, 2, 1, 1)
INL polynom<R> poly(int n, int k) { std::vector<R> c(n); for (int i = 0; i < n; i++) c[i] = rsym(k + i); return polynom<R>(c); }
INL int pcmp(int n, int m) { int c = 0; for (int i = (n > m ? n : m) - 1; i >= 0; i--) if (c == 0) c = val(i < n ? rsym(i) : R(0), i < m ? rsym(10 + i) : R(0)); return c; }
// polynomials and series: by the coefficient of the highest power in which they differ
#define POL(N, M) W(polynom_##N##_##M) { polynom<R> a = poly(N, 0), b = poly(M, 10); int c = pcmp(N, M); ops(a, b, c < 0, c == 0); polynom<R> z = a; z.reserve(N + 2); ops(z, b, c < 0, c == 0); ops(z, a, false, true); }
POL(1, 1) POL(1, 2) POL(2, 1) POL(2, 2) POL(3, 2) POL(2, 3) POL(3, 3) POL(0, 1) POL(1, 0)
W(series) { typedef series<R, 3> X; X a(poly(3, 0)), b(poly(3, 10)); int c = pcmp(3, 3); ops(a, b, c < 0, c == 0); }
W(series_x) { typedef seriesX<R> X; X a(poly(2, 0), 2), b(poly(2, 10), 2); int c = pcmp(2, 2); ops(a, b, c < 0, c == 0); X d(poly(3, 10), 3); c = pcmp(2, 3); ops(a, d, c < 0, c == 0); }
// graphs: by the lists of targets, node after node
#define GR(N, ...) W(graph_##N) { int s[2][3] = { __VA_ARGS__ }; g::graph<g::edge> a(s[0][2]), b(s[1][2]); for (int u = 0; u < 2; u++) { for (int i = 0; i < s[0][u]; i++) a.add_edge(u, g::edge(int_sym(4 * u + i))); for (int i = 0; i < s[1][u]; i++) b.add_edge(u, g::edge(int_sym(20 + 4 * u + i))); } \
  int c = 0; for (int u = 0; u < s[0][2] && u < s[1][2]; u++) { for (int i = 0; i < s[0][u] && i < s[1][u]; i++) if (c == 0) { int p = int_sym(4 * u + i), q = int_sym(20 + 4 * u + i); c = p < q ? -1 : q < p ? 1 : 0; } if (c == 0) c = s[0][u] < s[1][u] ? -1 : s[0][u] > s[1][u] ? 1 : 0; } if (c == 0) c = s[0][2] < s[1][2] ? -1 : s[0][2] > s[1][2] ? 1 : 0; \
  IFF("==", a == b, c == 0); IFF("<", a < b, c < 0); IFF("< with the operands swapped", b < a, c > 0); vf_true("x == x", a == a && !(a < a)); }
GR(a, { 1, 1, 2 }, { 1, 1, 2 }) GR(b, { 2, 0, 2 }, { 1, 1, 2 }) GR(c, { 1, 0, 1 }, { 1, 0, 2 }) GR(d, { 2, 1, 2 }, { 2, 1, 2 })
