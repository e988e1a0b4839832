#include "ring.h"
#include "sorts.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/fractions.h"
using namespace altruct::math;
typedef permutation<int> perm;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
// every permutation of N numbers at once
template<int N> struct line { int a[N + 1]; INL line(int k) { for (int i = 0; i < N; i++) a[i] = i; for (int i = N - 1; i > 0; i--) { int j = pick(k + i, i + 1); for (int q = 0; q < i; q++) if (q == j) std::swap(a[q], a[i]); } } INL int operator[](int i) const { int r = -1; for (int q = 0; q < N; q++) if (q == i) r = a[q]; return r; } INL std::vector<int> v() const { return std::vector<int>(a, a + N); } };
template<int N> INL void same(const perm& p, const int (&e)[N]) { auto l = p.to_line(); vf_true("size of the line", p.n == N && l.size() == N); for (int i = 0; i < N; i++) vf_true("image of every element", l[i] == e[i]); }
template<int N> INL void valid(const perm::cycles_t& c, int lo) { int n[N]; for (int i = 0; i < N; i++) n[i] = 0; for (auto& q : c) { vf_true("length of a cycle", (int)q.size() >= lo); for (int x : q) for (int i = 0; i < N; i++) n[i] += i == x; } for (int i = 0; i < N; i++) vf_true("an element is in at most one cycle", n[i] <= 1 && (lo > 1 || n[i] == 1)); }
#define PLINE(N) W(line_##N) { line<N> a(0); perm p(a.v()); same<N>(p, (const int (&)[N])a.a); valid<N>(p.to_cycles(), 2); valid<N>(p.to_all_cycles(), 1); same<N>(perm(p.to_cycles(), N), (const int (&)[N])a.a); same<N>(perm(p.to_all_cycles(), N), (const int (&)[N])a.a); same<N>(perm(p.to_transpositions(), N), (const int (&)[N])a.a); \
  vf_true("equal however written", perm(p.to_all_cycles(), N) == p && !(perm(p.to_all_cycles(), N) < p) && perm(p.to_transpositions(), N) == p); int m = 0; for (int i = 0; i < N; i++) if (a.a[i] != i) m = i + 1; vf_true("least size that holds the cycles", perm::size(p.to_cycles()) == m && perm::size(p.to_transpositions()) == m); \
  same<N>(perm(perm::transpositions_to_cycles(p.to_transpositions()), N), (const int (&)[N])a.a); same<N>(perm(perm::line_to_transpositions(a.v()), N), (const int (&)[N])a.a); same<N>(identityOf(p), (const int (&)[N])*perm(N).to_line().data()); }
#define PMUL(N) W(product_##N) { line<N> a(0), b(8); perm p(a.v()), q(b.v()), r = p * q; int e[N], d[N]; for (int i = 0; i < N; i++) e[i] = b[a[i]]; same<N>(r, e); r = p; r *= q; same<N>(r, e); \
  r = p / q; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (b.a[j] == a.a[i]) { } same<N>(r * q, (const int (&)[N])a.a); { perm s = p; s /= q; vf_true("in-place quotient", s == r); } auto l = b.v(); p.apply_to(l); for (int i = 0; i < N; i++) vf_true("applied to a line", l[i] == e[i]); bool eq = true, lt = false; for (int i = 0; i < N; i++) eq = eq && a.a[i] == b.a[i]; \
  vf_true("equality is equality of all images", (p == q) == eq && (p != q) != eq); vf_true("exactly one of <, ==, >", (p < q) + (q < p) + (p == q) == 1 && (p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q)); \
  { perm s = p; s *= s; int f[N]; for (int i = 0; i < N; i++) f[i] = a[a[i]]; same<N>(s, f); s = p; s /= s; vf_true("p / p", s == perm(N)); } }
#define PPOW(N, T) W(power_##N##_##T) { line<N> a(0); perm p(a.v()); int e[N]; for (int i = 0; i < N; i++) { e[i] = i; for (int t = 0; t < T; t++) e[i] = a[e[i]]; } perm r = p.pow(T); same<N>(r, e); vf_true("power equals the product", r == [&] { perm s(N); for (int t = 0; t < T; t++) s *= p; return s; }()); perm i = p.pow(-T); vf_true("negative power undoes the power", i * r == perm(N) && r * i == perm(N)); same<N>(p.pow(T + 1000000000000ll * 60), e); vf_true("inverse", p * p.inv() == perm(N) && p.inv() * p == perm(N)); }
// roots: against every candidate
#define PROOT(N, T) W(root_##N##_##T) { line<N> a(0); perm p(a.v()); int x = 0; bool ex = false, par[2] = { false, false }; int c[N]; for (int i = 0; i < N; i++) c[i] = i; do { bool is = true; int inv = 0; for (int i = 0; i < N; i++) { int y = i; for (int t = 0; t < T; t++) y = c[y]; is = is && y == a.a[i]; for (int j = 0; j < i; j++) inv ^= c[j] > c[i]; } ex = ex || is; par[inv] = par[inv] || is; } while (std::next_permutation(c, c + N)); \
  for (int k = -1; k < 2; k++) { perm r = p.root(T, k); bool e = k < 0 ? ex : par[k]; vf_true("a root is found exactly when there is one", (r.n == N) == e && (e || r.n == 0)); if (e) { same<N>(r.pow(T), (const int (&)[N])a.a); valid<N>(r.to_cycles(), 1); if (k >= 0) vf_true("parity of the root", (int)r.to_transpositions().size() % 2 == k); } } }
PLINE(1) PLINE(2) PLINE(3) PLINE(4) PMUL(1) PMUL(2) PMUL(3) PPOW(1, 2) PPOW(3, 0) PPOW(3, 1) PPOW(3, 2) PPOW(4, 2) PPOW(4, 3) PROOT(2, 1) PROOT(2, 2) PROOT(3, 2) PROOT(3, 3) PROOT(4, 2) PROOT(4, 3) PROOT(4, 4)
W(empty) { perm p; vf_true("empty permutation", p.to_line().size() == 0 && p * p == p && p.inv() == p && p.pow(5) == p); }
// combinations: both parts sorted, every multiset
#define COMB(N, K, A) W(combination_##N##_##K##_##A) { int a[N + 1], b[N + 1]; for (int i = 0; i < N; i++) b[i] = a[i] = pick(i, A); for (int i = 1; i < N; i++) if (i != K) vf_assume(a[i - 1] <= a[i]); bool r = next_combination(a, a + K, a + N); \
  int best[N + 1]; bool any = false; for (int i = 0; i < N; i++) best[i] = -1; for (int m = 0; m < (1 << N); m++) if (__builtin_popcount(m) == K) { int c[N + 1], x = 0, y = K; for (int i = 0; i < N; i++) { if (m >> i & 1) c[x++] = b[i]; else c[y++] = b[i]; } for (int q = 0; q < N; q++) for (int i = 1; i < N; i++) if (i != K && c[i - 1] > c[i]) std::swap(c[i - 1], c[i]); \
    int gt = 0, lt = 0; for (int i = K - 1; i >= 0; i--) { if (c[i] != b[i]) gt = c[i] > b[i]; if (c[i] != best[i]) lt = c[i] < best[i]; } if (gt && (!any || lt)) { any = true; for (int i = 0; i < N; i++) best[i] = c[i]; } } \
  vf_true("reports whether there was a next one", r == any); if (any) for (int i = 0; i < N; i++) vf_true("next combination in order", a[i] == best[i]); else for (int i = 1; i < N; i++) vf_true("starts over sorted", a[i - 1] <= a[i]); }
COMB(1, 1, 2) COMB(2, 1, 3) COMB(3, 1, 3) COMB(3, 2, 3) COMB(4, 2, 3) COMB(4, 3, 2) COMB(4, 1, 2) COMB(3, 0, 2) COMB(3, 3, 2) COMB(5, 2, 2) COMB(5, 3, 2)
// partitions of S into at most N parts
#define PART(N, S) W(partition_##N##_##S) { int a[N], b[N], s = 0; for (int i = 0; i < N; i++) { b[i] = a[i] = pick(i, S + 1); if (i) vf_assume(a[i] <= a[i - 1]); s += a[i]; } vf_assume(s == S); bool r = next_partition(a, a + N); \
  int c[N], best[N]; bool any = false; for (int i = 0; i < N; i++) c[i] = 0, best[i] = -1; while (true) { int t = 0; bool ok = true; for (int i = 0; i < N; i++) { t += c[i]; ok = ok && (i == 0 || c[i] <= c[i - 1]); } if (ok && t == S) { int lt = 0, gt = 0; for (int i = N - 1; i >= 0; i--) { if (c[i] != b[i]) lt = c[i] < b[i]; if (c[i] != best[i]) gt = c[i] > best[i]; } if (lt && (!any || gt)) { any = true; for (int i = 0; i < N; i++) best[i] = c[i]; } } int k = 0; while (k < N && ++c[k] > S) c[k++] = 0; if (k == N) break; } \
  vf_true("reports whether there was a next one", r == any); for (int i = 0; i < N; i++) vf_true(any ? "next partition in order" : "starts over", a[i] == (any ? best[i] : i == 0 ? S : 0)); }
PART(1, 3) PART(2, 4) PART(2, 5) PART(3, 4) PART(3, 6) PART(4, 4) PART(4, 5)
#define NTH(N) W(nth_##N) { int f = 1; for (int i = 2; i <= N; i++) f *= i; int o = pick(0, 4), a[N], b[N]; o += 4 * pick(1, 8); vf_assume(o < 2 * f); for (int i = 0; i < N; i++) a[i] = b[i] = 10 + i; nth_permutation(a, a + N, o); for (int k = 0; k < f; k++) { if (o == k || o == k + f) for (int i = 0; i < N; i++) vf_true("n-th permutation, modulo their number", a[i] == b[i]); std::next_permutation(b, b + N); } }
NTH(1) NTH(2) NTH(3)
// folds
#define RED(N) W(reduce_##N) { std::vector<R> v; R s(0), p(1), q = rsym(60); for (int i = 0; i < N; i++) { v.push_back(rsym(i)); s += v[i]; p *= v[i]; q = rhandle(q, ring_fn2(50, q.h, v[i].h)); } EQ("sum", reduce_sum(v), s); EQ("product", reduce_product(v), p); EQ("sum from a start", reduce_sum(v, rsym(61)), s + rsym(61)); EQ("left to right", reduce(v, [](const R& a, const R& b) { return rhandle(a, ring_fn2(50, a.h, b.h)); }, rsym(60)), q); }
RED(0) RED(1) RED(3)
#define EXT(T, TAG, LO) W(extremes_##TAG) { static const T V[] = { (T)(LO), 0, 1, std::numeric_limits<T>::max() }; std::vector<T> v; T mn = std::numeric_limits<T>::max(), mx = (T)(LO); for (int i = 0; i < 2; i++) { int k = pick(i, 4); T x = V[0]; for (int j = 1; j < 4; j++) if (k == j) x = V[j]; v.push_back(x); mn = std::min(mn, x); mx = std::max(mx, x); } vf_true("minimum", reduce_min(v) == mn); vf_true("maximum", reduce_max(v) == mx); v.clear(); vf_true("of nothing", reduce_min(v) == std::numeric_limits<T>::max() && reduce_max(v) <= 0); }
EXT(int, int, -INT32_MAX) EXT(unsigned, unsigned, 0) EXT(int64_t, int64, -INT64_MAX) EXT(uint8_t, uint8, 0)
#define MEX(N) W(mex_##N) { std::vector<int> v; for (int i = 0; i < N; i++) { v.push_back(pick(i, 5) - 1); if (i) vf_assume(v[i - 1] <= v[i]); } int r = reduce_mex(v); vf_true("not negative", r >= 0); for (int k = 0; k <= N; k++) { bool in = false; for (int x : v) in = in || x == k; if (r == k) vf_true("absent", !in); if (r > k) vf_true("everything below is present", in); } vf_true("at most the size", r <= N); }
MEX(0) MEX(1) MEX(2) MEX(3)
// Farey neighbours: the next fraction of denominator at most n above (below) f
#define FAR(N, Q) W(farey_##N##_##Q) { int n = N, p = pick(0, 2 * Q + 3) - Q - 1; bool cop = true; for (int d = 2; d <= Q; d++) cop = cop && !(p % d == 0 && Q % d == 0); vf_assume(cop); fraction<int> f(p, Q); int hp = 0, hq = 0, lp = 0, lq = 0; for (int q = 1; q <= N; q++) for (int a = -3 * N; a <= 3 * N; a++) { if (a * Q > p * q && (hq == 0 || a * hq < hp * q)) hp = a, hq = q; if (a * Q < p * q && (lq == 0 || a * lq > lp * q)) lp = a, lq = q; } \
  auto h = farey_neighbour<int>(n, fraction<int>(lp, lq), f); vf_true("next above, from the one below", h.p == hp && h.q == hq); auto l = farey_neighbour<int>(n, fraction<int>(hp, hq), f); vf_true("next below, from the one above", l.p == lp && l.q == lq); \
  h = farey_neighbour<int>(n, fraction<int>(-1, 0), f); vf_true("next above, from minus infinity", h.p == hp && h.q == hq); l = farey_neighbour<int>(n, fraction<int>(1, 0), f); vf_true("next below, from infinity", l.p == lp && l.q == lq); }
FAR(1, 1) FAR(2, 1) FAR(2, 2) FAR(3, 2) FAR(4, 3) FAR(5, 3) FAR(5, 4)
#define DEC(B, Q) W(decimal_##B##_##Q) { int p = pick(0, Q - 1) + 1; auto r = repeating_decimal<int>(B, p, Q); int n = (int)r.first.size(), k = (int)r.second; vf_true("repetition within the digits", k >= 0 && k <= n && n >= 1); int e[Q + 4], rem[Q + 5]; rem[0] = p; for (int i = 0; i <= Q + 3; i++) { e[i] = rem[i] * B / Q; rem[i + 1] = rem[i] * B % Q; } int first = -1, from = -1; for (int j = 1; j <= Q && first < 0; j++) for (int i = 0; i < j; i++) if (rem[i] == rem[j] || rem[j] == 0) { if (first < 0) first = j, from = rem[j] == 0 ? j : i; } \
  vf_true("number of digits", n == first); vf_true("length of the repetition", k == first - from); for (int i = 0; i < n; i++) for (int j = 0; j <= Q; j++) if (i == j) vf_true("digits", r.first[i] == e[j]); \
  for (int i = 0; i <= Q; i++) { int x = -1; vf_true("single digit", rational_digit<int>(i, B, p, Q, &x) == e[i] && x == rem[i]); } for (int s = 0; s < 3; s++) { auto d = rational_digits<int>(s, 3, B, p, Q); vf_true("digits from the middle", d.size() == 3 && d[0] == e[s] && d[1] == e[s + 1] && d[2] == e[s + 2]); } vf_true("no digits", rational_digits<int>(1, 0, B, p, Q).empty()); }
DEC(10, 3) DEC(10, 4) DEC(2, 3) DEC(10, 6) DEC(10, 7) DEC(3, 4) DEC(2, 6)
#ifdef VF_BIG
PLINE(5) PMUL(4) PPOW(5, 2) PPOW(5, 6) PROOT(5, 2) PROOT(5, 3) COMB(5, 3, 3) COMB(5, 2, 3) PART(5, 7) PART(4, 8) NTH(4) FAR(6, 5) FAR(7, 4) DEC(10, 12) DEC(7, 9)
#endif
