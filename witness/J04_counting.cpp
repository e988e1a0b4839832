#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/mertens.h"
using namespace altruct::math;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
INL bool isp(int64_t n) { bool r = n > 1; for (int64_t d = 2; d * d <= n; d++) r = r && n % d != 0; return r; }
INL int mu_(int64_t n) { if (n == 0) return 0; int r = 1; for (int64_t d = 2; d * d <= n; d++) if (n % d == 0) { n /= d; r = -r; if (n % d == 0) r = 0; while (n % d == 0) n /= d; } return n > 1 ? -r : r; }
INL int phi_(int64_t n) { if (n == 0) return 0; int64_t r = n, m = n; for (int64_t d = 2; d * d <= m; d++) if (m % d == 0) { r = r / d * (d - 1); while (m % d == 0) m /= d; } if (m > 1) r = r / m * (m - 1); return r; }
template<int N> struct tri { int64_t a[N + 1][N + 1]; };
template<int N> INL tri<N> s1_() { tri<N> t; for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) t.a[i][j] = i == 0 || j == 0 ? i == j : t.a[i - 1][j - 1] - (i - 1) * t.a[i - 1][j]; return t; }
template<int N> INL tri<N> s2_() { tri<N> t; for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) t.a[i][j] = i == 0 || j == 0 ? i == j : t.a[i - 1][j - 1] + j * t.a[i - 1][j]; return t; }
// Stirling numbers: tables, rows, columns, single terms
#define STIRLING(N, K) W(stirling_##N##_##K) { auto a = s1_<N>(); auto b = s2_<N>(); auto t1 = stirling_s1_all<R>(N, K, R(1)); auto t2 = stirling_s2_all<R>(N, K, R(1)); vf_true("number of rows", t1.size() == N && t2.size() == N); for (int i = 0; i < N; i++) { const int w = i + 1 < K ? i + 1 : K; vf_true("length of a row", t1[i].size() == w && t2[i].size() == w); for (int j = 0; j < w; j++) { EQ("first kind, table", t1[i][j], R((int)a.a[i][j])); EQ("second kind, table", t2[i][j], R((int)b.a[i][j])); } } \
  auto r1 = stirling_s1_all_k_for_n<R>(N, R(1)); auto r2 = stirling_s2_all_k_for_n<R>(N, R(1)); vf_true("length of the row", (int)r1.size() >= N + 1 && r2.size() == N + 1); for (int j = 0; j <= N; j++) { EQ("first kind, row", r1[j], R((int)a.a[N][j])); EQ("second kind, row", r2[j], R((int)b.a[N][j])); } \
  if (K <= N && N > 0) { auto c1 = stirling_s1_all_n_for_k<R>(N, K, R(1)); auto c2 = stirling_s2_all_n_for_k<R>(N, K, R(1)); vf_true("length of the column", c1.size() == N && c2.size() == N); for (int i = 0; i < N; i++) { EQ("first kind, column", c1[i], R((int)a.a[i][K])); EQ("second kind, column", c2[i], R((int)b.a[i][K])); } } \
  for (int j = 0; j <= N; j++) { EQ("first kind", stirling_s1<R>(N, j, R(1)), R((int)a.a[N][j])); EQ("second kind", (stirling_s2<R, int>(N, j, R(1))), R((int)b.a[N][j])); } EQ("above the diagonal", stirling_s1<R>(N, N + 1, R(1)), R(0)); EQ("above the diagonal", (stirling_s2<R, int>(N, N + 1, R(1))), R(0)); EQ("negative", (stirling_s2<R, int>(N, -1, R(1))), R(0)); }
STIRLING(0, 1) STIRLING(1, 1) STIRLING(2, 1) STIRLING(3, 2) STIRLING(4, 4) STIRLING(5, 3) STIRLING(6, 7) STIRLING(7, 3) STIRLING(8, 5)
// partitions
#define PARTS(N) W(partitions_##N) { int64_t p[N + 1], q[N + 1], o[N + 1]; for (int i = 0; i <= N; i++) p[i] = q[i] = o[i] = i == 0; for (int k = 1; k <= N; k++) { for (int i = k; i <= N; i++) p[i] += p[i - k]; for (int i = N; i >= k; i--) q[i] += q[i - k]; if (k % 2) for (int i = N; i >= k; i--) o[i] += o[i - k]; } \
  int64_t e[N + 1]; for (int i = 0; i <= N; i++) e[i] = i == 0; for (int k = 1; k <= N; k++) for (int i = N; i >= k; i--) e[i] -= e[i - k]; \
  auto ve = euler_function<R>(N, R(1)); auto vp = partitions_p<R>(N, R(1)); auto vps = partitions_p_slow<R>(N, R(1)); auto vd = partitions_p_distinct<R>(N, R(1)); auto vds = partitions_p_distinct_slow<R>(N, R(1)); auto vo = partitions_p_distinct_odd<R>(N, R(1)); vf_true("sizes", ve.size() == N && vp.size() == N && vps.size() == N && vd.size() == N && vds.size() == N && vo.size() == N); \
  for (int i = 0; i < N; i++) { EQ("Euler function", ve[i], R((int)e[i])); EQ("partitions", vp[i], R((int)p[i])); EQ("partitions, by recurrence", vps[i], R((int)p[i])); EQ("partitions into distinct parts", vd[i], R((int)q[i])); EQ("partitions into distinct parts, by recurrence", vds[i], R((int)q[i])); EQ("partitions into distinct odd parts", vo[i], R((int)o[i])); } }
W(partitions_0) { vf_true("sizes", euler_function<R>(0, R(1)).size() == 0 && partitions_p_slow<R>(0, R(1)).size() == 0 && partitions_p_distinct_slow<R>(0, R(1)).size() == 0); }
PARTS(1) PARTS(2) PARTS(3) PARTS(6) PARTS(8) PARTS(13) PARTS(16) PARTS(27)
// sums over primes at every n / k
#define PRIMESUM(Z, LO, HI) W(prime_sum_##Z##_##LO) { for (int n = LO; n <= HI; n++) { auto s = prime_power_sum_sqrt<R, int>(Z, n, R(1)); for (int k = 1; k <= n; k++) { int e = 0; for (int i = 2; i <= n / k; i++) if (isp(i)) { int t = 1; for (int z = 0; z < Z; z++) t *= i; e += t; } EQ("sum over the primes up to n / k", s[n / k], R(e)); } EQ("sum of primes", (prime_sum<R, int>(n, R(1))), (prime_power_sum_sqrt<R, int>(1, n, R(1))[n])); } }
PRIMESUM(0, 1, 30) PRIMESUM(1, 1, 30) PRIMESUM(2, 1, 20) PRIMESUM(3, 8, 12) PRIMESUM(1, 48, 51)
#define PI13(LO, HI) W(prime_pi_##LO) { for (int n = LO; n <= HI; n++) { int e = 0, e1 = 0, e3 = 0; for (int i = 2; i <= n; i++) if (isp(i)) { e++; e1 += i % 4 == 1; e3 += i % 4 == 3; } vf_true("number of primes", prime_pi<int>(n) == e); vf_true("primes of the form 4k + 1", prime_pi1<int>(n) == e1); vf_true("primes of the form 4k + 3", prime_pi3<int>(n) == e3); if (n > 0) { auto r = prime_pi13_sqrt<int>(n); auto s = prime_pi_sqrt<int>(n); for (int k = 1; k <= n; k++) { int f = 0, f1 = 0, f3 = 0; for (int i = 2; i <= n / k; i++) if (isp(i)) { f++; f1 += i % 4 == 1; f3 += i % 4 == 3; } vf_true("at every n / k", s[n / k] == f && r[0][n / k] == f1 && r[1][n / k] == f3); } } } }
PI13(0, 20) PI13(21, 40) PI13(47, 51) PI13(97, 102)
W(prime_pi_old) { const int N = 60; int pi[N], p[N]; char q[N]; int m = primes(p, q, N); prime_pi(pi, N, p, m); int e = 0; for (int64_t n = 0; n <= 130; n++) { e += isp(n); vf_true("number of primes, older method", (prime_pi_deprecated<int64_t, int>(n, pi, p, 0) == e)); vf_true("with a table", (prime_pi_deprecated<int64_t, int>(n, pi, p, N) == e)); } }
// Mertens function and its odd and even parts
struct mtab { R a[64]; INL R& operator[](int64_t i) { return a[i]; } };
struct mmap { bool has[64]; R a[64]; INL mmap() { for (bool& b : has) b = false; } INL int count(int64_t i) const { return has[i]; } INL R& operator[](int64_t i) { has[i] = true; return a[i]; } };
#define MERTENS(N) W(mertens_##N) { int p[N + 9]; char q[N + 9]; int m = primes(p, q, N + 8); mtab a, b, c, d, f; sieve_mertens<R>(a, N, p, m, R(1)); sieve_mertens_odd<R>(b, N, p, m, R(1)); sieve_mertens_even<R>(c, N, R(1)); sieve_mertens_even_odd<R>(d, f, N, p, m, R(1)); int e = 0, e0 = 0, e1 = 0; for (int i = 0; i < N; i++) { e += mu_(i); (i % 2 ? e1 : e0) += mu_(i); EQ("sieved", a[i], R(e)); EQ("sieved, odd", b[i], R(e1)); EQ("sieved, even", c[i], R(e0)); EQ("sieved together, even", d[i], R(e0)); EQ("sieved together, odd", f[i], R(e1)); } }
MERTENS(0) MERTENS(1) MERTENS(2) MERTENS(3) MERTENS(10) MERTENS(24)
#define MERTENS1(LO, HI) W(mertens_at_##LO) { for (int n = LO; n <= HI; n++) { const int e1 = [n]() { int s = 0; for (int i = 1; i <= n; i += 2) s += mu_(i); return s; }(), e0 = [n]() { int s = 0; for (int i = 2; i <= n; i += 2) s += mu_(i); return s; }(); std::map<int, R> t, t1, t0; EQ("one value", (mertens<R, int>(n, t, R(1))), R(e0 + e1)); EQ("one value, odd", (mertens_odd<R, int>(n, t1, R(1))), R(e1)); EQ("one value, even", (mertens_even<R, int>(n, t0, R(1))), R(e0)); \
  if (n > 0) { int p[40]; char q[80]; int m = primes(p, q, 40); auto pi = prime_pi_sqrt<int64_t>(n); auto s = mertens<R>((int64_t)n, pi, p, m, R(1)); auto s1 = mertens_odd<R>((int64_t)n, pi, p, m, R(1)); auto s0 = mertens_even<R>((int64_t)n, pi, p, m, R(1)); for (int k = 1; k <= n; k++) { int f0 = 0, f1 = 0; for (int i = 1; i <= n / k; i++) (i % 2 ? f1 : f0) += mu_(i); EQ("at every n / k", s[n / k], R(f0 + f1)); EQ("odd, at every n / k", s1[n / k], R(f1)); EQ("even, at every n / k", s0[n / k], R(f0)); } } } }
MERTENS1(0, 6) MERTENS1(7, 12) MERTENS1(24, 26) MERTENS1(36, 36)
// tables held together
#define HOLDER(N) W(prime_holder_##N) { prime_holder h(N); int c = 0; vf_true("size", h.size() == N); auto& pi = h.pi(); auto& phi = h.phi(); auto& mu = h.mu(); auto& nu = h.nu(); auto& q = h.q(); auto& mer = h.mertens(); int m = 0; vf_true("table sizes", pi.size() == N && phi.size() == N && mu.size() == N && nu.size() == N && q.size() == N && mer.size() == N && h.pf().size() == N); \
  for (int i = 0; i < N; i++) { c += isp(i); m += mu_(i); if (isp(i)) vf_true("primes", h.p(c - 1) == i); int w = 0; for (int d = 2; d <= i; d++) w += isp(d) && i % d == 0; vf_true("tables of the holder", q[i] == isp(i) && pi[i] == c && phi[i] == phi_(i) && mu[i] == mu_(i) && nu[i] == w && mer[i] == m && h.phi(i) == phi_(i) && h.pi(i) == c && h.mu(i) == mu_(i)); } vf_true("number of primes", h.primes() == c && h.p().size() == c); \
  for (int i = 1; i < N; i++) { auto v = h.factor_integer(i); int t = 1, prev = 0; for (auto& f : v) { vf_true("primes in order", isp(f.first) && f.first > prev && f.second > 0); prev = f.first; for (int k = 0; k < f.second; k++) t *= f.first; } vf_true("factorization", t == i); auto d = h.divisors(i); int k = 0; for (int x = 1; x <= i; x++) if (i % x == 0) { vf_true("divisors", k < (int)d.size() && d[k] == x); k++; } vf_true("number of divisors", (int)d.size() == k); } \
  if (N > 12) { auto v = h.factor_integer(std::vector<int>{ 12, 10 }); vf_true("product of several numbers", v.size() == 3 && v[0].first == 2 && v[0].second == 3 && v[1].first == 3 && v[1].second == 1 && v[2].first == 5 && v[2].second == 1); vf_true("its divisors", h.divisors(std::vector<int>{ 12, 10 }).size() == 16 && h.divisors(std::vector<int>{ 12, 10 }, 10).size() == 8); } }
HOLDER(1) HOLDER(2) HOLDER(3) HOLDER(10) HOLDER(39) HOLDER(40) HOLDER(41)
#define FHOLDER(N) W(factorial_holder_##N) { factorial_holder<R> h(N, R(1)); R f(1); for (int i = 0; i < N; i++) { if (i) f *= R(i); EQ("factorial", h.fact(i), f); EQ("inverse factorial", h.ifact(i), R(1) / f); if (i) EQ("inverse", h.inv(i), R(1) / R(i)); for (int k = 0; k <= i; k++) { int b = 1; for (int t = 1; t <= k; t++) b = b * (i - k + t) / t; EQ("binomial", h.bin(i, k), R(b)); } EQ("binomial above the diagonal", h.bin(i, i + 1), R(0)); } vf_true("size", h.size() == N && h.fact().size() == N && h.ifact().size() == N && h.inv().size() == N); }
FHOLDER(1) FHOLDER(2) FHOLDER(7)
#ifdef VF_BIG
STIRLING(10, 6) PARTS(40) PRIMESUM(1, 52, 64) PI13(103, 122) MERTENS1(37, 50) HOLDER(80) HOLDER(120)
#endif
