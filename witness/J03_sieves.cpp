#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "altruct/algorithm/math/factorization.h"
using namespace altruct::math;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
// what the tables mean, by trial division
INL bool isp(int64_t n) { bool r = n > 1; for (int64_t d = 2; d * d <= n; d++) r = r && n % d != 0; return r; }
INL int64_t phi_(int64_t n) { if (n == 0) return 0; int64_t r = n, m = n; for (int64_t d = 2; d * d <= m; d++) if (m % d == 0) { r = r / d * (d - 1); while (m % d == 0) m /= d; } if (m > 1) r = r / m * (m - 1); return r; }
INL int mu_(int64_t n) { if (n == 0) return 0; int r = 1; for (int64_t d = 2; d * d <= n; d++) if (n % d == 0) { n /= d; r = -r; if (n % d == 0) r = 0; while (n % d == 0) n /= d; } return n > 1 ? -r : r; }
INL int nu_(int n) { int r = 0; if (n == 0) return 0; for (int d = 2; d * d <= n; d++) if (n % d == 0) { r++; while (n % d == 0) n /= d; } return r + (n > 1); }
static constexpr int PI[] = { 0, 0, 0, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6, 6, 6, 7, 7, 8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 10, 10, 11, 11, 11, 11, 11, 11, 12, 12 };
static const int PR[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61 };
template<class T> struct arr { T* p; INL arr(size_t n) { p = new T[n]; } INL ~arr() { delete[] p; } INL operator T*() { return p; } }; // exactly as large as documented
#define TABLES(N) W(tables_##N) { const int M = PI[N]; arr<int> p(N), r(M), pi(N), phi(N), mu(N), nu(N), d0(N), f(N), s(N); arr<char> q(N), q2(N); arr<int64_t> d1(N); \
  vf_true("number of primes", primes(r, q, N) == M); vf_true("number of primes, primes only", primes(p, nullptr, N) == M); vf_true("number of primes, flags only", primes(nullptr, q2, N) == M); for (int i = 0; i < M; i++) vf_true("list of primes", p[i] == PR[i] && r[i] == PR[i]); for (int i = 0; i < N; i++) vf_true("prime flags", q[i] == isp(i) && q2[i] == isp(i)); \
  prime_pi(pi, N, r, M); euler_phi(phi, N, r, M); moebius_mu(mu, N); prime_nu(nu, N, r, M); divisor_sigma0(d0, N); divisor_sigma1(d1, N); factor(f, N, r, M); smallest_factor(s, N); \
  for (int i = 0, c = 0; i < N; i++) { c += isp(i); vf_true("prime counts", pi[i] == c); vf_true("Euler phi", phi[i] == phi_(i)); vf_true("Moebius mu", mu[i] == mu_(i)); vf_true("numbers of prime factors", nu[i] == nu_(i)); if (i > 0) { int n = 0; int64_t t = 0; for (int d = 1; d <= i; d++) if (i % d == 0) n++, t += d; vf_true("numbers of divisors", d0[i] == n); vf_true("sums of divisors", d1[i] == t); } \
    if (i > 1) { int b = 0, a = 0; for (int d = i; d >= 2; d--) if (i % d == 0 && isp(d)) { if (!b) b = d; a = d; } vf_true("biggest prime factor", f[i] == b); vf_true("smallest prime factor, zero for primes", s[i] == (a == i ? 0 : a)); } } }
TABLES(0) TABLES(1) TABLES(2) TABLES(3) TABLES(4) TABLES(5) TABLES(6) TABLES(9) TABLES(10) TABLES(16) TABLES(25) TABLES(26) TABLES(31) TABLES(37)
// every segment [b, e)
#define SEG(B0, NB, LEN, M) W(segment_##B0##_##LEN##_##M) { int64_t b = B0 + pick(0, NB), e = b + LEN; const int m = M; arr<char> q(LEN); arr<int64_t> phi(LEN), tmp(LEN), mu(LEN); segmented_q(q, b, e, PR, m); segmented_phi(phi, tmp, b, e, PR, m); segmented_mu(mu, b, e, PR, m); \
  for (int64_t v = B0; v < B0 + NB; v++) if (b == v) for (int i = 0; i < LEN; i++) { vf_true("prime flags of the segment", q[i] == isp(v + i)); vf_true("Euler phi of the segment", phi[i] == phi_(v + i)); vf_true("Moebius mu of the segment", mu[i] == mu_(v + i)); } }
SEG(0, 20, 0, 3) SEG(0, 20, 1, 3) SEG(0, 20, 3, 3) SEG(0, 20, 5, 4) SEG(20, 30, 7, 4) SEG(100, 21, 12, 5) SEG(3, 2, 6, 9)
// factorizations of every n
INL int lambda_(int k) { int lam = 0; for (int l = 1; l <= k && lam == 0; l++) { bool all = true; for (int a = 1; a < k; a++) { int x = 1, y = a, t = k; while (t) { int r = y % t; y = t; t = r; } if (y == 1) { for (int i = 0; i < l; i++) x = x * a % k; all = all && (k == 1 || x == 1); } } if (all) lam = l; } return lam; }
#define FAC(N0, NN, STEP) W(factor_##N0) { int lam[N0 + NN]; for (int k = 1; k < N0 + NN; k++) lam[k] = lambda_(k); for (int g = 0; g < NN; g += STEP) { const int lo = N0 + g; int n = lo + pick(g, STEP); int f[N0 + NN]; factor(f, N0 + NN, PR, PI[36]); \
  auto good = [&](const std::vector<std::pair<int, int>>& v, const char*) { int prod = 1; for (auto& x : v) { bool pr = false; for (int k = 2; k < N0 + NN; k++) if (x.first == k) pr = isp(k); vf_true("factors are prime", pr && x.second > 0); for (int k = 0; k < 8; k++) if (k < x.second) prod *= x.first; } vf_true("product of the factors", prod == n); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) vf_true("each prime once", v[i].first != v[j].first); }; \
  std::vector<std::pair<int, int>> v; factor_integer(v, n, f); good(v, ""); auto w = factor_integer_slow(n); good(w, ""); vf_true("from factorization", from_factorization(v) == n); \
  int d0 = 0, d1 = 0; for (int d = 1; d < N0 + NN; d++) { bool div = false; for (int k = lo; k < lo + STEP; k++) if (n == k) div = k % d == 0; d0 += div; } vf_true("number of divisors", divisor_sigma0(v) == d0); for (int k = lo; k < lo + STEP; k++) if (n == k) { vf_true("Euler phi", euler_phi(v) == phi_(k)); \
    vf_true("Carmichael lambda", carmichael_lambda(v) == lam[k]); } \
  auto ds = divisors<int>(v); vf_true("all divisors", (int)ds.size() == d0); for (size_t i = 0; i < ds.size(); i++) { bool div = false; for (int k = lo; k < lo + STEP; k++) if (n == k) for (int d = 1; d <= k; d++) if (ds[i] == d) div = k % d == 0; vf_true("only divisors", div); if (i) vf_true("in order, each once", ds[i - 1] < ds[i]); } \
  auto small = divisors<int>(v, 6); int c6 = 0; for (int d = 1; d <= 6; d++) for (int k = lo; k < lo + STEP; k++) if (n == k) c6 += k % d == 0; vf_true("divisors up to a bound", (int)small.size() == c6); for (int d : small) vf_true("divisors up to a bound", d <= 6); \
  std::vector<int> sq; squarefree_signed_divisors(sq, v); int s = 0, cnt = 1; for (int d : sq) s += d < 0 ? -1 : 1; for (auto& x : v) cnt *= 2; vf_true("signed squarefree divisors", (int)sq.size() == cnt && s == (n == 1)); \
  auto pf = prime_factors(v); auto pe = prime_exponents(v); vf_true("factors and exponents", pf.size() == v.size() && pe.size() == v.size()); for (size_t i = 0; i < v.size(); i++) vf_true("factors and exponents", pf[i] == v[i].first && pe[i] == v[i].second); } }
FAC(1, 12, 4) FAC(13, 12, 4) FAC(25, 12, 4)
W(factor_product) { int f[13]; factor(f, 13, PR, 5); std::vector<int> n{ pick(0, 12) + 1, pick(1, 12) + 1 }; int a = n[0], b = n[1]; std::vector<std::pair<int, int>> v; factor_integer(v, n, f); int prod = 1; for (auto& x : v) for (int k = 0; k < 8; k++) if (k < x.second) prod *= x.first; vf_true("product of the factors of several numbers", prod == a * b); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) vf_true("each prime once", v[i].first != v[j].first); std::map<int, int> mf; factor_integer_to_map(mf, a, f); factor_integer_to_map(mf, b, f); vf_true("the same as a map", mf.size() == v.size()); for (auto& x : v) vf_true("the same as a map", mf[x.first] == x.second); }
W(factor_out) { int n = pick(0, 30) + 1, p = pick(1, 4) + 2, e = 1; int m = factor_out(n, p, e); for (int k = 1; k <= 30; k++) for (int q = 2; q < 6; q++) if (n == k && p == q) { int x = k, y = 1; while (x % q == 0) x /= q, y++; vf_true("the factor is divided out", m == x); vf_true("exponent is added", e == y); } }
// digits
#define DIG(B, N, LEN) W(digits_##B##_##LEN) { int n = pick(0, N); auto d = integer_digits(n, B, LEN); int x = n, c = 0; while (x > 0) x /= B, c++; vf_true("number of digits", (int)d.size() == std::max(c, LEN)); x = n; for (size_t i = 0; i < d.size(); i++) { vf_true("digits, least first", d[i] == x % B); x /= B; } vf_true("from digits", from_digits<int>(d, B) == n); }
DIG(2, 32, 0) DIG(10, 120, 0) DIG(3, 30, 4) DIG(10, 40, 1)
// primality: trial division for the small ones, published primes and the smallest strong pseudoprimes to each set of bases for the rest
template bool altruct::math::miller_rabin<int64_t>(const int64_t&);
template bool altruct::math::miller_rabin<int>(const int&);
#define MR(A, B) W(primality_##A##_##B) { for (int n = A; n < B; n++) vf_true("prime exactly when only 1 and itself divide it", miller_rabin<int>(n) == isp(n)); }
MR(0, 64) MR(64, 160) MR(2040, 2056)
#define MRP(NAME, P, ...) W(primality_##NAME) { for (int64_t n : std::initializer_list<int64_t>{ __VA_ARGS__ }) vf_true("primality", miller_rabin<int64_t>(n) == P); }
MRP(primes_small, true, 2039, 2053, 65537, 9080189, 9080213) MRP(primes_medium, true, 1000000007, 2147483647, 4294967291, 4294967311, 4759123129, 4759123151) MRP(primes_large, true, 1000000000039, 1122004669637, 1000000000000037, 341550071728289, 341550071728361) MRP(primes_huge, true, 1000000000000000003, 2305843009213693951)
MRP(pseudoprimes_2, false, 2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751) MRP(pseudoprimes_23, false, 1373653, 1530787, 1987021, 2284453, 3116107, 25326001, 3215031751, 9080191) MRP(pseudoprimes_large, false, 4759123141, 1122004669633, 2152302898747, 3474749660383, 341550071728321) MRP(carmichael, false, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 41041, 825265, 321197185, 5394826801, 232250619601)
MRP(squares, false, 961, 5329, 9409, 3721, 1018081, 4165681, 10201 * 10201LL, 2147483647LL * 2147483647LL, 1000000007LL * 1000000009LL)
// general-purpose factorization: what a step returns divides the number, and the whole splits into primes
#define RHO(A, B) W(rho_##A##_##B) { for (int n = A; n < B; n++) { for (int k = 2; k < 5; k++) { int d = pollard_rho<int>(n, k, k, 50); vf_true("a divisor is found", n == 0 ? d == 0 : d > 0 && n % d == 0 && (n == 1 || d > 1)); } int r = pollard_rho_repeated<int>(n, 20, 50); vf_true("composites are split", n < 2 || isp(n) ? (r == n) || n == 2 : r > 1 && r < n && n % r == 0); } }
RHO(0, 100) RHO(540, 580)
#define GEN(A, B) W(general_factor_##A##_##B) { for (int n = A; n < B; n++) { auto v = factor_integer<int>(n); int m = n; bool ok = true; for (size_t i = 0; i < v.size(); i++) { ok = ok && isp(v[i].first) && v[i].second > 0; for (int j = 0; j < v[i].second; j++) { ok = ok && m % v[i].first == 0; m /= v[i].first; } ok = ok && m % v[i].first != 0; } vf_true("factors are prime, each once with its exponent", ok); vf_true("product of the factors", n == 0 ? v.size() == 0 : m == 1); } }
GEN(0, 50) GEN(50, 100) GEN(560, 580) GEN(1000, 1030)
W(general_factor_large) { for (int64_t n : std::initializer_list<int64_t>{ 1373653, 25326001, 999983LL * 1009, 9973LL * 9973, 4294967296LL, 600851475143LL, 1000000007 }) { auto v = factor_integer<int64_t>(n); int64_t m = n; bool ok = true; for (auto& x : v) { ok = ok && x.first > 1 && x.second > 0; for (int64_t d = 2; d < 100; d++) ok = ok && (x.first % d != 0 || x.first == d); for (int j = 0; j < x.second; j++) { ok = ok && m % x.first == 0; m /= x.first; } ok = ok && m % x.first != 0; } vf_true("product of the factors", ok && m == 1); } }
// every number up to the bound over the given primes, once, with its factorization
W(from_primes) { int N = pick(0, 40), u = pick(1, 4); std::vector<int> vp; if (u & 1) vp.push_back(3); if (u & 2) vp.push_back(2); vf_assume(N > 0); int seen[40]; for (int& x : seen) x = 0; from_primes<int>(vp, N, [&](const std::vector<std::pair<int, int>>& vf, int n) { int m = 1; for (auto& x : vf) { vf_true("allowed factors", x.second > 0 && ((x.first == 3 && (u & 1)) || (x.first == 2 && (u & 2)))); for (int i = 0; i < 6; i++) if (i < x.second) m *= x.first; } vf_true("factorization of the number", m == n); vf_true("within the bound", n >= 1 && n <= N); for (int k = 1; k < 40; k++) if (k == n) seen[k]++; });
  for (int k = 1; k < 40; k++) { int m = k; while (m % 3 == 0) m /= 3; bool o3 = m == 1; m = k; while (m % 2 == 0) m /= 2; bool o2 = m == 1; while (m % 3 == 0) m /= 3; bool in = k == 1 || (u == 3 && m == 1) || (u == 1 && o3) || (u == 2 && o2); vf_true("every number, once", seen[k] == (in && k <= N)); } }
INL int gcd_(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
W(reduce_lists) { for (int a = 1; a < 13; a += 1) for (int b = 1; b < 13; b += 5) for (int c = 1; c < 19; c += 1) for (int d = 2; d < 13; d += 4) { std::vector<int> n{ a, b }, m{ c, d }; fraction_reduce(n, m, [](int x, int y) { return gcd_(x, y); }); bool ok = n.size() == 2 && m.size() == 2 && n[0] * n[1] * c * d == a * b * m[0] * m[1]; for (int x : n) for (int y : m) ok = ok && x > 0 && y > 0 && gcd_(x, y) == 1; vf_true("the same quotient, in lowest terms", ok); } }
#ifdef VF_BIG
TABLES(17) TABLES(36) SEG(0, 32, 16, 4) SEG(200, 12, 10, 7)
#endif
