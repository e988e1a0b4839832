#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/algorithm/math/counting.h"
using namespace altruct::math;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
INL int vp_(int n, int p) { int e = 0; while (n > 0 && n % p == 0) n /= p, e++; return e; }
INL int un_(int n, int p) { while (n > 0 && n % p == 0) n /= p; return n; }
// exponent of p in n! and the rest of n! modulo m
INL int fe_(int n, int p) { int e = 0; for (int i = 1; i <= n; i++) e += vp_(i, p); return e; }
INL int fr_(int n, int p, int m) { int r = 1 % m; for (int i = 1; i <= n; i++) r = r * (un_(i, p) % m) % m; return r; }
INL int inv_(int a, int m) { for (int x = 0; x < m; x++) if (a * x % m == 1 % m) return x; return 0; }
// exponents of primes
#define EXPO(P, N) W(exponent_##P) { int n = pick(0, N), k = pick(1, N), l = pick(2, 5); int a = factorial_prime_exponent<int>(n, P), b = binomial_prime_exponent<int>(n + k, k, P); int ks[] = { n, k, l }; int c = multinomial_prime_exponent<int>(ks, ks + 3, P); std::vector<int> kv(ks, ks + 3); int d = multinomial_prime_exponent<int>(kv, P); \
  for (int x = 0; x < N; x++) if (n == x) { vf_true("exponent in a factorial", a == fe_(x, P)); for (int y = 0; y < N; y++) if (k == y) { vf_true("exponent in a binomial", b == fe_(x + y, P) - fe_(x, P) - fe_(y, P)); for (int z = 0; z < 5; z++) if (l == z) vf_true("exponent in a multinomial", c == fe_(x + y + z, P) - fe_(x, P) - fe_(y, P) - fe_(z, P) && d == c); } } }
EXPO(2, 12) EXPO(3, 12) EXPO(5, 8)
// multinomials
#define MULTI(A, B, C) W(multinomial_##A##_##B##_##C) { std::vector<int> k{ A, B, C }; int e = 1; for (int i = 1; i <= A + B + C; i++) e *= i; for (int i = 1; i <= A; i++) e /= i; for (int i = 1; i <= B; i++) e /= i; for (int i = 1; i <= C; i++) e /= i; EQ("multinomial", multinomial<R>(k, R(1)), R(e)); EQ("multinomial of a range", multinomial<R>(k.begin(), k.end(), R(1)), R(e)); std::vector<int> el; for (int i = 0; i < A; i++) el.push_back(3); for (int i = 0; i < B; i++) el.push_back(5); for (int i = 0; i < C; i++) el.push_back(9); EQ("multinomial of sorted elements", elements_multinomial<R>(el, R(1)), R(e)); }
MULTI(0, 0, 0) MULTI(1, 0, 0) MULTI(2, 3, 1) MULTI(0, 4, 0) MULTI(3, 0, 3) MULTI(1, 1, 1) MULTI(4, 2, 2) MULTI(1, 2, 0)
// factorials and binomials modulo prime powers
#define CPP(P, E, Q, N) W(factorial_##P##_##E) { const int q = Q; int n = pick(0, N); auto small = factorials_mod_pp_skipped<int>(P * E, P, E); auto big = factorials_mod_pp_skipped<int>(Q, P, E); vf_true("table sizes", small.size() == P * E + 1 && big.size() == Q + 1); \
  auto s0 = factorial_mod_pp_skipped_slow<int, int>(n, P, E); auto s1 = factorial_mod_pp_skipped<int, int>(n, P, E, small.data()); auto r0 = factorial_mod_pp_reduced_slow<int, int>(n, P, E); auto r1 = factorial_mod_pp_reduced<int, int>(n, P, E, small.data()); auto r2 = factorial_mod_pp_reduced_2<int, int>(n, P, E, big.data()); \
  for (int x = 0; x < N; x++) { int s = 1 % q; for (int i = 1; i <= x; i++) if (i % P) s = s * i % q; int f = fr_(x, P, q), e = fe_(x, P); if (x <= Q) vf_true("table of factorials without multiples of p", big[x < Q ? x : 0] == (x < Q ? s : 1 % q)); if (n == x) { vf_true("without multiples of p", s0.first == s && s0.second == x / P); vf_true("without multiples of p, by interpolation", s1.first == s && s1.second == x / P); vf_true("with p divided out", r0.first == f && r0.second == e); vf_true("with p divided out, by interpolation", r1.first == f && r1.second == e); vf_true("with p divided out, by table", r2.first == f && r2.second == e); } } }
CPP(2, 1, 2, 20) CPP(2, 2, 4, 20) CPP(2, 3, 8, 24) CPP(3, 1, 3, 20) CPP(3, 2, 9, 24) CPP(5, 1, 5, 20) CPP(2, 4, 16, 20) CPP(3, 3, 27, 30) CPP(5, 2, 25, 30) CPP(7, 1, 7, 20)
#define BPP(P, E, Q, N) W(binomial_##P##_##E) { const int q = Q; auto small = factorials_mod_pp_skipped<int>(P * E, P, E); auto big = factorials_mod_pp_skipped<int>(Q, P, E); for (int x = 0; x < N; x++) { int k = pick(x < 16 ? x : x + 8, x + 1); auto b0 = binomial_mod_pp_reduced_slow<int, int>(x, k, P, E), b1 = binomial_mod_pp_reduced<int, int>(x, k, P, E, small.data()), b2 = binomial_mod_pp_reduced_2<int, int>(x, k, P, E, big.data()); \
  for (int y = 0; y <= x; y++) { int f = fr_(x, P, q) * inv_(fr_(y, P, q) * fr_(x - y, P, q) % q, q) % q, e = fe_(x, P) - fe_(y, P) - fe_(x - y, P); if (k == y) { vf_true("binomial with p divided out", b0.first == f && b0.second == e); vf_true("by interpolation", b1.first == f && b1.second == e); vf_true("by table", b2.first == f && b2.second == e); } } } }
BPP(2, 1, 2, 14) BPP(2, 2, 4, 14) BPP(2, 3, 8, 14) BPP(3, 1, 3, 14) BPP(3, 2, 9, 16) BPP(5, 1, 5, 14) BPP(2, 4, 16, 18) BPP(5, 2, 25, 14) BPP(3, 3, 27, 12)
