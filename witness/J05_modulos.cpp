#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "algorithm/math/modulos.cpp"
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
INL int gcd_(int a, int b) { while (b) { int r = a % b; a = b; b = r; } return a; }
INL int pw_(int a, int e, int m) { int r = 1 % m; for (int i = 0; i < e; i++) r = r * a % m; return r; }
INL int phi_(int n) { int r = 0; for (int i = 1; i <= n; i++) r += gcd_(i, n) == 1; return r; }
INL int order_(int a, int m) { int x = 1 % m; for (int k = 1; k <= m; k++) { x = x * a % m; if (x == 1 % m) return k; } return 0; }
INL bool isp(int n) { bool r = n > 1; for (int d = 2; d * d <= n; d++) r = r && n % d != 0; return r; }
INL std::vector<int> pf_(int n) { std::vector<int> r; for (int p = 2; p <= n; p++) if (n % p == 0 && isp(p)) r.push_back(p); return r; }
INL std::vector<std::pair<int, int>> fac_(int n) { std::vector<std::pair<int, int>> r; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; r.push_back({ p, e }); } return r; }
// two congruences, moduli need not be coprime
#define CRT(N1, N2) W(crt_##N1##_##N2) { int a1 = pick(0, N1), a2 = pick(1, N2), a = -1, n = -1; chinese_remainder(&a, &n, a1, N1, a2, N2); const int g = gcd_(N1, N2), l = N1 / g * N2; \
  for (int x = 0; x < N1; x++) for (int y = 0; y < N2; y++) if (a1 == x && a2 == y) { if (x % g == y % g) { vf_true("modulus is the least common multiple", n == l); int s = -1; for (int t = 0; t < l; t++) if (t % N1 == x && t % N2 == y) s = t; vf_true("solution of the congruences", a == s); } else vf_true("no solution", a == 0 && n == 0); } }
CRT(1, 1) CRT(1, 4) CRT(3, 4) CRT(4, 6) CRT(6, 4) CRT(8, 2) CRT(5, 5) CRT(7, 6)
// mixed radix digits
#define GARNER(A, B, C) W(garner_##A##_##B##_##C) { typedef moduloX<int> M; int u = pick(0, A * B * C); std::vector<M> v; const int ms[] = { A, B, C }; for (int p : ms) v.push_back(M(u % p, p)); auto x = garner(v); vf_true("one digit per modulus", x.size() == 3); int s = x[0].v + x[1].v * A + x[2].v * A * B; vf_true("digits of the number", s == u); for (int i = 0; i < 3; i++) vf_true("digits in range, moduli kept", x[i].v >= 0 && x[i].v < ms[i] && x[i].M() == ms[i]); }
GARNER(2, 3, 5) GARNER(5, 3, 4) GARNER(3, 7, 2) GARNER(1, 4, 3)
// Jacobi symbol: product of Legendre symbols
INL int legendre_(int n, int p) { n = (n % p + p) % p; if (n == 0) return 0; for (int x = 1; x < p; x++) if (x * x % p == n) return 1; return -1; }
#define JACOBI(M) W(jacobi_##M) { const int m = M; int n = pick(0, 2 * M); int j = jacobi(n, m), j2 = jacobi<int64_t>(n - M, m); for (int k = 0; k < 2 * m; k++) { int e = 1; for (auto& f : fac_(m)) for (int i = 0; i < f.second; i++) e *= legendre_(k, f.first); if (n == k) { vf_true("product of Legendre symbols", j == e); vf_true("of negative numbers", j2 == e); } } }
JACOBI(1) JACOBI(3) JACOBI(5) JACOBI(7) JACOBI(9) JACOBI(11) JACOBI(15) JACOBI(21) JACOBI(25)
// square roots
#define CIPOLLA(P) W(cipolla_##P) { int y = pick(0, P); bool qr = false; for (int x = 0; x < P; x++) for (int k = 0; k < P; k++) if (x * x % P == k && y == k && y != 0) qr = true; vf_assume(qr); int r = sqrt_cipolla<int>(y, P); for (int k = 0; k < P; k++) if (r == k) vf_true("squares to the number", y == k * k % P); vf_true("in range", r >= 0 && r < P); }
CIPOLLA(2) CIPOLLA(3) CIPOLLA(5) CIPOLLA(7) CIPOLLA(11) CIPOLLA(13) CIPOLLA(17)
#define HENSEL2(K) W(hensel_2_##K) { const int m = 1 << K; int y = pick(0, m / 2) * 2 + 1; auto r = sqrt_hensel_lift_p2<int>(y, K); for (int k = 1; k < m; k += 2) if (y == k) { bool any = false; for (int x = 0; x < m; x++) if (x * x % m == k) { any = true; vf_true("every root", r.first == x || r.second == x || r.first == m - x || r.second == m - x); } if (any) vf_true("only roots", r.first * r.first % m == k && r.second * r.second % m == k && r.first >= 0 && r.first < m && r.second >= 0 && r.second < m); else vf_true("no root", r.first == 0 && r.second == 0); } }
HENSEL2(1) HENSEL2(2) HENSEL2(3) HENSEL2(4) HENSEL2(5) HENSEL2(6)
#define HENSEL(P, K, Q) W(hensel_##P##_##K) { int y = pick(0, Q); bool qr = false; for (int x = 0; x < Q; x++) if (x % P != 0 && y == x * x % Q) qr = true; vf_assume(qr); int r = sqrt_hensel_lift<int>(y, P, K); vf_true("in range", r >= 0 && r < Q); for (int k = 0; k < Q; k++) if (r == k) vf_true("squares to the number", y == k * k % Q); }
HENSEL(3, 1, 3) HENSEL(3, 2, 9) HENSEL(3, 3, 27) HENSEL(5, 2, 25) HENSEL(7, 1, 7) HENSEL(7, 2, 49) HENSEL(3, 4, 81)
#define SQRTM(M) W(sqrt_mod_##M) { const int m = M; int y = pick(0, m); for (int k = 0; k < m; k++) if (gcd_(k, m) != 1) vf_assume(y != k); auto r = sqrt_mod<int>(y, fac_(m)); for (int k = 0; k < m; k++) if (gcd_(k, m) == 1 && y == k) { int n = 0; for (int x = 0; x < m; x++) if (x * x % m == k % m) { n++; bool in = false; for (int v : r) in = in || v == x; vf_true("every root", in); } vf_true("only roots, each once", (int)r.size() == n); } }
SQRTM(1) SQRTM(2) SQRTM(4) SQRTM(8) SQRTM(9) SQRTM(12) SQRTM(15) SQRTM(16) SQRTM(24) SQRTM(35)
// orders and roots
#define ORDER(M) W(order_##M) { const int m = M, phi = phi_(m); int a = pick(0, m); for (int k = 0; k < m; k++) if (gcd_(k, m) != 1) vf_assume(a != k); auto pf = pf_(phi); int o = multiplicative_order<int>(a, m, phi, pf); for (int k = 0; k < m; k++) if (gcd_(k, m) == 1) { int e = order_(k, m); if (a == k) vf_true("multiplicative order", o == e); } \
  int g = primitive_root<int>(m, phi, pf), gx = 0; for (int k = m - 1; k >= 1; k--) if (gcd_(k, m) == 1 && order_(k, m) == phi) gx = k; vf_true("least primitive root, or zero", g == gx); \
  int lam = 1; for (int k = 1; k < m; k++) if (gcd_(k, m) == 1) { int e = order_(k, m); lam = lam / gcd_(lam, e) * e; } int w = primitive_root_of_unity<int>(m, lam, pf_(lam)); bool ok = m == 1; for (int k = 1; k < m; k++) if (w == k) ok = gcd_(k, m) == 1 && order_(k, m) == lam; vf_true("root of unity of greatest order", ok); }
ORDER(1) ORDER(2) ORDER(3) ORDER(4) ORDER(5) ORDER(7) ORDER(8) ORDER(9) ORDER(12) ORDER(13) ORDER(15) ORDER(16) ORDER(18)
// k-th roots, for moduli with a primitive root
#define ROOTS(M) W(roots_##M) { const int m = M, phi = phi_(m); int g = 0; for (int k = m - 1; k >= 1; k--) if (gcd_(k, m) == 1 && order_(k, m) == phi) g = k; for (int k = 1; k <= 6; k++) { auto u = kth_roots_of_unity<int>(m, k, phi, g); int n = 0; for (int x = 1; x < m; x++) if (pw_(x, k, m) == 1) { n++; vf_true("every root of unity", u.count(x) == 1); } vf_true("only roots of unity", (int)u.size() == n); } \
  int k = pick(0, 6) + 1, l = pick(1, phi); auto r = kth_roots<int>(m, k, phi, g, l); for (int kk = 1; kk <= 6; kk++) for (int ll = 0; ll < phi; ll++) { const int t = pw_(g, ll, m); if (k == kk && l == ll) { int n = 0; for (int x = 1; x < m; x++) if (pw_(x, kk, m) == t) { n++; vf_true("every root", r.count(x) == 1); } vf_true("only roots", (int)r.size() == n); } } }
ROOTS(2) ROOTS(3) ROOTS(4) ROOTS(5) ROOTS(7) ROOTS(9) ROOTS(10)
// discrete logarithms
// one base at a time (the table of baby steps is then known), every target at once
template<int M, int A> INL void dlog() { const int m = M, phi = phi_(m); if (gcd_(A, m) != 1) return; auto pf = pf_(phi); int b = pick(0, m); for (int q = 0; q < m; q++) if (gcd_(q, m) != 1) vf_assume(b != q); int y = discrete_log_baby_giant<int>(A, b, m, phi); const int oo = order_(A, m);
  for (int q = 1; q < m; q++) if (gcd_(q, m) == 1) { int e = -1; for (int k = oo - 1; k >= 0; k--) if (pw_(A, k, m) == q) e = k; if (b == q) { if (e < 0) vf_true("no logarithm", y == -1); else { bool ok = false; for (int k = 0; k < 2 * m + 8; k++) if (y == k) ok = k % oo == e; vf_true("baby steps, giant steps", ok); } } } }
template<int M, int A> INL void dlogg() { const int m = M, phi = phi_(m); if (gcd_(A, m) != 1) return; auto pf = pf_(phi); int b = pick(0, m); const int oo = order_(A, m); for (int q = 0; q < m; q++) { bool in = false; for (int k = 0; k < oo; k++) in = in || pw_(A, k, m) == q; if (!in) vf_assume(b != q); } int o = 0; int x = discrete_log<int>(A, b, m, phi, pf, &o); vf_true("order", o == oo); vf_true("logarithm below the order", x >= 0 && x < oo);
  for (int k = 0; k < oo; k++) { int q = pw_(A, k, m); if (b == q) vf_true("logarithm", x == k); } }
template<int M> INL void brute() { const int m = M; int a = pick(0, m), b = pick(1, m); int x = discrete_log_brute_force<int>(a, b, m); for (int p = 1; p < m; p++) for (int q = 1; q < m; q++) { int e = -1; for (int k = m - 1; k >= 0; k--) if (pw_(p, k, m) == q) e = k; if (a == p && b == q) vf_true("least logarithm by trying all", x == e); } }
#define DLOG1(M, A) W(dlog_##M##_##A) { dlog<M, A>(); dlogg<M, A>(); }
#define BRUTE(M) W(dlog_all_##M) { brute<M>(); }
BRUTE(2) BRUTE(3) BRUTE(4) BRUTE(5) BRUTE(7) BRUTE(8) BRUTE(9)
DLOG1(2, 1) DLOG1(3, 1) DLOG1(3, 2) DLOG1(4, 3) DLOG1(5, 2) DLOG1(5, 4) DLOG1(7, 3) DLOG1(7, 2) DLOG1(8, 3) DLOG1(9, 2) DLOG1(9, 4) DLOG1(11, 2) DLOG1(13, 2) DLOG1(15, 7) DLOG1(16, 3)
#define DLOGP(P, S, M) W(dlog_power_##P##_##S) { const int m = M; int a = pick(0, m), b = pick(1, m); for (int p = 0; p < m; p++) for (int q = 0; q < m; q++) { bool in = false; if (gcd_(p, m) == 1) for (int k = 0; k < m; k++) in = in || pw_(p, k, m) == q; if (!in) vf_assume(!(a == p && b == q)); } int x = discrete_log_pp<int>(a, b, P, S); vf_true("not negative", x >= 0); \
  for (int p = 1; p < m; p++) if (gcd_(p, m) == 1) { int oo = order_(p, m); for (int k = 0; k < oo; k++) { int q = pw_(p, k, m); if (a == p && b == q) { bool ok = false; for (int t = 0; t < m; t++) if (x == t) ok = t % oo == k; vf_true("logarithm, modulo the order", ok); } } } }
DLOGP(3, 1, 3) DLOGP(3, 2, 9) DLOGP(5, 1, 5) DLOGP(2, 1, 2) DLOGP(2, 2, 4) DLOGP(2, 3, 8) DLOGP(2, 4, 16) DLOGP(7, 1, 7)
CRT(12, 10) CRT(9, 6) CRT(16, 12) GARNER(4, 3, 7) GARNER(7, 5, 2) JACOBI(27) JACOBI(35) JACOBI(45) CIPOLLA(19) CIPOLLA(23) CIPOLLA(29) HENSEL2(7) HENSEL(5, 3, 125) HENSEL(11, 2, 121) SQRTM(3) SQRTM(5) SQRTM(6) SQRTM(20) SQRTM(21) SQRTM(32) SQRTM(40) SQRTM(48) SQRTM(60) SQRTM(63)
ORDER(6) ORDER(10) ORDER(11) ORDER(14) ORDER(17) ORDER(20) ORDER(21) ORDER(24) ORDER(25) ORDER(27) ORDER(28) ORDER(30) ROOTS(6) ROOTS(11) ROOTS(13) ROOTS(18) BRUTE(6) BRUTE(10) BRUTE(11) BRUTE(12)
DLOG1(7, 6) DLOG1(9, 8) DLOG1(11, 3) DLOG1(13, 3) DLOG1(13, 12) DLOG1(16, 7) DLOG1(17, 3) DLOG1(19, 2) DLOG1(20, 3) DLOG1(21, 2) DLOG1(25, 2) DLOG1(25, 7) DLOG1(27, 4) DLOG1(29, 2) DLOGP(3, 3, 27) DLOGP(5, 2, 25) DLOGP(11, 1, 11) DLOGP(13, 1, 13) DLOGP(2, 5, 32)
#ifdef VF_BIG
DLOG1(49, 3) DLOG1(64, 5) DLOG1(81, 2) ORDER(49) ORDER(60) ORDER(81) SQRTM(120) HENSEL(3, 5, 243) JACOBI(63) ROOTS(27) ROOTS(17) BRUTE(19)
#endif
