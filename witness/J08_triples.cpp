#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/triples.h"
using namespace altruct::math;
INL int gcd_(int a, int b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int r = a % b; a = b; b = r; } return a; }
INL std::vector<std::pair<int, int>> fac_(int n) { std::vector<std::pair<int, int>> r; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; r.push_back({ p, e }); } return r; }
typedef std::vector<triple<int>> VT;
// v has every wanted triple once: count of wanted ones, each present, none twice
template<class F> INL void exact(const VT& v, int n, bool sorted, F want) { int cnt = 0; bool in = true, each = true, bound = true; for (int a = 0; a <= n; a++) for (int b = sorted ? a : 0; b <= n; b++) for (int c = 0; c <= n; c++) if (want(a, b, c)) { cnt++; int k = 0; for (auto& t : v) k += (t.a == a && t.b == b || sorted && t.a == b && t.b == a) && t.c == c; in = in && k > 0; each = each && k == 1; } \
  vf_true("every triple", in); vf_true("each once", each); vf_true("no other triple", (int)v.size() == cnt); }
#define LIM(N) W(limit_##N) { for (int p = 0; p < 2; p++) { auto prim = [&](int a, int b, int c) { return !p || gcd_(gcd_(a, b), c) == 1; }; \
  auto v = pythagorean_triples<int>(N, p); exact(v, N, true, [&](int a, int b, int c) { return a > 0 && a * a + b * b == c * c && prim(a, b, c); }); for (auto& t : v) vf_true("in order", t.a < t.b && t.b < t.c); \
  v = eisenstein_triples60<int>(N, p); exact(v, N, true, [&](int a, int b, int c) { return a > 0 && a * a + c * c == b * b + a * c && b <= c && prim(a, b, c); }); for (auto& t : v) vf_true("in order", t.a <= t.b && t.b <= t.c); \
  v = eisenstein_triples120<int>(N, p); exact(v, N, true, [&](int a, int b, int c) { return a > 0 && a * a + b * b + a * b == c * c && prim(a, b, c); }); for (auto& t : v) vf_true("in order", t.a < t.b && t.b < t.c); } } \
W(almost_##N) { auto v = almost_pythagorean_triples<int>(N); exact(v, N, false, [&](int a, int b, int c) { return a > 0 && b > 0 && a * a + b * b == c * c + 1; }); }
LIM(1) LIM(2) LIM(3) LIM(4) LIM(5) LIM(7) LIM(8) LIM(13) LIM(20) LIM(25) LIM(26) LIM(31) LIM(37) LIM(41) LIM(50)
#define LEG(L) W(leg_##L) { auto v = pythagorean_triples_fixed_leg<int, int>(L, fac_(L)); int n = 0; bool in = true; for (int b = 1; b * 2 <= L * L; b++) { int c = 1, t = L * L + b * b; while (c * c < t) c++; if (c * c == t) { n++; int k = 0; for (auto& x : v) k += x.b == b && x.c == c; in = in && k == 1; } } vf_true("every triple with the leg, once", in); vf_true("no other triple", (int)v.size() == n); for (auto& x : v) vf_true("the leg", x.a == L); }
LEG(1) LEG(2) LEG(3) LEG(4) LEG(5) LEG(6) LEG(7) LEG(8) LEG(9) LEG(10) LEG(12) LEG(15) LEG(16) LEG(20) LEG(24) LEG(30)
// a^2 + b^2 + k = c^2: primitive ones up to the bound (the degenerate (0, 1, 1), (0, 0, 1) of k = 0, 1 aside), generators are those without a predecessor
#define GEN(K, N) W(generate_##K##_##N) { auto g = pythagorean_triples_generators<int>(K); for (auto& t : g) vf_true("generator", t.a * t.a + t.b * t.b + K == t.c * t.c && is_primitive(t) && (K < 2 || is_pythagorean_triple_generator(t)) && t.a <= t.b && max_element(t) == t.c && min_element(t) == t.a); auto v = generate_pythagorean_triples<int>(N, g); exact(v, N, true, [&](int a, int b, int c) { return a * a + b * b + K == c * c && gcd_(gcd_(a, b), c) == 1 && (K > 1 || a > 0); }); }
GEN(0, 17) GEN(1, 18) GEN(2, 17) GEN(3, 18) GEN(4, 15) GEN(5, 20) GEN(6, 20) GEN(7, 25) GEN(8, 25) GEN(9, 25) GEN(11, 25) GEN(12, 25) GEN(0, 37) GEN(1, 33)
