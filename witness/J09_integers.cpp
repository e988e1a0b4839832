#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
using namespace altruct::math;
INL long ab(long x) { return x < 0 ? -x : x; }
INL long gcd_(long a, long b) { a = ab(a); b = ab(b); while (b) { long r = a % b; a = b; b = r; } return a; }
// a user-defined integer: takes the generic algorithms
struct Z { long v; INL Z(long v = 0) : v(v) {} INL Z operator-() const { return -v; } };
#define OP(o) INL Z operator o(Z a, Z b) { return Z(a.v o b.v); }
#define CM(o) INL bool operator o(Z a, Z b) { return a.v o b.v; }
OP(+) OP(-) OP(*) OP(/) OP(%) CM(<) CM(>) CM(==) CM(!=) CM(<=) CM(>=)
INL Z& operator*=(Z& a, Z b) { a.v *= b.v; return a; }
INL bool root2(long x, long r) { if (x < 0) return root2(-x, -r); return r >= 0 && r * r <= x && (r + 1) * (r + 1) > x; }
INL bool root2c(long x, long r) { if (x < 0) return root2c(-x, -r); return r >= 0 && r * r >= x && (r == 0 || (r - 1) * (r - 1) < x); }
INL bool root3(long x, long r) { if (x < 0) return root3(-x, -r); return r >= 0 && r * r * r <= x && (r + 1) * (r + 1) * (r + 1) > x; }
INL bool root3c(long x, long r) { if (x < 0) return root3c(-x, -r); return r >= 0 && r * r * r >= x && (r == 0 || (r - 1) * (r - 1) * (r - 1) < x); }
INL bool sq_(long x) { for (long r = 0; r * r <= x; r++) if (r * r == x) return true; return false; }
INL bool cb_(long x) { if (x < 0) x = -x; for (long r = 0; r * r * r <= x; r++) if (r * r * r == x) return true; return false; }
#define ROOTS(L, H) W(roots_##H) { for (int x = L; x < H; x++) { vf_true("square root, rounded towards 0", root2(x, isqrt(x))); vf_true("square root, rounded away from 0", root2c(x, isqrtc(x))); vf_true("cube root, rounded towards 0", root3(x, icbrt(x))); vf_true("cube root, rounded away from 0", root3c(x, icbrtc(x))); \
  vf_true("squares and cubes", isq(x) == (long)x * x && icb(x) == (long)x * x * x && sqT(x) == x * x && cbT(x) == x * x * x); \
  vf_true("roots of every integer type", root2(x, sqrtT<int>(x)) && root3(x, cbrtT<int>(x)) && root2(x, sqrtT<int64_t>(x)) && root3(x, cbrtT<int64_t>(x)) && root2(x, sqrtT<Z>(x).v) && root3(x, cbrtT<Z>(x).v) && root2(x, sqrtT<int16_t>(x)) && root3(x, cbrtT<int16_t>(x))); \
  if (x >= 0) vf_true("roots of every integer type", root2(x, sqrtT<unsigned>(x)) && root3(x, cbrtT<unsigned>(x)) && root2(x, sqrtT<uint64_t>(x)) && root3(x, cbrtT<uint64_t>(x)) && root2(x, sqrtT<uint16_t>(x)) && root3(x, cbrtT<uint16_t>(x)) && (x > 255 || root2(x, sqrtT<uint8_t>(x))) && (x > 127 || root2(x, sqrtT<int8_t>(x)))); \
  vf_true("perfect squares", is_square<int>(x) == sq_(x) && is_square<int64_t>(x) == sq_(x) && is_square<Z>(x) == sq_(x)); vf_true("perfect cubes", is_cube<int>(x) == cb_(x) && is_cube<int64_t>(x) == cb_(x) && is_cube<Z>(x) == cb_(x)); } }
ROOTS(-40, 0) ROOTS(0, 40) ROOTS(40, 130) ROOTS(210, 260)
// next to perfect powers, where the floating-point root may round up
W(roots_large) { for (long k : std::initializer_list<long>{ 46340, 46341, 65535, 65536, 94906265, 94906266, 94906267, 94906297, 134217728, 134217729, 1000000007, 1073741823, 1518500249, 2147483646 }) for (long x = k * k - 2; x <= k * k + 2; x++) { vf_true("square root next to a square", root2(x, isqrt(x)) && root2c(x, isqrtc(x)) && root2(x, sqrtT<int64_t>(x)) && root2(x, sqrtT<uint64_t>(x)) && root2(-x, isqrt(-x))); vf_true("perfect squares", is_square<int64_t>(x) == (x == k * k)); }
  for (long k : std::initializer_list<long>{ 1289, 1290, 1291, 1625, 1626, 65535, 65536, 208063, 208064, 208065, 1000003, 2080083, 2097150 }) for (long x = k * k * k - 2; x <= k * k * k + 2; x++) { vf_true("cube root next to a cube", root3(x, icbrt(x)) && root3c(x, icbrtc(x)) && root3(x, cbrtT<int64_t>(x)) && root3(-x, icbrt(-x))); vf_true("perfect cubes", is_cube<int64_t>(x) == (x == k * k * k)); } }
// quotients, every sign
INL long fl(long x, long q) { long d = x / q; return d * q != x && (x < 0) != (q < 0) ? d - 1 : d; }
template<class I> INL void quot(long a, long b, bool& f, bool& c, bool& r) { long F = fl(a, b), C = -fl(-a, b), d = div_round<I>(I(a), I(b)); f = f && div_floor<I>(I(a), I(b)) == F; c = c && div_ceil<I>(I(a), I(b)) == C; long rem = ab(a - d * b), B = ab(b); r = r && 2 * rem <= B && (2 * rem != B || ab(d) == ab(a) / B + 1); }
W(quotients) { for (int a = -26; a <= 26; a++) { bool f = true, c = true, r = true; for (int b = -11; b <= 11; b++) if (b) { quot<int>(a, b, f, c, r); quot<int64_t>(a, b, f, c, r); quot<int8_t>(a, b, f, c, r); if (a >= 0 && b > 0) quot<unsigned>(a, b, f, c, r); } vf_true("quotient rounded down", f); vf_true("quotient rounded up", c); vf_true("quotient rounded to the nearest, halves away from 0", r); } }
W(quotients_extreme) { const int64_t M = INT64_MAX; const int m = INT_MAX; for (int d = 1; d < 9; d++) { bool ok = true; for (int e = 0; e < 9; e++) { ok = ok && div_floor<int>(m - e, d) == (m - e) / d && div_floor<int>(-m + e, -d) == (m - e) / d && div_ceil<int>(m - e, d) == (int)(((int64_t)m - e + d - 1) / d) && div_floor<int>(-m + e, d) == -(int)(((int64_t)m - e + d - 1) / d) && div_ceil<int>(-m + e, d) == -((m - e) / d) && div_floor<int>(-m - 1 + e + (d == 1), d) == -(int)(((int64_t)m + 1 - e - (d == 1) + d - 1) / d);
    ok = ok && div_floor<int64_t>(M - e, d) == (M - e) / d && div_ceil<int64_t>(-M + e, d) == -((M - e) / d) && div_ceil<int64_t>(M - e, d) == (M - e) / d + ((M - e) % d != 0) && div_floor<int64_t>(-M + e, d) == -((M - e) / d) - ((M - e) % d != 0); } vf_true("quotients at the ends of the type", ok); } }
W(multiples) { for (int a = 1; a < 14; a++) { bool ok = true; for (int b = -30; b <= 30; b++) { int m = multiple<int>(a, b); ok = ok && m % a == 0 && m >= b && m - b < a && multiple<int64_t>(a, b) == m; if (b >= 0) ok = ok && multiple<unsigned>(a, b) == (unsigned)m; } vf_true("smallest multiple that is large enough", ok); } }
// common divisors
W(gcds) { for (int a = -24; a <= 24; a++) { bool g1 = true, g2 = true, g3 = true, g4 = true; for (int b = -24; b <= 24; b++) { long G = gcd_(a, b); g1 = g1 && ab(gcd<int>(a, b)) == G && ab(gcd<int64_t>(a, b)) == G && ab(gcd<Z>(a, b).v) == G; if (a >= 0 && b >= 0) { g1 = g1 && gcd<int>(a, b) == G && gcd<unsigned>(a, b) == (unsigned)G; if (G) g3 = g3 && lcm<int>(a, b) == a * b / (int)G; }
    int x, y, s = -1; int g = gcd_ex<int>(a, b, &x, &y, &s); g2 = g2 && a * x + b * y == g && ab(g) == G && (a < 0 || b < 0 || g == G) && s >= 0; int x1, y1; g2 = g2 && gcd_ex<int>(a, b, &x1) == g && gcd_ex<int>(a, b, nullptr, &y1) == g && gcd_ex<int>(a, b) == g && x1 == x && y1 == y; if (a > 0 && b > 0) g2 = g2 && ab(x) <= std::max<long>(1, b / G) && ab(y) <= std::max<long>(1, a / G);
    if (a >= 0 && b > 0) { int best = 1; for (int d = 1; d <= b; d++) if (b % d == 0) { bool all = true; for (int p = 2; p <= d; p++) { bool pr = true; for (int k = 2; k < p; k++) pr = pr && p % k != 0; if (pr && d % p == 0) all = all && a % p == 0; } if (all) best = d; } g4 = g4 && gcd_max<int>(a, b) == best && gcd_max<int64_t>(a, b) == best; } }
  vf_true("greatest common divisor", g1); vf_true("coefficients of the greatest common divisor", g2); vf_true("least common multiple", g3); vf_true("largest divisor made of common primes", g4); } }
W(small_things) { for (int a = -5; a <= 5; a++) { bool ok = absT(a) == ab(a); for (int b = -5; b <= 5; b++) { ok = ok && minT(a, b) == (a < b ? a : b) && maxT(a, b) == (a > b ? a : b); for (int c = b; c <= 5; c++) ok = ok && boundT(a, b, c) == (a < b ? b : a > c ? c : a); } int64_t p = 1; for (int e = 0; e < 20; e++) { ok = ok && powT<int64_t>(a, e) == p && powT<int64_t, int64_t>(a, e) == p && powT<int64_t, unsigned>(a, e) == p && powT<Z>(a, e).v == p; p *= a; } vf_true("absolute value, minimum, maximum, bounds, powers", ok); } }
