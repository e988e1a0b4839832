#include "ring.h"
#include "sorts.h"
#include "algorithm/math/base.cpp"
#include "algorithm/math/primes.cpp"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/pell.h"
using namespace altruct::math;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(8 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
INL int gcd_(int a, int b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int r = a % b; a = b; b = r; } return a; }
INL std::vector<std::pair<int, int>> fac_(int n) { std::vector<std::pair<int, int>> r; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; r.push_back({ p, e }); } return r; }
INL int fl_(int a, int b) { int q = a / b; return a % b != 0 && (a < 0) != (b < 0) ? q - 1 : q; }
// sign of a + b sqrt(S)
INL int sgn_(int64_t a, int64_t b, int64_t S) { int64_t l = a * a, r = b * b * S; int s = l == r ? 0 : l > r ? 1 : -1; return a >= 0 && b >= 0 ? (a || b) : a <= 0 && b <= 0 ? -1 : a > 0 ? s : -s; }
// continued fractions
#define CFRAC(Q, N) W(continued_fraction_##Q) { int p = pick(0, N); auto v = continued_fraction<int>(p, Q); auto c = convergents<int>(v); vf_true("one convergent per term", c.size() == v.size()); for (int x = 0; x < N; x++) if (p == x) { int k = (int)v.size(); vf_true("not empty", k > 0); for (int i = 1; i < k; i++) vf_true("positive terms", v[i] > 0); vf_true("last term above one", k == 1 || v[k - 1] > 1); vf_true("last convergent is the number", c[k - 1].first * Q == x * c[k - 1].second && gcd_(c[k - 1].first, c[k - 1].second) == 1); \
  for (int i = 1; i < k; i++) vf_true("consecutive convergents differ by one over the denominators", c[i].first * c[i - 1].second - c[i - 1].first * c[i].second == (i % 2 ? 1 : -1)); } auto s = convergents<int>(v, 1000); int m = 0; for (int a : v) m += a / 2 + 1; vf_true("number of semi-convergents", (int)s.size() == m); for (int x = 0; x < N; x++) if (p == x) { const int k = (int)c.size(); vf_true("ends with the number", s[s.size() - 1] == c[k - 1]); } for (size_t i = 1; i < s.size(); i++) vf_true("denominators do not decrease", s[i - 1].second <= s[i].second || i < 2 + v[0] / 2 + 1); }
CFRAC(1, 6) CFRAC(7, 15) CFRAC(12, 26) CFRAC(13, 20)
#define SQRTC(S) W(sqrt_convergent_##S) { for (int Q = 0; Q <= 12; Q++) { auto r = sqrt_convergent<int>(S, Q); int p = r.first, q = r.second, a = 0; while ((a + 1) * (a + 1) <= S) a++; if (a * a == S) { vf_true("root of a square", p == a && q == 1); continue; } vf_true("denominator above the bound", q > Q && gcd_(p, q) == 1); \
  /* best approximation: no fraction with a denominator up to q is closer in the sense |p - q sqrt(S)| */ int s = sgn_(p, -q, S); bool best = true; for (int y = 1; y < q; y++) { int x = 0; while ((int64_t)x * x < (int64_t)S * y * y) x++; for (int z = x - 1; z <= x; z++) { int t = sgn_(z, -y, S); /* |z - y sqrt| - |p - q sqrt| */ best = best && sgn_(t * z - s * p, -t * y + s * q, S) > 0; } } vf_true("convergent", best || q == 1); \
  int prev = 0; for (int y = 1; y < q; y++) { int x = 0; while ((int64_t)x * x < (int64_t)S * y * y) x++; for (int z = x - 1; z <= x; z++) { int t = sgn_(z, -y, S); bool b = true; for (int w = 1; w < y; w++) { int u = 0; while ((int64_t)u * u < (int64_t)S * w * w) u++; for (int o = u - 1; o <= u; o++) { int k = sgn_(o, -w, S); b = b && sgn_(k * o - t * z, -k * w + t * y, S) > 0; } } for (int o = x - 1; o <= x; o++) if (o != z) { int k = sgn_(o, -y, S); b = b && sgn_(k * o - t * z, -k * y + t * y, S) > 0; } if (b) prev = y; } } vf_true("first such convergent", prev <= Q || q == 1); } }
SQRTC(2) SQRTC(3) SQRTC(4) SQRTC(5) SQRTC(7) SQRTC(9) SQRTC(13) SQRTC(14) SQRTC(19)
// closest points: every offset and every interval
#define LINE(TAG, A, B) W(line_##TAG) { int c = pick(0, 9) - 4, x0 = pick(1, 7) - 3, n = pick(2, 6); int x = line_closest_lattice_point<int>(A, B, c, x0, x0 + n); vf_true("inside the interval", x >= x0 && x <= x0 + n); for (int cc = -4; cc <= 4; cc++) { int d[12]; for (int t = -3; t <= 8; t++) { d[t + 3] = 1000; for (int y = -40; y <= 40; y++) { int v = A * t + B * y + cc; if (v < 0) v = -v; if (v < d[t + 3]) d[t + 3] = v; } } \
  for (int a = -3; a <= 3; a++) for (int k = 0; k < 6; k++) { int m = 1000; for (int t = a; t <= a + k; t++) if (d[t + 3] < m) m = d[t + 3]; if (c == cc && x0 == a && n == k) { bool ok = false; for (int t = a; t <= a + k; t++) if (x == t) ok = d[t + 3] == m; vf_true("no other point is closer to the line", ok); } } } }
LINE(0_0, 0, 0) LINE(0_3, 0, 3) LINE(3_0, 3, 0) LINE(1_2, 1, 2) LINE(3_5, 3, 5) LINE(m3_5, -3, 5) LINE(3_m5, 3, -5) LINE(m4_m7, -4, -7) LINE(7_4, 7, 4) LINE(5_9, 5, 9) LINE(6_4, 6, 4) LINE(m2_3, -2, 3)
#define LADDER(TAG, A, B, C, E) W(ladder_##TAG) { int d = pick(0, 9) - 4, x0 = pick(1, 7) - 3, n = pick(2, 6); int x = minimize_floor_ladder<int>(A, B, C, d, E, x0, x0 + n); vf_true("inside the interval", x >= x0 && x <= x0 + n); for (int dd = -4; dd <= 4; dd++) for (int a = -3; a <= 3; a++) for (int k = 0; k < 6; k++) { int m = 100000; for (int t = a; t <= a + k; t++) { int v = A * t + B * fl_(C * t + dd, E); if (v < m) m = v; } \
  if (d == dd && x0 == a && n == k) { bool ok = false; for (int t = a; t <= a + k; t++) if (x == t) ok = A * t + B * fl_(C * t + dd, E) == m; vf_true("no smaller value in the interval", ok); } } }
LADDER(1, 2, -3, 5, 7) LADDER(2, -2, 3, 5, 7) LADDER(3, 1, 1, 1, 2) LADDER(4, -1, 2, 1, 3) LADDER(5, 3, -2, 7, 4) LADDER(6, 2, 3, -5, 7) LADDER(7, 2, -3, 5, -7) LADDER(8, 0, 1, 3, 5) LADDER(9, 1, 0, 3, 5) LADDER(10, 3, -4, 0, 5) LADDER(11, -3, 5, 5, 9) LADDER(12, 4, -9, 4, 9)
// sums of two squares
#define SQP(P) W(squares_prime_##P) { auto r = squares_r_prime<int>(P); vf_true("sum of two squares", r.first > 0 && r.first <= r.second && r.first * r.first + r.second * r.second == P); }
SQP(5) SQP(13) SQP(17) SQP(29) SQP(37) SQP(41) SQP(2)
#define CORN(D, P) W(cornacchia_##D##_##P) { auto r = cornacchia<int>(D, P); vf_true("x^2 + d y^2 = p", r.first * r.first + D * r.second * r.second == P); }
CORN(1, 13) CORN(2, 11) CORN(2, 17) CORN(3, 7) CORN(3, 13) CORN(7, 11) CORN(7, 23) CORN(2, 3) CORN(5, 29)
#define SQL(LO, HI) W(squares_##LO) { for (int n = LO; n <= HI; n++) { auto vf = fac_(n); auto u = squares_r_list<int>(vf, true), a = squares_r_list<int>(vf, false); int cu = 0, ca = 0; for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) if (x * x + y * y == n) { bool in = false; if (x >= 0 && x <= y) { for (auto& t : u) in = in || (t.first == x && t.second == y); vf_true("every representation", in); cu++; in = false; } for (auto& t : a) in = in || (t.first == x && t.second == y); vf_true("every representation with signs and order", in); ca++; } \
  vf_true("each once", (int)u.size() == cu && (int)a.size() == ca); vf_true("number of representations", squares_r<int>(vf, true) == cu && squares_r<int>(vf, false) == ca); std::unordered_map<int, std::pair<int, int>> tbl; auto b = squares_r_list<int, int>(vf, true, tbl, 4); int cb = 0; for (int x = 0; x <= 4; x++) for (int y = x; y <= 4; y++) cb += x * x + y * y == n; vf_true("up to a bound", (int)b.size() == cb); } }
SQL(1, 10) SQL(11, 26) SQL(45, 52) SQL(64, 66)
// Pell equations
#define PELL1(D, YM) W(pell_##D) { int x = 0, y = 0, l = pell1<int>(D, 1, x, y), ex = 0, ey = 0, nx = 0, ny = 0; for (int b = YM; b >= 1; b--) { for (int s = -1; s <= 1; s += 2) { int64_t t = (int64_t)D * b * b + s; int a = 1; while ((int64_t)a * a < t) a++; if ((int64_t)a * a == t) { if (s == 1) ex = a, ey = b; else nx = a, ny = b; } } } vf_true("least solution", l > 0 && x == ex && y == ey); int m = pell1<int>(D, -1, x, y); if (nx) vf_true("least solution of the negative equation", m == l && x == nx && y == ny); else vf_true("no solution of the negative equation", m == 0); }
PELL1(2, 3) PELL1(3, 2) PELL1(5, 5) PELL1(6, 3) PELL1(7, 4) PELL1(10, 7) PELL1(13, 200) PELL1(14, 5) PELL1(19, 40) PELL1(21, 13)
#define PELLN(TAG, D, N, XM) W(pell_##TAG) { int n = N < 0 ? -(N) : N; auto v = pell<int, int>(D, N, fac_(n), XM, 0, 0); int c = 0; for (int x = 1; x <= XM; x++) for (int y = 1; y * y * D <= x * x + n; y++) if (x * x - D * y * y == N) { c++; bool in = false; for (auto& s : v) in = in || (s.a == x && s.b == y); vf_true("every positive solution up to the bound", in); } int u = 0; for (auto& s : v) vf_true("solutions only", s.a * s.a - D * s.b * s.b == N && s.a <= XM && s.a >= 0 && s.b >= 0), u += s.a > 0 && s.b > 0; vf_true("each once", u == c); }
PELLN(2_7, 2, 7, 60) PELLN(2_m7, 2, -7, 60) PELLN(3_m2, 3, -2, 60) PELLN(3_6, 3, 6, 60) PELLN(5_4, 5, 4, 60) PELLN(5_m4, 5, -4, 60) PELLN(13_12, 13, 12, 60) PELLN(7_9, 7, 9, 60) PELLN(6_10, 6, 10, 80) PELLN(7_2, 7, 2, 60) PELLN(2_1, 2, 1, 60) PELLN(10_9, 10, 9, 60) PELLN(3_4, 3, 4, 60) PELLN(2_9, 2, 9, 60) PELLN(13_27, 13, 27, 60) PELLN(11_5, 11, 5, 100) PELLN(2_m23, 2, -23, 60) PELLN(5_m20, 5, -20, 60) PELLN(8_8, 8, 8, 60) PELLN(10_m54, 10, -54, 70)
// small right-hand sides: the least positive solution of every class
#define PELLS(TAG, D, N) W(pell_classes_##TAG) { int x0, y0; pell1<int>(D, 1, x0, y0); std::vector<int> xs, ys; pellS<int>(D, N, xs, ys); const int n = N < 0 ? -(N) : N, yb = 2 * y0 * n + 2; int c = 0; vf_true("as many x as y", xs.size() == ys.size()); \
  int x = 0; for (int y = 1; y <= yb; y++) { while (x * x < D * y * y + N) x++; if (x > 0 && x * x == D * y * y + N && !(x * x0 - D * y * y0 > 0 && y * x0 - x * y0 > 0)) { c++; bool in = false; for (size_t i = 0; i < xs.size(); i++) in = in || (xs[i] == x && ys[i] == y); vf_true("least positive solution of every class", in); } } vf_true("each once, and nothing else", (int)xs.size() == c); }
PELLS(7_2, 7, 2) PELLS(7_m2, 7, -2) PELLS(11_m2, 11, -2) PELLS(14_2, 14, 2) PELLS(19_m3, 19, -3) PELLS(19_4, 19, 4) PELLS(21_4, 21, 4) PELLS(21_m3, 21, -3) PELLS(23_2, 23, 2) PELLS(29_4, 29, 4) PELLS(6_m2, 6, -2) PELLS(6_2, 6, 2) PELLS(34_m2, 34, -2) PELLS(18_m2, 18, -2) PELLS(13_3, 13, 3) PELLS(13_m3, 13, -3) PELLS(17_4, 17, 4) PELLS(17_m4, 17, -4)
// listing with bounds
#define PELLL(TAG, D, N, XM) W(pell_list_##TAG) { int ex[8], ey[8], m = 0; for (int x = 1, y = 1; x <= XM; x++) { while (D * y * y < x * x - N) y++; if (y >= 1 && x * x - D * y * y == N && m < 8) { ex[m] = x; ey[m++] = y; } } auto same = [&](const std::vector<quadraticX<int>>& v, int k) { bool ok = (int)v.size() == k; for (int i = 0; i < k && ok; i++) ok = v[i].a == ex[i] && v[i].b == ey[i]; return ok; }; \
  vf_true("all solutions up to the bound on x, ascending", same(pell1<int>(D, N, XM, 0, 0), m)); for (int k = 0; k < m; k++) { vf_true("bound on x is included", same(pell1<int>(D, N, ex[k], 0, 0), k + 1) && same(pell1<int>(D, N, ex[k] - 1 + (ex[k] == 1), 0, 0), ex[k] == 1 ? 1 : k)); vf_true("bound on y is included", same(pell1<int>(D, N, 0, ey[k], 0), k + 1)); vf_true("the first solutions only", same(pell1<int>(D, N, 0, 0, k + 1), k + 1)); vf_true("every bound applies", same(pell1<int>(D, N, XM, ey[k], 1), 1)); } }
PELLL(2, 2, 1, 700) PELLL(2m, 2, -1, 300) PELLL(3, 3, 1, 400) PELLL(5, 5, 1, 200) PELLL(5m, 5, -1, 700) PELLL(10m, 10, -1, 200) PELLL(7m, 7, -1, 100) PELLL(6, 6, 1, 500)
#define PELLB(TAG, D, N, XM) W(pell_bounds_##TAG) { const int n = N < 0 ? -(N) : N; auto f = fac_(n); auto all = pell<int, int>(D, N, f, XM, 0, 0); for (int c = 1; c <= (int)all.size(); c++) { auto v = pell<int, int>(D, N, f, XM, 0, c); vf_true("as many solutions as asked for", (int)v.size() == c); for (size_t i = 0; i < v.size(); i++) { vf_true("solutions only", v[i].a * v[i].a - D * v[i].b * v[i].b == N); for (size_t j = 0; j < i; j++) vf_true("each once", v[i].a != v[j].a || v[i].b != v[j].b); } } \
  for (auto& t : all) { int k = 0; for (auto& s : all) k += s.b <= t.b; if (t.b > 0) { auto v = pell<int, int>(D, N, f, XM, t.b, 0); vf_true("bound on y is included", (int)v.size() == k); } } }
PELLB(2_7, 2, 7, 100) PELLB(5_4, 5, 4, 60) PELLB(13_12, 13, 12, 60) PELLB(6_10, 6, 10, 80)
// the precomputed table
W(prime_table) { for (int n = 0; n <= 30; n++) { auto t = squares_r_prime_table<int>(n); for (int p = 2; p <= n; p++) { bool pr = true; for (int d = 2; d < p; d++) pr = pr && p % d != 0; if (pr && p % 4 != 3) { vf_true("every such prime up to the bound", t.count(p) != 0); auto r = t[p]; vf_true("sum of two squares", r.first > 0 && r.first <= r.second && r.first * r.first + r.second * r.second == p); } } } }
W(with_table) { auto t = squares_r_prime_table<int>(30); for (int n = 1; n <= 30; n++) { auto a = squares_r_list<int>(fac_(n), true), b = squares_r_list<int, int>(fac_(n), true, t); vf_true("the table changes nothing", a == b); } }
