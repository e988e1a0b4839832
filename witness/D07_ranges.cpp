#include "ring.h"
namespace altruct { namespace math {
template<> struct castT<R, size_t> { static R of(const R& ref, const size_t& x) { return rhandle(ref, ring_cst(x)); } };
template<> struct castT<R, long long> { static R of(const R& ref, const long long& x) { return rhandle(ref, ring_cst(x)); } };
}}
namespace altruct { namespace math { int32_t isqrt(int64_t x) { int q = 0; while ((int64_t)(q + 1) * (q + 1) <= x) q++; return q; } } } // by specification: the implementation uses floating point
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/polynoms.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/structure/math/modulo.h"
#include <list>
using namespace altruct::math;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL bool nz(const R& x) { return !(x == rc(0)); }
INL R pw(R x, int n) { R r = rc(1); for (int i = 0; i < n; i++) r = r * x; return r; }
INL R fct(int n) { R r = rc(1); for (int i = 2; i <= n; i++) r = r * rc(i); return r; }
#define ALL(nm, v, n, e) do { vf_ieq(nm " size", v.size(), n); for (int i = 0; i < (int)(n); i++) EQ(nm, v[i], e); } while (0)
// every table in its own array, guarded on both sides: an element outside [begin, end) that changes is a violation
#define GUARD(nm, N, CALL, e) do { std::vector<R> g; for (int i = 0; i < (N) + 2; i++) g.push_back(rsym(i)); auto b = g.begin() + 1, en = b + (N); (void)b; (void)en; CALL; EQ(nm " leaves the element before begin", g[0], rsym(0)); EQ(nm " leaves the element at end", g[(N) + 1], rsym((N) + 1)); for (int i = 0; i < (N); i++) EQ(nm, g[i + 1], e); } while (0)
#define SZ(N) W(tables_##N) { R s = rsym(50); \
  { auto v = range<R>(N, s); ALL("range", v, N, s * rc(i)); GUARD("range", N, range(b, en, s), s * rc(i)); } \
  { auto v = powers<R>(N, s); ALL("powers", v, N, pw(s, i)); GUARD("powers", N, powers(b, en, s), pw(s, i)); } \
  { auto v = make_factorials<R>(N, rc(1)); ALL("factorials", v, N, fct(i)); GUARD("factorials", N, factorials(b, en, rc(1)), fct(i)); } \
  { auto v = make_inv_factorials<R>(N, rc(1)); ALL("inverse factorials", v, N, rc(1) / fct(i)); for (int k = 0; k < (N < 2 ? 2 : N); k++) GUARD("inverse factorials from k!", N, inv_factorials(b, en, fct(k), k), rc(1) / fct(i)); } \
  { auto v = make_inverses<R>(N, rc(1)); ALL("inverses", v, N, i == 0 ? rc(0) : rc(1) / rc(i)); GUARD("inverses", N, inverses(b, en, rc(1)), i == 0 ? rc(0) : rc(1) / rc(i)); } } \
W(maps_##N) { for (int e = 0; e <= 7; e++) GUARD("power", N, power(b, en, e), pw(rsym(i + 1), e)); GUARD("negate", N, negate(b, en), -rsym(i + 1)); GUARD("alternate", N, alternate(b, en), i % 2 ? -rsym(i + 1) : rsym(i + 1)); \
  GUARD("accumulate", N, accumulate(b, en), [&] { R t = rc(0); for (int j = 0; j <= i; j++) t += rsym(j + 1); return t; }()); GUARD("differentiate", N, differentiate(b, en), i ? rsym(i + 1) - rsym(i) : rsym(1)); \
  GUARD("differentiate undoes accumulate", N, (accumulate(b, en), differentiate(b, en)), rsym(i + 1)); \
  GUARD("invert", N, invert(b, en, rc(1)), (nz(rsym(i + 1)) ? rc(1) / rsym(i + 1) : rc(0))); } \
W(field_##N) { bool ok = true; for (int i = 1; i <= N; i++) ok = ok && nz(rsym(i)); if (ok) GUARD("invert_field", N, invert_field(b, en, rc(1)), rc(1) / rsym(i + 1)); }
SZ(0) SZ(1) SZ(2) SZ(3) SZ(4) SZ(5) SZ(6) SZ(8)
// exponents: every value of the range, and of a wider type
W(powT) { R x = rsym(1); for (int n = 0; n <= 40; n++) { EQ("powT", powT(x, n), pw(x, n)); EQ("powT (64-bit exponent)", powT(x, (long long)n), pw(x, n)); EQ("powT (unsigned exponent)", powT(x, (unsigned)n), pw(x, n)); } EQ("sqT", sqT(x), x * x); EQ("cbT", cbT(x), x * x * x); }
// order helpers
W(minmax) { R x = rsym(1), y = rsym(2), l = rsym(3), h = rsym(4); bool c = x < y; EQ("minT", minT(x, y), c ? x : y); EQ("maxT", maxT(x, y), c ? y : x); R z = maxT(x, l); EQ("boundT", boundT(x, l, h), (z < h ? z : h)); EQ("absT", absT(x), (x < rc(0) ? -x : x)); }
// recurrences
INL R nextf(const std::vector<R>& c, const std::vector<R>& f) { R r = rc(0); int L = c.size(), n = f.size(); for (int i = 0; i < L; i++) r += c[i] * f[n - 1 - i]; return r; }
#define REC(L, NM) W(recurrence_##L) { std::vector<R> c, f; for (int i = 0; i < L; i++) c.push_back(rsym(1 + i)), f.push_back(rsym(11 + i)); \
  auto p = linear_recurrence_coeff_to_poly(c); vf_ieq("characteristic polynomial degree", p.deg(), L); EQ("characteristic polynomial", p.at(L), rc(1)); for (int i = 0; i < L; i++) EQ("characteristic polynomial", p.at(L - 1 - i), -rsym(1 + i)); \
  auto d = linear_recurrence_poly_to_coeff(p); vf_ieq("coefficients from polynomial", d.size(), L); for (int i = 0; i < L; i++) EQ("coefficients from polynomial", d[i], rsym(1 + i)); \
  std::vector<R> g = f; for (int n = 0; n <= NM; n++) { if (n >= (int)g.size()) { EQ("linear_recurrence_next", (linear_recurrence_next<R, R>(c, g)), nextf(c, g)); g.push_back(nextf(c, g)); } EQ("linear_recurrence", (linear_recurrence<R, R>(c, f, n)), g[n]); } \
  for (int i = 0; i < L; i++) { EQ("linear_recurrence keeps its operands", c[i], rsym(1 + i)); EQ("linear_recurrence keeps its operands", f[i], rsym(11 + i)); } }
REC(1, 8) REC(2, 7) REC(3, 6)
W(named) { R p = rsym(1), q = rsym(2), o = rc(1); R a = rc(0), b = rc(1), l = rc(2), m = rc(1), ua = rc(0), ub = rc(1), va = rc(2), vb = p; for (int n = 0; n <= 8; n++) { EQ("fibonacci", fibonacci<R>(n, o), a); EQ("lucas_l", lucas_l<R>(n, o), l); EQ("lucas_u", lucas_u<R>(p, q, n), ua); EQ("lucas_v", lucas_v<R>(p, q, n), va);
  R t = a + b; a = b; b = t; t = l + m; l = m; m = t; t = p * ub - q * ua; ua = ub; ub = t; t = p * vb - q * va; va = vb; vb = t; } }
// B0 .. Bn: sum of C(m, k) B_k for k < m is m (B1 = +1/2)
W(bernoulli) { for (int n = 0; n <= 8; n++) { auto b = bernoulli_b<R>(n, rc(1)); vf_ieq("bernoulli_b size", b.size(), n + 1); for (int m = 1; m <= n + 1; m++) { R s = rc(0); int bin = 1; for (int k = 0; k < m; k++) { s += rc(bin) * b[k]; bin = bin * (m - k) / (k + 1); } EQ("bernoulli_b", s, rc(m)); } for (int i = 0; i <= n; i++) EQ("bernoulli_b element", b[i], b[i]); } }
// s(0) = 0 and s(x) - s(x - 1) = p(x) as polynomials in x
#define PSUM(A) W(polynom_sum_##A) { std::vector<R> v; for (int i = 0; i <= A; i++) v.push_back(rsym(1 + i)); polynom<R> p(v); R x = rsym(30); if (nz(rsym(1 + A))) { auto s = polynom_sum(p); EQ("polynom_sum at 0", s.eval(rc(0)), rc(0)); EQ("polynom_sum difference", s.eval(x) - s.eval(x - rc(1)), p.eval(x)); for (int i = 0; i <= A + 1; i++) EQ("polynom_sum coefficient", s[i], s[i]); } }
PSUM(0) PSUM(1) PSUM(2) PSUM(3) PSUM(4)
// Berlekamp-Massey recovers a recurrence of order L from 2L terms
W(berlekamp_1) { R c = rsym(1), f = rsym(2); std::vector<R> a{f, c * f}; if (nz(f) && nz(c)) { auto r = berlekamp_massey<R>(a, rc(1)); vf_ieq("berlekamp_massey order", r.size(), 1); EQ("berlekamp_massey", r[0], c); } }
W(berlekamp_modulus) { typedef moduloX<int> MX; int f0 = 0, f1 = 1; std::vector<MX> a; for (int i = 0; i < 6; i++) { a.push_back(MX(f0, 7)); int t = f0 + f1; f0 = f1; f1 = t; } auto p = berlekamp_massey_poly<MX, MX>(a, MX(1, 7)); bool ok = p.deg() == 2; for (int i = 0; i <= 2; i++) ok = ok && p[i].M() == 7; vf_true("modulus of the characteristic polynomial", ok); auto r = berlekamp_massey<MX, MX>(a, MX(1, 7)); vf_true("coefficients modulo 7", r.size() == 2 && r[0].v == 1 && r[1].v == 1 && r[0].M() == 7 && r[1].M() == 7); }
#define BM2(nm, F0, F1, PRE) W(berlekamp_2_##nm) { R c0 = rsym(1), c1 = rsym(2), f0 = F0, f1 = F1; R f2 = c0 * f1 + c1 * f0, f3 = c0 * f2 + c1 * f1; std::vector<R> a{f0, f1, f2, f3}; if (nz(c1) && (PRE)) { auto r = berlekamp_massey<R>(a, rc(1)); vf_ieq("berlekamp_massey order", r.size(), 2); EQ("berlekamp_massey", r[0], c0); EQ("berlekamp_massey", r[1], c1); } }
BM2(01, rc(0), rc(1), true) BM2(0s, rc(0), rsym(4), nz(f1)) BM2(10, rc(1), rc(0), true)
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/sequences.h"
// sums of powers: the argument is a symbol, so both sides are polynomials in it
#define SPOW(P_) W(sum_pow_##P_) { R n = rsym(1), o = rc(1); auto s = [&](R x) { return sum_pow<R, R>(P_, x, o); }; EQ("sum_pow at 0", s(rc(0)), rc(0)); EQ("sum_pow difference", s(n) - s(n - o), pw(n, P_)); auto b = bernoulli_b<R>(P_, o); EQ("sum_pow with table", (sum_pow<R, R>(P_, n, b)), s(n)); EQ("sum_pow of an integer", (sum_pow<R, int>(P_, 5, o)), s(rc(5))); }
SPOW(0) SPOW(1) SPOW(2) SPOW(3) SPOW(4) SPOW(5) SPOW(6) SPOW(8)
W(sum_powx) { R x = rsym(1); if (nz(x) && nz(x - rc(1))) for (int m = 0; m <= 4; m++) { R s = rc(0); for (int n = 0; n <= 5; n++) { if (n) s += pw(rc(n), m) * pw(x, n); EQ("sum_powx", (sum_powx<R, int>(m, x, n)), s); } } }
// sequences as polynomials in a symbolic argument, against their recurrences / classical closed forms
static R s_cube(R n) { return sequences::cube<R, R>(n); }
static R s_delta(R n) { return sequences::delta<R, R>(n); }
static R s_dirichlet_id(R n) { return sequences::dirichlet_id<R, R>(n); }
static R s_dodecahedral(R n) { return sequences::dodecahedral<R, R>(n); }
static R s_icosahedral(R n) { return sequences::icosahedral<R, R>(n); }
static R s_identity(R n) { return sequences::identity<R, R>(n); }
static R s_octahedral(R n) { return sequences::octahedral<R, R>(n); }
static R s_one(R n) { return sequences::one<R, R>(n); }
static R s_pyramidal(R n) { return sequences::pyramidal<R, R>(n); }
static R s_square(R n) { return sequences::square<R, R>(n); }
static R s_tetrahedral(R n) { return sequences::tetrahedral<R, R>(n); }
static R s_triangular(R n) { return sequences::triangular<R, R>(n); }
static R s_zero(R n) { return sequences::zero<R, R>(n); }
static R s_sigma0(int n) { return rhandle(rsym(0), sequences::sum_sigma0<R, int>(n).h); }
static R s_sigma1(int n) { return rhandle(rsym(0), sequences::sum_sigma1<R, int>(n).h); }
static R s_sigma2(int n) { return rhandle(rsym(0), sequences::sum_sigma2<R, int>(n).h); }
W(sequences) { R n = rsym(1), o = rc(1), z = rc(0); EQ("zero", (s_zero(n)), z); EQ("one", (s_one(n)), o); EQ("identity", (s_identity(n)), n); EQ("square", (s_square(n)), n * n); EQ("cube", (s_cube(n)), n * n * n);
  auto dif = [&](R (*f)(R)) { return f(n) - f(n - rc(1)); }; auto at0 = [&](R (*f)(R)) { return f(rc(0)); };
  EQ("triangular", at0(s_triangular), z); EQ("triangular", dif(s_triangular), n); EQ("tetrahedral", at0(s_tetrahedral), z); EQ("tetrahedral", dif(s_tetrahedral), s_triangular(n)); EQ("pyramidal", at0(s_pyramidal), z); EQ("pyramidal", dif(s_pyramidal), n * n);
  EQ("octahedral", (s_octahedral(n)), s_pyramidal(n) + s_pyramidal(n - o)); EQ("dodecahedral", (s_dodecahedral(n)), (n * n * n * rc(9) - n * n * rc(9) + n * rc(2)) / rc(2)); EQ("icosahedral", (s_icosahedral(n)), (n * n * n * rc(5) - n * n * rc(5) + n * rc(2)) / rc(2));
  for (int k = 0; k <= 20; k++) { R a = z, b = z, c = z; for (int j = 1; j <= k; j++) for (int d = 1; d <= j; d++) if (j % d == 0) a += o, b += rc(d), c += rc(d * d); EQ("sum_sigma0", s_sigma0(k), a); EQ("sum_sigma1", s_sigma1(k), b); EQ("sum_sigma2", s_sigma2(k), c); }
  EQ("delta", (s_delta(n)), n == z ? o : z); EQ("dirichlet_id", (s_dirichlet_id(n)), n == o ? o : z); }
INL long fl(long x, long q) { long d = x / q; return d * q != x && (x < 0) != (q < 0) ? d - 1 : d; }
#define RATIO(Q) W(sum_ratio_##Q) { for (int sg = -1; sg <= 1; sg += 2) { const int q = sg * Q; for (int a = -2 * Q - 1; a <= 2 * Q + 1; a += Q < 4 ? 1 : 2) for (int b = -Q - 2; b <= Q + 2; b++) { long t = 0; bool ok = true; for (int n = 0; n < 8; n++) { ok = ok && sum_ratio<long, int>(a, b, q, n) == t; if (n % 3 == 1) EQ("sum of quotients rounded down, in the ring", (sum_ratio<R, int>(a, b, q, n, rc(0))), rc((int)t)); t += fl((long)a * n + b, q); } ok = ok && sum_ratio<long, long>(a, b, q, 8) == t; vf_true("sum of quotients rounded down", ok); } } }
// the ring of the result need not have halves or thirds: composite and even moduli
#define RATIOM(MOD) W(sum_ratio_mod_##MOD) { typedef moduloX<int> MX; for (int q = 1; q <= 4; q++) { bool ok = true; for (int a = -5; a <= 5; a++) for (int b = -3; b <= 4; b++) { int t = 0; for (int n = 0; n < 9; n++) { MX r = sum_ratio<MX, int>(a, b, q, n, MX(0, MOD)); ok = ok && r.M() == MOD && r.v == ((t % MOD) + MOD) % MOD; t += fl((long)a * n + b, q); } } vf_true("sum of quotients modulo a composite number", ok); } }
RATIOM(8) RATIOM(12)
RATIO(1) RATIO(2) RATIO(3) RATIO(5) RATIO(7)
W(sum_plain) { R z = rc(0); auto f = [](int k) { return rsym(20 + k); }; for (int a = -3; a <= 3; a++) for (int b = a - 2; b <= a + 4; b++) { R t = z; for (int k = a; k <= b; k++) t += f(k); EQ("sum over [a, b]", (sum<R, int>(f, a, b, z)), t); } }
