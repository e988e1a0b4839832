#include "ring.h"
namespace altruct { namespace math {
template<> struct castT<R, long> { static R of(const R& ref, const long& x) { return rhandle(ref, ring_cst(x)); } };
template<> struct castT<R, long long> { static R of(const R& ref, const long long& x) { return rhandle(ref, ring_cst(x)); } };
// integer roots: defined here by their specification (their implementation uses floating point)
int64_t isq(int64_t x) { return x * x; }
int64_t icb(int64_t x) { return x * x * x; }
int32_t isqrt(int64_t x) { int q = 0; while ((int64_t)(q + 1) * (q + 1) <= x) q++; return q; }
int32_t isqrtc(int64_t x) { int q = isqrt(x); return (int64_t)q * q < x ? q + 1 : q; }
int32_t icbrt(int64_t x) { int q = 0; while ((int64_t)(q + 1) * (q + 1) * (q + 1) <= x) q++; return q; }
}}
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/structure/math/fenwick_tree.h"
#include <map>
using namespace altruct::math;
using altruct::container::sqrt_map;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL bool nz(const R& x) { return !(x == rc(0)); }
INL R pw_(int k, int L) { R r = rc(1); for (int i = 0; i < L; i++) r = r * rc(k); return r; }
typedef std::vector<R> V;
INL V tab(int n) { V v; v.reserve(n); for (int i = 0; i < n; i++) v.push_back(rsym(700 + i)); return v; }
struct Sy { int k; INL R operator()(int n) const { return rsym(k + n); } };
static const Sy f_{100}, g_{300};
// by definition
template<class F, class G> INL R conv(F f, G g, int n) { R s = rc(0); for (int d = 1; d <= n; d++) if (n % d == 0) s += f(n / d) * g(d); return s; }
inline int pfac(int n) { for (int p = 2; p * p <= n; p++) if (n % p == 0) return p; return n; }
inline int lpow(int n, int p) { int q = 1; while (n > 1 && n % p == 0) n /= p, q *= p; return q; }
// an arbitrary multiplicative function: symbols at prime powers
inline R mu_(int n, int k) { R r = rc(1); while (n > 1) { int p = pfac(n), q = lpow(n, p); r = r * rsym(k + q); n /= q; } return r; }
// an arbitrary completely multiplicative function: symbols at primes
inline R cm_(int n, int k) { R r = rc(1); while (n > 1) { int p = pfac(n); r = r * rsym(k + p); n /= p; } return r; }
INL int primes(int* pa, int n) { int m = 0; for (int i = 2; i < n; i++) if (pfac(i) == i) pa[m++] = i; return m; }
INL void pfs(int* pf, int n) { for (int i = 0; i < n; i++) pf[i] = i < 2 ? 0 : pfac(i); }
#define KEEP0(nm, h) EQ(nm " leaves index 0", h[0], rsym(700))
#define DIR(N) W(dirichlet_##N) { V h = tab(N); dirichlet_convolution(h, f_, g_, N); EQ("dirichlet_convolution", h[0], rc(0)); for (int i = 1; i < N; i++) EQ("dirichlet_convolution", h[i], conv(f_, g_, i)); vf_ieq("table size", h.size(), N); } \
W(division_##N) { if (nz(g_(1))) { V h = tab(N); dirichlet_division(h, f_, g_, N); auto hh = [&](int i) { return h[i]; }; for (int i = 1; i < N; i++) EQ("dirichlet_division: quotient * divisor", conv(hh, g_, i), f_(i)); \
  h = tab(N); dirichlet_inverse(h, g_, N); for (int i = 1; i < N; i++) EQ("dirichlet_inverse: f * f^-1", conv(hh, g_, i), rc(i == 1)); } \
  V h = tab(N); auto hh = [&](int i) { return h[i]; }; auto one = [](int) { return rc(1); }; moebius_transform(h, f_, N); for (int i = 1; i < N; i++) EQ("moebius_transform", conv(hh, one, i), f_(i)); }
DIR(1) DIR(2) DIR(3) DIR(4) DIR(5) DIR(6) DIR(8) DIR(9) DIR(13) DIR(17)
// h is multiplicative; f and g need not be: h = f * g with f = h * g^-1 for an arbitrary g with invertible g(1)
#define MUL(N) W(multiplicative_##N) { int pa[N + 1], m = primes(pa, N); auto h_ = [](int n) { return mu_(n, 500); }; \
  { V h; for (int i = 0; i < N; i++) h.push_back(i && lpow(i, pfac(i)) == i ? (i == 1 ? rc(1) : rsym(500 + i)) : rc(1)); calc_multiplicative(h, N, pa, m); for (int i = 1; i < N; i++) EQ("calc_multiplicative", h[i], h_(i)); } \
  { V h = tab(N); auto f = [&](int n) { return mu_(n, 100); }; auto g = [&](int n) { return mu_(n, 300); }; dirichlet_convolution_multiplicative(h, f, g, N, pa, m); for (int i = 1; i < N; i++) EQ("dirichlet_convolution_multiplicative", h[i], conv(f, g, i)); } \
  { V h = tab(N); auto f = [&](int n) { return conv(h_, g_, n); }; if (nz(g_(1))) { dirichlet_division_multiplicative(h, f, g_, N, pa, m); for (int i = 1; i < N; i++) EQ("dirichlet_division_multiplicative", h[i], h_(i)); } } \
  { V h = tab(N); auto f = [&](int n) { return mu_(n, 100); }; dirichlet_inverse_multiplicative(h, f, N, pa, m); auto hh = [&](int i) { return h[i]; }; for (int i = 1; i < N; i++) EQ("dirichlet_inverse_multiplicative", conv(hh, f, i), rc(i == 1)); } \
  { V h = tab(N); auto one = [](int) { return rc(1); }; auto f = [&](int n) { return conv(h_, one, n); }; moebius_transform_multiplicative(h, f, N, pa, m); for (int i = 1; i < N; i++) EQ("moebius_transform_multiplicative", h[i], h_(i)); } \
  for (int k = 0; k <= 4; k++) { V h = tab(N); divisor_sigma<R>(h, k, N, pa, m, rc(1)); for (int i = 1; i < N; i++) { R s = rc(0); for (int d = 1; d <= i; d++) if (i % d == 0) s += powT(rc(d), k); EQ("divisor_sigma", h[i], s); } } \
  { V h = tab(N); sieve_sqfree_count<R>(h, N, pa, m, rc(1)); int c = 0; for (int i = 0; i < N; i++) { bool sf = i > 0; for (int d = 2; d * d <= i; d++) if (i % (d * d) == 0) sf = false; c += sf; EQ("sieve_sqfree_count", h[i], i || N ? rc(c) : rc(0)); } } } \
W(complete_##N) { int pf[N + 1]; pfs(pf, N); auto h_ = [](int n) { return cm_(n, 500); }; \
  { V h; for (int i = 0; i < N; i++) h.push_back(i > 1 && pfac(i) == i ? rsym(500 + i) : rc(1)); calc_completely_multiplicative(h, N, pf); for (int i = 1; i < N; i++) EQ("calc_completely_multiplicative", h[i], h_(i)); } \
  { V h = tab(N), gi = tab(N + 1); if (nz(g_(1))) { dirichlet_inverse(gi, g_, N); auto f = [&](int n) { return conv(h_, [&](int k) { return gi[k]; }, n); }; dirichlet_convolution_completely_multiplicative(h, f, g_, N, pf); for (int i = 1; i < N; i++) EQ("dirichlet_convolution_completely_multiplicative", h[i], h_(i)); } } \
  { V h = tab(N); auto f = [&](int n) { return conv(h_, g_, n); }; if (nz(g_(1))) { dirichlet_division_completely_multiplicative(h, f, g_, N, pf); for (int i = 1; i < N; i++) EQ("dirichlet_division_completely_multiplicative", h[i], h_(i)); } } \
  { V h = tab(N), hi = tab(N + 1); dirichlet_inverse(hi, h_, N); dirichlet_inverse_completely_multiplicative(h, [&](int k) { return hi[k]; }, N, pf); for (int i = 1; i < N; i++) EQ("dirichlet_inverse_completely_multiplicative", h[i], h_(i)); } \
  { V h = tab(N); auto one = [](int) { return rc(1); }; auto f = [&](int n) { return conv(h_, one, n); }; moebius_transform_completely_multiplicative(h, f, N, pf); for (int i = 1; i < N; i++) EQ("moebius_transform_completely_multiplicative", h[i], h_(i)); } }
MUL(2) MUL(3) MUL(5) MUL(8) MUL(10) MUL(17) MUL(28) MUL(33)
// M with t(n) = Sum[p(k) M(n/k), {k, 1, n}]
INL R M_(int n) { return n < 1 ? rc(0) : rsym(500 + n); }
template<class PF> INL R T_(PF p, int n) { R s = rc(0); for (int k = 1; k <= n; k++) s += p(k) * M_(n / k); return s; }
template<class PF> INL R S_(PF p, int n) { R s = rc(0); for (int k = 1; k <= n; k++) s += p(k); return s; }
#define SM(N) W(sieve_m_##N) { auto one = [](int) { return rc(1); }; { V m = tab(N); m[0] = rc(0); sieve_m(m, [&](int n) { return T_(one, n); }, N); for (int i = 1; i < N; i++) EQ("sieve_m", m[i], M_(i)); } \
  { V m = tab(N); if (nz(g_(1))) { sieve_m(m, [&](int n) { return T_(g_, n); }, g_, N); for (int i = 1; i < N; i++) EQ("sieve_m with p", m[i], M_(i)); } } \
  { int pa[N + 1], pm = primes(pa, N); auto dm = [](int n) { return mu_(n, 500); }; auto MM = [&](int n) { R s = rc(0); for (int k = 1; k <= n; k++) s += dm(k); return s; }; auto p = [](int n) { return mu_(n, 300); }; auto t = [&](int n) { R s = rc(0); for (int k = 1; k <= n; k++) s += p(k) * MM(n / k); return s; }; \
    V m = tab(N); m[0] = rc(0); sieve_m_multiplicative(m, t, p, N, pa, pm); for (int i = 1; i < N; i++) EQ("sieve_m_multiplicative", m[i], MM(i)); } } 
SM(2) SM(3) SM(5) SM(8) SM(13)
#define SUM(N) W(sum_m_##N) { int q = isqrt(N); auto one = [](int) { return rc(1); }; { sqrt_map<int, R> m(q, N); EQ("sum_m", (sum_m<R>([&](int n) { return T_(one, n); }, (int)N, m, rc(1))), M_(N)); for (int k = 1; k <= N; k++) if (m.count(N / k)) EQ("sum_m memo", m[N / k], M_(N / k)); } \
  { sqrt_map<int, R> m(q, N); if (nz(g_(1))) EQ("sum_m with p", (sum_m<R>([&](int n) { return T_(g_, n); }, [&](int n) { return S_(g_, n); }, (int)N, m, rc(1))), M_(N)); } \
  EQ("sum", (sum<R, int>(f_, 1, N, rc(0))), S_(f_, N)); EQ("sum of an empty range", (sum<R, int>(f_, N + 1, N, rc(0))), rc(0)); \
  EQ("sum_sqrt", (sum_sqrt<R, int>(f_, N, rc(0))), [] { R s = rc(0); for (int k = 1; k <= N; k++) s += f_(N / k); return s; }()); \
  R w = rc(0); for (int k = 1; k <= N; k++) w += f_(k) * g_(N / k); EQ("sum_sqrt2m", (sum_sqrt2m<R, int>([](int n) { return S_(f_, n); }, g_, N, rc(0))), w); EQ("sum_sqrt2m with f", (sum_sqrt2m<R, int>(f_, [](int n) { return S_(f_, n); }, g_, N, rc(0))), w); \
  auto f2 = [](int k, int m) { return rsym(1000 + 100 * k + m); }; w = rc(0); for (int k = 1; k <= N; k++) w += f2(k, N / k); EQ("sum_sqrt2", (sum_sqrt2<R, int>([&](int n, int m) { R s = rc(0); for (int k = 1; k <= n; k++) s += f2(k, m); return s; }, N, rc(0))), w); \
  { auto t = make_sqrt_map<int, R>(f_, N); EQ("make_sqrt_map", t[0], rc(0)); for (int k = 1; k <= N; k++) { TRUE_("make_sqrt_map has every n / k", t.count(N / k) != 0); EQ("make_sqrt_map", t[N / k], f_(N / k)); } } \
  { auto sf = [](int n, int m) { R s = rc(0); for (int k = 1; k <= n; k++) s += f_(k * m); return s; }; int ps[3] = {2, 3, 5}; for (int z = 0; z <= 3; z++) { R e = rc(0); for (int k = 1; k <= N; k++) { bool co = true; for (int j = 0; j < z; j++) if (k % ps[j] == 0) co = false; if (co) e += f_(k); } EQ("coprime_sum", (coprime_sum<R, int>(ps, ps + z, (int)N, sf)), e); } } }
SUM(1) SUM(2) SUM(3) SUM(4) SUM(5) SUM(6) SUM(8) SUM(9) SUM(12) SUM(15) SUM(16) SUM(24) SUM(25)
W(sums_empty) { EQ("sum_sqrt", (sum_sqrt<R, int>(f_, 0, rc(0))), rc(0)); EQ("sum_sqrt2m", (sum_sqrt2m<R, int>(f_, g_, 0, rc(0))), rc(0)); EQ("sum_sqrt2m with f", (sum_sqrt2m<R, int>(f_, f_, g_, 0, rc(0))), rc(0)); sqrt_map<int, R> m(1, 1); EQ("sum_m", (sum_m<R>(f_, 0, m, rc(1))), rc(0)); }
// sums of an arbitrary multiplicative function from its sums over primes
static auto ff = [](R, int p, int e) { int q = 1; while (e--) q *= p; return rsym(500 + q); };
static auto s1_ = [](long n) { R s = rc(0); for (int p = 2; p <= n; p++) if (pfac(p) == p) s += rsym(500 + p); return s; };
INL R SMUL(int n) { R s = rc(0); for (int k = 1; k <= n; k++) s += mu_(k, 500); return s; }
#define MULT(N) W(sum_multiplicative_34_##N) { int pa[N + 1], m = primes(pa, isqrt(N) + 1); EQ("sum_multiplicative_34", (sum_multiplicative_34<R>(s1_, ff, (int64_t)N, pa, m, rc(1))), SMUL(N)); }
MULT(1) MULT(2) MULT(3) MULT(4) MULT(5) MULT(8) MULT(9) MULT(12) MULT(16) MULT(18) MULT(24) MULT(30) MULT(36) MULT(48)
#define MULTF(N, U) W(sum_multiplicative_##N##_##U) { int pa[U + 1], m = primes(pa, U + 1); auto t = sum_multiplicative<R>(s1_, ff, (int64_t)N, pa, m, rc(1)); for (int k = 1; k <= N; k++) EQ("sum_multiplicative", t[N / k], SMUL(N / k)); }
MULTF(1, 1) MULTF(2, 1) MULTF(3, 1) MULTF(4, 2) MULTF(5, 2) MULTF(6, 7) MULTF(7, 2) MULTF(8, 2) MULTF(8, 4) MULTF(9, 3) MULTF(9, 10) MULTF(12, 5) MULTF(15, 3) MULTF(16, 6) MULTF(18, 4) MULTF(18, 7) MULTF(24, 8) MULTF(26, 5) MULTF(27, 9) MULTF(30, 5) MULTF(30, 10) MULTF(36, 6) MULTF(36, 11) MULTF(48, 13) MULTF(60, 7) MULTF(60, 16) MULTF(100, 10) MULTF(100, 22)
// sums built on an arbitrary polynomial g: Sum[k^L (mu * g)(k)]
INL int mob(int n) { int r = 1; for (int d = 2; d * d <= n; d++) if (n % d == 0) { n /= d; r = -r; if (n % d == 0) return 0; } return n > 1 ? -r : r; }
template<class G> INL R SG(G g, int L, int n) { R s = rc(0); for (int k = 1; k <= n; k++) { R h = rc(0); for (int d = 1; d <= k; d++) if (k % d == 0) h += rc(mob(k / d)) * g(d); s += pw_(k, L) * h; } return s; }
#define GL_(NAME, L, U, ...) W(sum_g_L_##NAME##_##L##_##U) { polynom<R> p{ __VA_ARGS__ }; std::vector<long> vn{ 13, 5, 1, 30, 8 }; auto v = sum_g_L<R, long>(p, L, vn, U); vf_ieq("one sum per argument", v.size(), vn.size()); for (size_t i = 0; i < vn.size(); i++) EQ("sum_g_L", v[i], SG([&](int n) { R s = rc(0), x = rc(1); for (int j = 0; j <= p.deg(); j++) { s += p[j] * x; x = x * rc(n); } return s; }, L, (int)vn[i])); }
GL_(constant, 0, 0, rc(3)) GL_(linear, 0, 0, rc(2), rc(5)) GL_(linear, 1, 6, rc(2), rc(5)) GL_(quadratic, 2, 0, rc(1), rc(0), rc(7)) GL_(quadratic, 0, 11, rc(1), rc(0), rc(7)) GL_(cubic, 1, 30, rc(0), rc(4), rc(1), rc(2)) GL_(symbols, 0, 9, rsym(40), rsym(41)) GL_(symbols, 1, 0, rsym(40), rsym(41))
INL long tot(int D, int n) { long s = 0; for (int d = 1; d <= n; d++) if (n % d == 0) { long b = 1; for (int i = 0; i < D; i++) b = b * (d + i) / (i + 1); s += mob(n / d) * b; } return s; }
#define PHI(D, L, N, U) W(sum_phi_##D##_##L##_##N##_##U) { R s = rc(0); for (int k = 1; k <= N; k++) s += pw_(k, L) * rc((int)tot(D, k)); EQ("sum_phi_D_L", (sum_phi_D_L<R>(D, L, (int64_t)N, U, rc(1))), s); }
PHI(0, 0, 5, 0) PHI(1, 0, 1, 0) PHI(1, 0, 7, 0) PHI(1, 0, 30, 0) PHI(1, 1, 26, 7) PHI(2, 0, 27, 0) PHI(3, 1, 20, 9) PHI(1, 2, 17, 0)
#define PHI1(N) W(sum_phi_##N) { int ph[N + 2]; for (int i = 0; i < N + 2; i++) ph[i] = i ? (int)tot(1, i) : 0; for (int t = 0; t < 2; t++) { auto m = sum_phi<R, long>((long)N, rc(1), t ? ph : nullptr); R s = rc(0); for (int k = 1; k <= N; k++) { s += rc(ph[k]); if (k == N) EQ("sum_phi", m[N], s); if (m.count(k) && N / (N / k) == k) EQ("sum_phi of every quotient", m[k], s); } } }
PHI1(1) PHI1(2) PHI1(5) PHI1(6) PHI1(7) PHI1(8) PHI1(26) PHI1(27) PHI1(40)
W(sqfree_count) { R e = rc(0); for (int n = 0; n <= 70; n++) { bool sf = n > 0; for (int d = 2; d * d <= n; d++) if (n % (d * d) == 0) sf = false; if (sf) e += rc(1); if (n < 20 || n % 5 == 0 || n == 64 || n == 63 || n == 27 || n == 26) { std::map<int, R> t; EQ("sqfree_count", (sqfree_count<R, int>(n, t, rc(1))), e); for (auto& x : t) { int c = 0; for (int k = 1; k <= x.first; k++) c += mob(k) != 0; EQ("sqfree_count memo", x.second, rc(c)); } } } }
// Fenwick tree: every prefix after every addition, any associative and commutative operation (here: the free one)
struct Add { R operator()(const R& x, const R& y) const { return x + y; } };
#define FEN(N) W(fenwick_##N) { fenwick_tree<R, Add> t(N, Add(), rc(0)); R m[N + 1]; for (int i = 0; i < N; i++) m[i] = rc(0); for (int r = 0; r < 2; r++) { for (int i = 0; i < N; i++) { int j = r ? N - 1 - i : i; t.add(j, rsym(100 * r + 1 + j)); m[j] += rsym(100 * r + 1 + j); R s = rc(0); for (int k = 0; k < N; k++) { s += m[k]; EQ("fenwick_tree prefix", t.get_sum(k, rc(0)), s); } } } t.reset(rc(0)); for (int k = 0; k < N; k++) EQ("fenwick_tree reset", t.get_sum(k, rc(0)), rc(0)); }
FEN(1) FEN(2) FEN(3) FEN(4) FEN(5) FEN(7) FEN(8)
