#include "ring.h"
#include "altruct/structure/math/series.h"
using namespace altruct::math;
// integer roots: specification by linear search (the library's version corrects a floating point estimate to the same value)
namespace altruct { namespace math {
int32_t isqrtc(int64_t x) { int32_t q = 0; while ((int64_t)q * q < x) q++; return q; }
int32_t isqrt(int64_t x) { int32_t q = 0; while ((int64_t)(q + 1) * (q + 1) <= x) q++; return q; }
}}
typedef seriesX<R> S;
typedef polynom<R> P;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL bool nz(const R& x) { return !(x == rc(0)); }
INL S ser(int n, int k) { std::vector<R> v; v.reserve(n); for (int i = 0; i < n; i++) v.push_back(rsym(k + i)); return S(std::move(v)); }
// same with a given constant coefficient
INL S ser0(int n, int k, int c0) { S s = ser(n, k); s[0] = rc(c0); return s; }
INL R mulc(const S& a, const S& b, int i) { R s = rc(0); for (int j = 0; j <= i; j++) s += a.at(j) * b.at(i - j); return s; }
INL R fact(int n) { int f = 1; for (int i = 2; i <= n; i++) f *= i; return rc(f); }
#define COEF(nm, n_, s, e) do { const S& s_ = (s); vf_ieq(nm " order", s_.size(), n_); vf_ieq(nm " size", s_.p.size(), n_); for (int i = 0; i < n_; i++) EQ(nm, s_.at(i), e); } while (0)
#define BAS(N) W(basic_##N) { S a = ser(N, 0), b = ser(N, 20); R x = rsym(50); COEF("s + t", N, a + b, rsym(i) + rsym(20 + i)); COEF("s - t", N, a - b, rsym(i) - rsym(20 + i)); COEF("-s", N, -a, -rsym(i)); COEF("s * t", N, a * b, mulc(a, b, i)); COEF("s * c", N, a * x, rsym(i) * x); \
  S t = a; S& u = (t += b); vf_true("s += t returns the target", &u == &t); COEF("s += t", N, t, rsym(i) + rsym(20 + i)); t = a; t -= b; COEF("s -= t", N, t, rsym(i) - rsym(20 + i)); t = a; t *= b; COEF("s *= t", N, t, mulc(a, b, i)); t = a; t += t; COEF("s += s", N, t, rsym(i) + rsym(i)); t = a; t -= t; COEF("s -= s", N, t, rc(0)); t = a; t *= t; COEF("s *= s", N, t, mulc(a, a, i)); \
  for (int z = 0; z < N; z++) { t = a; t *= t[z]; COEF("s *= own coefficient", N, t, rsym(i) * rsym(z)); } if (nz(x)) { COEF("s / c", N, a / x, rsym(i) / x); t = a; t /= x; COEF("s /= c", N, t, rsym(i) / x); } \
  COEF("derivative", N, a.derivative(), i + 1 < N ? rsym(i + 1) * rc(i + 1) : rc(0)); COEF("integral", N, a.integral(x), i == 0 ? x : rsym(i - 1) / rc(i)); COEF("integral from zero", N, a.integral(), i == 0 ? rc(0) : rsym(i - 1) / rc(i)); COEF("pointwise_mul", N, a.pointwise_mul(b), rsym(i) * rsym(20 + i)); \
  for (int l = 0; l <= N + 1; l++) COEF("shift up", N, a.shift(l), i < l ? rc(0) : rsym(i - l)); for (int l = 1; l <= N + 1; l++) COEF("shift down", N, a.shift(-l), i + l < N ? rsym(i + l) : rc(0)); R pw[N]; pw[0] = rc(1); for (int i = 1; i < N; i++) pw[i] = pw[i - 1] * x; COEF("s(a x)", N, a.sub_mul(x), rsym(i) * pw[i]); \
  for (int q = 1; q <= N; q++) COEF("s(x^a)", N, a.sub_pow(q), i % q == 0 ? rsym(i / q) : rc(0)); COEF("exp(a x)", N, S::exp(x, N), pw[i] / fact(i)); COEF("make_exponential", N, a.make_exponential(), rsym(i) / fact(i)); COEF("make_ordinary", N, a.make_ordinary(), rsym(i) * fact(i)); \
  COEF("of", N, S::of([](int n) { return rsym(70 + n); }, N), rsym(70 + i)); COEF("identity", N, identityOf(a), rc(i == 0)); COEF("zero", N, zeroOf(a), rc(0)); S c = a, d = ser(3, 40); c.swap(d); COEF("swap", N, d, rsym(i)); COEF("swap back", 3, c, rsym(40 + i)); c = d; COEF("assignment", N, c, rsym(i)); \
  S m = std::move(c); COEF("move", N, m, rsym(i)); IFF("equality", a == b, [&] { bool e = true; for (int i = 0; i < N; i++) e = e & (rsym(i) == rsym(20 + i)); return e; }()); m.resize(N + 2); COEF("resize up", N + 2, m, i < N ? rsym(i) : rc(0)); m.resize(N > 1 ? N - 1 : 1); COEF("resize down", (N > 1 ? N - 1 : 1), m, rsym(i)); COEF("the operand is unchanged", N, a, rsym(i)); }
BAS(1) BAS(2) BAS(3) BAS(5)
#define INV(N) W(inverse_##N) { S a = ser(N, 0), b = ser(N, 20); if (nz(rsym(0))) { S v = a.inverse(); for (int i = 0; i < N; i++) EQ("s * s.inverse() == 1", mulc(a, v, i), rc(i == 0)); S q = b / a; for (int i = 0; i < N; i++) EQ("(t / s) * s == t", mulc(q, a, i), rsym(20 + i)); S t = a; t /= t; COEF("s /= s", N, t, rc(i == 0)); } }
INV(1) INV(2) INV(3) INV(4)
#define PWI(N) W(pointwise_##N) { S a = ser(N, 0), b = ser(N, 20); COEF("pointwise_inv<false>", N, a.pointwise_inv<false>(), nz(rsym(i)) ? rc(1) / rsym(i) : rc(0)); bool all = true; for (int i = 0; i < N; i++) all = all & nz(rsym(i)); if (all) COEF("pointwise_inv<true>", N, a.pointwise_inv<true>(), rc(1) / rsym(i)); COEF("pointwise_div", N, b.pointwise_div<false>(a), nz(rsym(i)) ? rsym(20 + i) / rsym(i) : rc(0)); }
PWI(1) PWI(2) PWI(3)
// s(r(x)) = Sum s_j r^j, also when r(0) is not zero
INL S horner(const S& s, const S& r, int N) { S h = zeroOf(r); for (int j = N - 1; j >= 0; j--) { S t(std::vector<R>(N, rc(0))); for (int i = 0; i < N; i++) t[i] = mulc(h, r, i); t[0] += s.at(j); h = t; } return h; }
#define CMP(N) W(compose_##N) { S a = ser(N, 0), b = ser(N, 20); S h = horner(a, b, N); COEF("s(r(x))", N, a.composition(b), h.at(i)); COEF("operator ()", N, a(b), h.at(i)); }
CMP(1) CMP(2) CMP(3) CMP(4)
#define REV(N) W(reversion_##N) { S a = ser0(N, 0, 0); if (nz(rsym(1))) { S r = a.reversion(); vf_ieq("reversion order", r.size(), N); S h = horner(a, r, N); for (int i = 0; i < N; i++) EQ("s(reversion(x)) == x", h.at(i), rc(i == 1)); } }
REV(2) REV(3) REV(4) REV(5)
// f = exp(s) is the series with f(0) = 1 and f' = s' f;  g = ln(s) the one with g(0) = c0 and g' s = s'
#define EXP(N) W(exp_ln_##N) { S a = ser0(N, 0, 0), o = ser0(N, 0, 1), f = a.exp(), g = o.ln(), h = o.ln(rsym(50)); vf_ieq("exp order", f.size(), N); vf_ieq("ln order", g.size(), N); EQ("exp(s)(0)", f.at(0), rc(1)); EQ("ln(s)(0)", g.at(0), rc(0)); EQ("ln(s, c0)(0)", h.at(0), rsym(50)); \
  for (int i = 0; i + 1 < N; i++) { R x = rc(0), y = rc(0), z = rc(0); for (int j = 0; j <= i; j++) x += a.at(j + 1) * rc(j + 1) * f.at(i - j), y += g.at(j + 1) * rc(j + 1) * o.at(i - j), z += h.at(j + 1) * rc(j + 1) * o.at(i - j); EQ("exp(s)' == s' exp(s)", f.at(i + 1) * rc(i + 1), x); EQ("ln(s)' s == s'", y, o.at(i + 1) * rc(i + 1)); EQ("ln(s, c0)' s == s'", z, o.at(i + 1) * rc(i + 1)); } }
EXP(1) EXP(2) EXP(3) EXP(4)
// powers: by repeated multiplication, and by logarithm and exponential (threshold 0) for every kind of constant term
INL S rep(const S& s, int a, int N) { S h = identityOf(s); for (; a > 0; a--) { S t(std::vector<R>(N, rc(0))); for (int i = 0; i < N; i++) t[i] = mulc(h, s, i); h = t; } return h; }
#define POW(N, A) W(pow_##N##_##A) { S a = ser(N, 0); S h = rep(a, A, N); COEF("pow", N, a.pow(A), h.at(i)); a = ser0(N, 0, 1); h = rep(a, A, N); COEF("pow by logarithm", N, a.pow(A, 0), h.at(i)); \
  a = ser0(N, 0, 0); if (N > 1 && nz(rsym(1))) { h = rep(a, A, N); COEF("pow of x * t", N, a.pow(A, 0), h.at(i)); } if (nz(rsym(0))) { a = ser(N, 0); h = rep(a, A, N); COEF("pow of c * t", N, a.pow(A, 0), h.at(i)); } }
POW(1, 3) POW(2, 0) POW(2, 1) POW(3, 1) POW(2, 2) POW(3, 2) POW(3, 3) POW(4, 2) POW(3, 5)
W(pow_zero) { S a(std::vector<R>{rc(0), rc(0), rc(0)}); COEF("pow of the zero series", 3, a.pow(7, 0), rc(0)); COEF("pow of the zero series", 3, a.pow(1000), rc(0)); COEF("pow of the zero series", 3, a.pow(0, 0), rc(i == 0)); }
// Newton iteration: the root of F(y) = 1 / y - s is 1 / s
#define NWT(N) W(newton_##N) { S a = ser(N, 0); if (nz(rsym(0))) { S r = S::find_root(rc(1) / rsym(0), N, [&](const S& y) { S s(a.p, N); s.resize(y.size()); return y * y * s - y; }); for (int i = 0; i < N; i++) EQ("Newton iteration for the inverse", mulc(a, r, i), rc(i == 0)); vf_ieq("find_root order", r.size(), N); } }
NWT(1) NWT(2) NWT(3)
typedef series<R, 3> C3;
W(constant_order) { C3 a{rsym(0), rsym(1), rsym(2)}, b(rsym(7)); vf_ieq("constant order", a.N(), 3); vf_ieq("padded size", b.p.size(), 3); EQ("constant", b.at(0), rsym(7)); EQ("constant", b.at(1), rc(0)); C3 c = a * a; EQ("truncated product", c.at(2), rsym(0) * rsym(2) + rsym(1) * rsym(1) + rsym(2) * rsym(0)); vf_ieq("product size", c.p.size(), 3); C3 d(P(std::vector<R>{rsym(0), rsym(1), rsym(2), rsym(3), rsym(4)})); vf_ieq("a longer polynomial is truncated", d.p.size(), 3); C3 e(d + b); EQ("sum", e.at(0), rsym(0) + rsym(7)); }
