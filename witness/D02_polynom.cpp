#include "ring.h"
#include "altruct/structure/math/polynom.h"
using namespace altruct::math;
typedef polynom<R> P;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL P poly(int n, int k) { std::vector<R> v; v.reserve(n + 1); for (int i = 0; i <= n; i++) v.push_back(rsym(k + i)); return P(std::move(v)); }
INL bool nz(const R& x) { return !(x == rc(0)); }
#define LEAD(k) if (nz(rsym(k)))
// coefficient of x^i of a polynomial given by symbols k.. of degree n
INL R sy(int i, int n, int k) { return i < 0 || i > n ? rc(0) : rsym(k + i); }
INL R prodc(int i, int a, int ka, int b, int kb) { R s = rc(0); for (int j = 0; j <= i; j++) if (j <= a && i - j <= b) s += sy(j, a, ka) * sy(i - j, b, kb); return s; }
#define SAME(nm, p, d, e) do { const P& p_ = (p); vf_ieq(nm " degree", p_.deg(), d); for (int i = 0; i <= (d) + 1; i++) EQ(nm, p_.at(i), e); } while (0)
#define KEEP(nm, p, n, k) do { for (int i = 0; i <= (n); i++) EQ(nm " keeps its operand", p.at(i), sy(i, n, k)); } while (0)
#define AR(A, B) W(add_##A##_##B) { P p = poly(A, 0), q = poly(B, 20); const int M = A > B ? A : B; LEAD(A) LEAD(20 + B) { \
  P s = p + q; for (int i = 0; i <= M + 1; i++) EQ("p + q", s.at(i), sy(i, A, 0) + sy(i, B, 20)); s = p - q; for (int i = 0; i <= M + 1; i++) EQ("p - q", s.at(i), sy(i, A, 0) - sy(i, B, 20)); s = -p; SAME("-p", s, A, -sy(i, A, 0)); \
  P t = p; P& u = (t += q); vf_true("p += q returns the target", &u == &t); for (int i = 0; i <= M + 1; i++) EQ("p += q", t.at(i), sy(i, A, 0) + sy(i, B, 20)); t = p; t -= q; for (int i = 0; i <= M + 1; i++) EQ("p -= q", t.at(i), sy(i, A, 0) - sy(i, B, 20)); \
  t = p; t += t; for (int i = 0; i <= A + 1; i++) EQ("p += p", t.at(i), sy(i, A, 0) + sy(i, A, 0)); t = p; t -= t; for (int i = 0; i <= A + 1; i++) EQ("p -= p", t.at(i), rc(0)); KEEP("p + q", p, A, 0); KEEP("p + q", q, B, 20); } } \
W(mul_##A##_##B) { P p = poly(A, 0), q = poly(B, 20); LEAD(A) LEAD(20 + B) { P s = p * q; for (int i = 0; i <= A + B + 1; i++) EQ("p * q", s.at(i), prodc(i, A, 0, B, 20)); P t = p; t *= q; for (int i = 0; i <= A + B + 1; i++) EQ("p *= q", t.at(i), prodc(i, A, 0, B, 20)); \
  t = p; t *= t; for (int i = 0; i <= A + A + 1; i++) EQ("p *= p", t.at(i), prodc(i, A, 0, A, 0)); t = q; P::mul(t, p, t); for (int i = 0; i <= A + B + 1; i++) EQ("mul into its second operand", t.at(i), prodc(i, A, 0, B, 20)); \
  for (int lr = 0; lr <= A + B + 2; lr++) { P z = poly(3, 40); P::mul(z, p, q, lr); vf_ieq("truncated product size", z.size(), lr + 1); for (int i = 0; i <= lr; i++) EQ("truncated product", z.at(i), prodc(i, A, 0, B, 20)); } KEEP("p * q", p, A, 0); KEEP("p * q", q, B, 20); } }
AR(0, 0) AR(1, 0) AR(0, 1) AR(1, 1) AR(2, 1) AR(1, 2) AR(2, 2) AR(3, 1) AR(1, 3) AR(3, 3) AR(4, 2) AR(2, 4) AR(4, 4)
// the raw multiplication kernels, every truncation, distinct and shared arrays
#define RAW(A, B) W(kernel_##A##_##B) { R p[A + 1], q[B + 1], r[A + B + 1]; for (int i = 0; i <= A; i++) p[i] = rsym(i); for (int i = 0; i <= B; i++) q[i] = rsym(20 + i); \
  for (int lr = A; lr <= A + B; lr++) { for (int i = 0; i <= A + B; i++) r[i] = rsym(60 + i); P::_mul_long(r, lr, p, A, q, B); for (int i = 0; i <= A + B; i++) EQ("long multiplication", r[i], i <= lr ? prodc(i, A, 0, B, 20) : rsym(60 + i)); \
    for (int i = 0; i <= A + B; i++) r[i] = rsym(60 + i); P::_mul_karatsuba(r, lr, p, A, q, B); for (int i = 0; i <= A + B; i++) EQ("Karatsuba multiplication", r[i], i <= lr ? prodc(i, A, 0, B, 20) : rsym(60 + i)); \
    R w[A + B + 1]; for (int i = 0; i <= A + B; i++) w[i] = i <= A ? rsym(i) : rsym(60 + i); P::_mul_long(w, lr, w, A, q, B); for (int i = 0; i <= lr; i++) EQ("long multiplication in place", w[i], prodc(i, A, 0, B, 20)); \
    for (int i = 0; i <= A + B; i++) w[i] = i <= A ? rsym(i) : rsym(60 + i); P::_mul_karatsuba(w, lr, w, A, q, B); for (int i = 0; i <= lr; i++) EQ("Karatsuba multiplication in place", w[i], prodc(i, A, 0, B, 20)); \
    for (int i = 0; i <= A + B; i++) w[i] = i <= B ? rsym(20 + i) : rsym(60 + i); P::_mul_karatsuba(w, lr, p, A, w, B); for (int i = 0; i <= lr; i++) EQ("Karatsuba multiplication into the second operand", w[i], prodc(i, A, 0, B, 20)); } \
  for (int i = 0; i <= A; i++) EQ("kernel keeps the first operand", p[i], rsym(i)); for (int i = 0; i <= B; i++) EQ("kernel keeps the second operand", q[i], rsym(20 + i)); }
RAW(0, 0) RAW(1, 0) RAW(1, 1) RAW(2, 0) RAW(2, 1) RAW(2, 2) RAW(3, 1) RAW(3, 2) RAW(3, 3) RAW(4, 2) RAW(4, 3) RAW(4, 4) RAW(5, 1) RAW(5, 3) RAW(5, 5) RAW(6, 4)
#define DIV(A, B) W(divide_##A##_##B) { P p = poly(A, 0), d = poly(B, 20); LEAD(A) LEAD(20 + B) { \
  P q = p / d, r = p % d; vf_true("quotient degree", q.size() <= (A >= B ? A - B + 1 : 1)); vf_true("remainder degree", r.size() <= (B > 0 ? (A < B ? A + 1 : B) : 1)); for (int i = 0; i <= A + 1; i++) { R s = r.at(i); for (int j = 0; j <= i; j++) s += q.at(j) * sy(i - j, B, 20); EQ("(p / d) * d + p % d", s, sy(i, A, 0)); } \
  P t = p; t /= d; for (int i = 0; i <= A; i++) EQ("p /= d", t.at(i), q.at(i)); t = p; t %= d; for (int i = 0; i <= A; i++) EQ("p %= d", t.at(i), r.at(i)); t = p; t /= t; EQ("p /= p", t.at(0), rc(1)); for (int i = 1; i <= A; i++) EQ("p /= p", t.at(i), rc(0)); KEEP("p / d", p, A, 0); KEEP("p / d", d, B, 20); \
  P h, l; P::quot_rem_long(l, p, d); P::quot_rem_hensel(h, p, d); for (int i = 0; i <= A; i++) EQ("Hensel division agrees with long division", h.at(i), l.at(i)); } }
DIV(0, 0) DIV(1, 0) DIV(0, 1) DIV(1, 1) DIV(2, 1) DIV(1, 2) DIV(2, 2) DIV(3, 1) DIV(3, 2) DIV(4, 2) DIV(4, 3) DIV(5, 2)
#define MONIC(A, B) W(divide_power_##A##_##B) { P p = poly(A, 0), d; for (int i = 0; i < B; i++) d[i] = rc(0); d[B] = rc(1); LEAD(A) { P q = p / d, r = p % d; for (int i = 0; i <= A + 1; i++) EQ("p / x^n", q.at(i), sy(i + B, A, 0)); for (int i = 0; i <= A + 1; i++) EQ("p % x^n", r.at(i), i < B ? sy(i, A, 0) : rc(0)); } }
MONIC(3, 0) MONIC(3, 1) MONIC(3, 2) MONIC(3, 3) MONIC(2, 3)
#define ONE(A) W(unary_##A) { P p = poly(A, 0); R x = rsym(50), s = rsym(51); LEAD(A) { R e = rc(0), pw = rc(1); for (int i = 0; i <= A; i++) e += sy(i, A, 0) * pw, pw *= x; EQ("p(x)", p(x), e); EQ("eval", p.eval(x), e); \
  P d = p.derivative(); for (int i = 0; i <= A + 1; i++) EQ("derivative", d.at(i), sy(i + 1, A, 0) * rc(i + 1)); P g = p.integral(s); for (int i = 0; i <= A + 2; i++) EQ("integral", g.at(i), i == 0 ? s : sy(i - 1, A, 0) / rc(i)); g = p.integral(); EQ("integral()", g.at(0), rc(0)); for (int i = 1; i <= A + 2; i++) EQ("integral()", g.at(i), sy(i - 1, A, 0) / rc(i)); \
  P m = p * s; for (int i = 0; i <= A + 1; i++) EQ("p * s", m.at(i), sy(i, A, 0) * s); m = p; m *= s; for (int i = 0; i <= A; i++) EQ("p *= s", m.at(i), sy(i, A, 0) * s); for (int z = 0; z <= A; z++) { m = p; m *= m[z]; for (int i = 0; i <= A; i++) EQ("p *= own coefficient", m.at(i), sy(i, A, 0) * rsym(z)); if (nz(rsym(z))) { m = p; m /= m[z]; for (int i = 0; i <= A; i++) EQ("p /= own coefficient", m.at(i), sy(i, A, 0) / rsym(z)); } } \
  if (nz(s)) { m = p / s; for (int i = 0; i <= A + 1; i++) EQ("p / s", m.at(i), sy(i, A, 0) / s); m = p; m /= s; for (int i = 0; i <= A; i++) EQ("p /= s", m.at(i), sy(i, A, 0) / s); } \
  P r = p.reverse(); for (int i = 0; i <= A + 1; i++) EQ("reverse", r.at(i), sy(A - i, A, 0)); vf_ieq("degree", p.deg(), A); EQ("leading coefficient", p.leading_coeff(), rsym(A)); \
  P c = p; vf_true("copy equals", c == p); P w = poly(2, 60); c.swap(w); for (int i = 0; i <= A; i++) EQ("swap", w.at(i), sy(i, A, 0)); for (int i = 0; i <= 2; i++) EQ("swap", c.at(i), rsym(60 + i)); c = p; c.reserve(A + 4); c.shrink_to_fit(); vf_ieq("shrink_to_fit", c.size(), A + 1); \
  P o = identityOf(p), z = zeroOf(p); EQ("identity", o.at(0), rc(1)); vf_ieq("identity degree", o.deg(), 0); EQ("zero", z.at(0), rc(0)); vf_ieq("zero degree", z.deg(), 0); KEEP("unary", p, A, 0); } }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(5)
#define INV(A, L) W(inverse_##A##_##L) { P p = poly(A, 0); if (nz(rsym(0))) { P r = p.inverse(L); vf_true("inverse length", r.size() <= L); for (int i = 0; i < L; i++) { R s = rc(0); for (int j = 0; j <= i; j++) s += r.at(j) * sy(i - j, A, 0); EQ("p * p.inverse(L) == 1 + O(x^L)", s, rc(i == 0)); } KEEP("inverse", p, A, 0); } }
INV(0, 1) INV(0, 3) INV(1, 1) INV(1, 2) INV(1, 3) INV(1, 4) INV(2, 3) INV(2, 5) INV(3, 4) INV(4, 5) INV(4, 3)
// comparison is lexicographic from the top, independent of trailing zeros
W(compare) { P p = poly(1, 0), q = poly(1, 20); IFF("p == q", p == q, rsym(0) == rsym(20) && rsym(1) == rsym(21)); IFF("p < q", p < q, rsym(1) < rsym(21) || (!(rsym(21) < rsym(1)) && rsym(0) < rsym(20))); P z = p; z.reserve(4); TRUE_("trailing zeros do not matter", z == p && !(z < p) && !(z > p)); }
