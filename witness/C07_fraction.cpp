#include "ring.h"
#include "altruct/structure/math/fraction.h"
using namespace altruct::math;
typedef fraction<R> F;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL F raw(int k) { F f(rc(0)); f.p = rsym(k); f.q = rsym(k + 1); return f; }
#define ASG(a, op, b) ([&]{ F t_ = a; F& u_ = (t_ op b); (void)u_; return t_; }())
// value, sign of the denominator, lowest terms
#define IS(name, e, val) do { F r_ = (e); EQ(name, r_.p / r_.q, val); NORMAL(name, r_); CXT(name, r_); } while (0)
#ifdef VF_CTX
#define NORMAL(name, r) do {} while (0)
#define CXT(name, r) do { EQ(name " p", (r).p, (r).p); EQ(name " q", (r).q, (r).q); } while (0)
#else
#define NORMAL(name, r) do { R g_ = gcd((r).p, (r).q); vf_eq(name " lowest terms", ring_mul(g_.h, g_.h), ring_cst(1)); vf_true(name " denominator is not negative", !((r).q < rc(0))); } while (0)
#define CXT(name, r) do {} while (0)
#endif
#define OPS(fn, nm, op, val) W(fn) { F x = raw(0), y = raw(10); R a = x.p / x.q, b = y.p / y.q; IS("x " nm " y", x op y, val); IS("x " nm "= y", ASG(x, op##=, y), val); vf_true("x " nm "= y returns the target", ([&]{ F t = x; return &(t op##= y) == &t; }())); } \
W(fn##_self) { F x = raw(0); R a = x.p / x.q, b = a; IS("x " nm "= x", ASG(x, op##=, t_), val); }
OPS(add, "+", +, a + b) OPS(sub, "-", -, a - b) OPS(mul, "*", *, a * b) OPS(div, "/", /, a / b) OPS(mod, "%", %, rc(0))
W(unary) { F x = raw(0); R a = x.p / x.q; IS("-x", -x, -a); IS("reciprocal", x.reciprocal(), rc(1) / a); IS("fraction(p, q)", F(rsym(0), rsym(1)), a); { F y = x; y.reduce(); IS("reduce", y, a); } }
W(traits) { F x = raw(0), f(rsym(3)); EQ("fraction(p)", f.p / f.q, rsym(3)); EQ("identity p", identityOf(x).p, rc(1)); EQ("identity q", identityOf(x).q, rc(1)); EQ("zero p", zeroOf(x).p, rc(0)); EQ("zero q", zeroOf(x).q, rc(1)); F y = x; EQ("copy p", y.p, x.p); EQ("copy q", y.q, x.q); y = raw(10); EQ("assign p", y.p, rsym(10)); EQ("assign q", y.q, rsym(11)); }
// order of fractions in normal form is the order of p1*q2 and p2*q1
W(order) { F x = raw(0), y = raw(10); R l = x.p * y.q, r = y.p * x.q; IFF("x < y", x < y, l < r); IFF("x > y", x > y, r < l); IFF("x <= y", x <= y, !(r < l)); IFF("x >= y", x >= y, !(l < r)); IFF("x == y", x == y, x.p == y.p && x.q == y.q); IFF("x != y", x != y, !(x.p == y.p && x.q == y.q)); IFF("x == x", x == x, true); IFF("x < x", x < x, false); IFF("x <= x", x <= x, true); }
