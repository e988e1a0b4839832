#include "ring.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
using namespace altruct::math;
#define ASG(T, a, op, b) ([&]{ T t_ = a; T& u_ = (t_ op b); (void)u_; return t_; }())
// instance-stored D (symbol), class-static D, compile-time D
typedef quadraticX<R> QX; typedef quadratic<R, 5, quadratic_storage::STATIC> QS; typedef quadratic<R, 7, quadratic_storage::CONSTANT> QC; typedef complex<R> C;
template<typename Q> struct mk { static Q q(int k) { return Q(rsym(k), rsym(k + 1)); } };
template<> struct mk<QX> { static QX q(int k) { return QX(rsym(k), rsym(k + 1), rsym(50)); } };
template<typename Q> INL R dd(const Q& q) { return rhandle(rsym(0), R(const_cast<Q&>(q).D()).h); }
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
#define IS(name, q, ea, eb) do { auto q_ = (q); EQ(name " a", q_.a, ea); EQ(name " b", q_.b, eb); DCHK(name, q_); } while (0)
#define BODY(TAG, Q, DV) \
W(alg_##TAG) { Q x = mk<Q>::q(0), y = mk<Q>::q(10); R t = rsym(20), D = (DV); \
    IS(#TAG " x+y", x + y, x.a + y.a, x.b + y.b); IS(#TAG " x-y", x - y, x.a - y.a, x.b - y.b); IS(#TAG " -x", -x, -x.a, -x.b); \
    IS(#TAG " x*y", x * y, x.a * y.a + x.b * y.b * D, x.a * y.b + x.b * y.a); \
    IS(#TAG " (x/y)*y", (x / y) * y, x.a, x.b); IS(#TAG " y*(x/y)", y * (x / y), x.a, x.b); \
    IS(#TAG " x%y + y*(x/y)", x % y + y * (x / y), x.a, x.b); \
    IS(#TAG " x*t", x * t, x.a * t, x.b * t); IS(#TAG " (x/t)*t", (x / t) * t, x.a, x.b); \
    IS(#TAG " conjugate", x.conjugate(), x.a, -x.b); IS(#TAG " conjugate trait", conjugateT<Q>::of(x), x.a, -x.b); \
    EQ(#TAG " norm", x.norm(), x.a * x.a - x.b * x.b * D); \
    IS(#TAG " identity", identityOf(x), rc(1), rc(0)); IS(#TAG " zero", zeroOf(x), rc(0), rc(0)); \
    { Q z = x; IS(#TAG " copy", z, x.a, x.b); z = y; IS(#TAG " assign", z, y.a, y.b); } \
    IS(#TAG " cast with reference", castOf(x, 3), rc(3), rc(0)); } \
W(asg_##TAG) { Q x = mk<Q>::q(0), y = mk<Q>::q(10); R t = rsym(20); Q e; \
    e = x + y; IS(#TAG " x+=y", ASG(Q, x, +=, y), e.a, e.b); e = x - y; IS(#TAG " x-=y", ASG(Q, x, -=, y), e.a, e.b); e = x * y; IS(#TAG " x*=y", ASG(Q, x, *=, y), e.a, e.b); \
    e = x / y; IS(#TAG " x/=y", ASG(Q, x, /=, y), e.a, e.b); e = x % y; IS(#TAG " x%=y", ASG(Q, x, %=, y), e.a, e.b); e = x * t; IS(#TAG " x*=t", ASG(Q, x, *=, t), e.a, e.b); e = x / t; IS(#TAG " x/=t", ASG(Q, x, /=, t), e.a, e.b); } \
W(self_##TAG) { Q x = mk<Q>::q(0); Q e; \
    e = x + x; IS(#TAG " x+=x", ASG(Q, x, +=, t_), e.a, e.b); e = x - x; IS(#TAG " x-=x", ASG(Q, x, -=, t_), e.a, e.b); e = x * x; IS(#TAG " x*=x", ASG(Q, x, *=, t_), e.a, e.b); e = x / x; IS(#TAG " x/=x", ASG(Q, x, /=, t_), e.a, e.b); \
    e = x * x.a; IS(#TAG " x*=x.a", ASG(Q, x, *=, t_.a), e.a, e.b); e = x / x.a; IS(#TAG " x/=x.a", ASG(Q, x, /=, t_.a), e.a, e.b); e = x * x.b; IS(#TAG " x*=x.b", ASG(Q, x, *=, t_.b), e.a, e.b); }
#define DCHK(name, q) EQ(name " D", dd(q), rsym(50))
BODY(instance, QX, rsym(50))
#undef DCHK
#define DCHK(name, q) do {} while (0)
BODY(static, QS, QS::D())
BODY(constant, QC, rc(7))
BODY(complex, C, rc(-1))
W(static_members) { C z; EQ("complex D", rhandle(rsym(0), z.D().h), rc(-1)); QC c; EQ("constant D", rhandle(rsym(0), c.D().h), rc(7)); }
