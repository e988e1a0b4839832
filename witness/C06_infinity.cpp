#include "ring.h"
#include "altruct/structure/math/with_infinity.h"
using namespace altruct::math;
typedef with_infinity<R> I;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
#define ASG(a, op, b) ([&]{ I t_ = a; I& u_ = (t_ op b); (void)u_; return t_; }())
#define FIN(name, e, val) do { I r_ = (e); vf_true(name " is finite", r_.is_inf == 0); EQ(name, r_.v, val); } while (0)
#define INF(name, e) do { I r_ = (e); vf_true(name " is infinite", r_.is_inf != 0); EQ(name " payload", r_.v, r_.v); } while (0)
#define BOTH_FIN(nm, x, op, y, val) FIN(nm, (x op y), val); FIN(nm " (in place)", ASG(x, op##=, y), val)
#define BOTH_INF(nm, x, op, y) INF(nm, (x op y)); INF(nm " (in place)", ASG(x, op##=, y))
INL bool zero(const R& x) { return x == rc(0); }
W(table) { R a = rsym(0), b = rsym(1); I z(a), w(b), p(rsym(2), 1), q(rsym(3), 1);
    BOTH_FIN("z + w", z, +, w, a + b); BOTH_INF("z + inf", z, +, p); BOTH_INF("inf + z", p, +, z); BOTH_INF("inf + inf", p, +, q);
    BOTH_FIN("z - w", z, -, w, a - b); BOTH_INF("z - inf", z, -, p); BOTH_INF("inf - z", p, -, z);
    BOTH_FIN("z * w", z, *, w, a * b); if (!zero(a)) { BOTH_INF("z * inf", z, *, p); BOTH_INF("inf * z", p, *, z); BOTH_INF("z / 0", z, /, I(rc(0))); }
    BOTH_INF("inf * inf", p, *, q); if (!zero(b)) { BOTH_FIN("z / w", z, /, w, a / b); BOTH_INF("inf / z", p, /, w); } BOTH_FIN("z / inf", z, /, p, rc(0)); BOTH_INF("inf / 0", p, /, I(rc(0)));
    if (!zero(b)) { FIN("z % w", z % w, a % b); }
    FIN("-z", -z, -a); INF("-inf", -p); FIN("inverse of inf", p.inverse(), rc(0)); INF("inverse of 0", I(rc(0)).inverse()); if (!zero(a)) { FIN("inverse of z", z.inverse(), rc(1) / a); } }
W(self) { R a = rsym(0); I z(a), p(rsym(2), 1); FIN("z += z", ASG(z, +=, t_), a + a); FIN("z -= z", ASG(z, -=, t_), a - a); FIN("z *= z", ASG(z, *=, t_), a * a); if (!zero(a)) { FIN("z /= z", ASG(z, /=, t_), a / a); } INF("inf += inf (same object)", ASG(p, +=, t_)); INF("inf *= inf (same object)", ASG(p, *=, t_)); }
W(traits) { R a = rsym(0); I z(a), p(rsym(2), 1); FIN("identityOf(z)", identityOf(z), rc(1)); FIN("zeroOf(z)", zeroOf(z), rc(0)); FIN("identityOf(inf)", identityOf(p), rc(1)); FIN("zeroOf(inf)", zeroOf(p), rc(0));
    FIN("conjugate of z", conjugateT<I>::of(z), conjugateT<R>::of(a)); INF("conjugate of inf", conjugateT<I>::of(p)); vf_true("infinityT(z)", !infinityT<I>::is(z)); vf_true("infinityT(inf)", infinityT<I>::is(p));
    FIN("castOf(z, 3)", castOf(z, 3), rc(3)); FIN("castOf(inf, 3)", castOf(p, 3), rc(3)); FIN("copy of z", I(z), a); INF("copy of inf", I(p)); { I t(p); t = z; FIN("assign z over inf", t, a); t = p; INF("assign inf over z", t); } }
