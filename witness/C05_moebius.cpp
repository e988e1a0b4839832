#include "ring.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/with_infinity.h"
using namespace altruct::math;
typedef moebius_tr<R> M; typedef with_infinity<R> I;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL R cj(R x) { return conjugateT<R>::of(x); }
template<int S> INL M mk(int k) { return M(rsym(k), rsym(k + 1), rsym(k + 2), rsym(k + 3), S); }
template<int S> INL R ap(const M& f, R z) { if (S < 0) z = cj(z); return (f.a * z + f.b) / (f.c * z + f.d); }
#define CHK(name, m, ea, eb, ec, ed, es) do { M m_ = (m); EQ(name " a", m_.a, ea); EQ(name " b", m_.b, eb); EQ(name " c", m_.c, ec); EQ(name " d", m_.d, ed); vf_ieq(name " s", m_.s, es); } while (0)
#define CTX(name, m) do { M m_ = (m); EQ(name " a", m_.a, m_.a); EQ(name " b", m_.b, m_.b); EQ(name " c", m_.c, m_.c); EQ(name " d", m_.d, m_.d); } while (0)
#ifdef VF_CTX
#define CX(name, m) CTX(name, m)
#else
#define CX(name, m) do {} while (0)
#endif
template<int S, int T> INL void compose(const char*, const char*) {}
#define COMPOSE(n, S, T) \
W(compose_##n) { M f = mk<S>(0), g = mk<T>(10); R z = rsym(20); \
    EQ("f(z) " #n, f(z), ap<S>(f, z)); M h = f * g; EQ("(f*g)(z) == f(g(z)) " #n, (ap<S * T>(h, z)), f(g(z))); vf_ieq("(f*g).s " #n, h.s, S * T); CX("f*g " #n, h); \
    M t = f; M& u = (t *= g); vf_true("f*=g returns the target " #n, &u == &t); EQ("(f*=g)(z) " #n, t(z), f(g(z))); CX("f*=g " #n, t); \
    t = f; t *= t; EQ("(f*=f)(z) " #n, t(z), f(f(z))); t = f; t /= t; EQ("(f/=f)(z) " #n, t(z), z); } \
W(inverse_##n) { M f = mk<S>(0), g = mk<T>(10); R z = rsym(20); \
    EQ("f.inverse()(f(z)) == z " #n, f.inverse()(f(z)), z); EQ("f(f.inverse()(z)) == z " #n, f(f.inverse()(z)), z); EQ("(f*f.inverse())(z) == z " #n, (f * f.inverse())(z), z); EQ("(f.inverse()*f)(z) == z " #n, (f.inverse() * f)(z), z); \
    vf_ieq("(f*f.inverse()).s " #n, (f * f.inverse()).s, 1); CX("inverse " #n, f.inverse()); } \
W(quotient_##n) { M f = mk<S>(0), g = mk<T>(10); R z = rsym(20); EQ("(f/g)(g(z)) == f(z) " #n, (f / g)(g(z)), f(z)); M t = f; t /= g; EQ("(f/=g)(g(z)) == f(z) " #n, t(g(z)), f(z)); CX("f/g " #n, t); }
COMPOSE(mm, 1, 1) COMPOSE(ma, 1, -1) COMPOSE(am, -1, 1) COMPOSE(aa, -1, -1)
W(normalize) { M f = mk<1>(0), g = mk<-1>(0); R z = rsym(20), a = f.a, b = f.b; bool nz = !(a == rc(0)) || !(b == rc(0));
    M n = f, m = g; M& u = n.normalize(); vf_true("normalize returns the target", &u == &n); m.normalize(); CX("normalize", n);
    if (nz) { EQ("f.normalize()(z) == f(z)", n(z), f(z)); EQ("anti f.normalize()(z) == f(z)", m(z), g(z)); vf_ieq("normalize keeps s", m.s, -1); }
    if (!(a == rc(0))) { EQ("normalize leads with a == 1", n.a, rc(1)); } else if (!(b == rc(0))) { EQ("normalize leads with b == 1", n.b, rc(1)); }
    // proportional coefficients have the same normal form
    R k = rsym(30); M fk = M(f.a * k, f.b * k, f.c * k, f.d * k, 1); fk.normalize();
#ifndef VF_CTX
    if (nz && !(a == rc(0)) && !(a * k == rc(0))) { CHK("normalize(k*f) == normalize(f)", fk, n.a, n.b, n.c, n.d, 1); }
#endif
}
W(factories) { R z = rsym(20), w = rsym(21), e = rc(1), o = rc(0);
    CHK("identity", identityOf(mk<1>(0)), e, o, o, e, 1); EQ("zeroOf(f)(z)", zeroOf(mk<1>(0))(z), o); CX("zero", zeroOf(mk<1>(0)));
    EQ("scaling", M::scaling(w)(z), w * z); EQ("translation", M::translation(w)(z), z + w); EQ("rotation", M::rotation(w)(z), w * z);
    EQ("flip_x", M::flip_x(e)(z), -cj(z)); EQ("flip_y", M::flip_y(e)(z), cj(z)); EQ("inversion", M::inversion(e)(z), e / cj(z)); EQ("from scalar", M(w)(z), w * z);
    CX("scaling", M::scaling(w)); CX("translation", M::translation(w)); CX("rotation", M::rotation(w)); CX("flip_x", M::flip_x(e)); CX("flip_y", M::flip_y(e)); CX("inversion", M::inversion(e)); CX("from scalar", M(w));
    { M f = mk<-1>(0); M g = f; CHK("copy", g, f.a, f.b, f.c, f.d, -1); M h = mk<1>(10); h = f; CHK("assign", h, f.a, f.b, f.c, f.d, -1); }
    EQ("castOf(f, 3)", castOf(mk<1>(0), 3)(z), rc(3) * z); CX("castOf(f, 3)", castOf(mk<1>(0), 3)); }
// the point at infinity
typedef moebius_tr<I> MI;
W(infinity) { R o = rc(0); MI f(I(rsym(0)), I(rsym(1)), I(rsym(2)), I(rsym(3)), +1); R a = rsym(0), b = rsym(1), c = rsym(2), d = rsym(3), z = rsym(20);
    I fi = f(I(rsym(5), 1)); if (c == o) { if (!(a == o)) vf_true("f(inf) is infinite when c == 0", fi.is_inf != 0); } else { vf_true("f(inf) is finite when c != 0", fi.is_inf == 0); EQ("f(inf) == a/c", fi.v, a / c); }
    I fz = f(I(z)); R den = c * z + d, num = a * z + b; if (den == o) { if (!(num == o)) vf_true("f(z) is infinite at the pole", fz.is_inf != 0); } else { vf_true("f(z) is finite elsewhere", fz.is_inf == 0); EQ("f(z) over with_infinity", fz.v, num / den); } }
W(infinity_real) { moebius_tr<double> f(2.0); (void)&moebius_tr<double>::operator(); vf_true("infinityT<double> usable", true); }
static auto real_call = &moebius_tr<double>::operator(); static auto real_call_f = &moebius_tr<float>::operator();
extern decltype(real_call)* keep1; decltype(real_call)* keep1 = &real_call; extern decltype(real_call_f)* keep2; decltype(real_call_f)* keep2 = &real_call_f;
