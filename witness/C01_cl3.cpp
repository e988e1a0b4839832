#include "clifford.h"
#include "altruct/structure/math/clifford3.h"
using namespace altruct::math;
typedef Cl<3, 0> C3;
typedef cl3::rotor<R> Ro; typedef cl3::vector<R> Ve; typedef cl3::multivector<R> Mu;
INL C3 up(const Ro& r) { C3 c; c.c[0] = r.s; c.c[6] = r.yz; c.c[5] = -r.zx; c.c[3] = r.xy; return c; }
INL C3 up(const Ve& v) { C3 c; c.c[1] = v.x; c.c[2] = v.y; c.c[4] = v.z; c.c[7] = v.w; return c; }
INL C3 up(const Mu& m) { C3 c = up(m.v); c.c[0] = m.r.s; c.c[6] = m.r.yz; c.c[5] = -m.r.zx; c.c[3] = m.r.xy; return c; }
INL C3 up(const R& t) { C3 c; c.c[0] = t; return c; }
INL Ro ro(int k) { return Ro(rsym(k), rsym(k + 1), rsym(k + 2), rsym(k + 3)); }
INL Ve ve(int k) { return Ve(rsym(k), rsym(k + 1), rsym(k + 2), rsym(k + 3)); }
INL Mu mu(int k) { return Mu(ro(k), ve(k + 4)); }
#define CHK CHKC
#define MUL(a, b) clmul<0>(up(a), up(b))
#define ADD(a, b) cladd(up(a), up(b))
#define SUB(a, b) cladd(up(a), up(b), -1)
#define ONE clone_()
INL C3 clone_() { C3 c; c.c[0] = rhandle(rsym(0), ring_cst(1)); return c; }
#define ASG(T, a, op, b) ([&]{ T t_ = a; T& u_ = (t_ op b); (void)u_; return t_; }())
#define SELF(T, a, op) ([&]{ T t_ = a; t_ op t_; return t_; }())
W(mul) {
    Ro r = ro(0), s = ro(4); Ve v = ve(8), u = ve(12); Mu m = mu(16), n = mu(24); R t = rsym(40);
    CHK("rotor*rotor", r * s, MUL(r, s)); CHK("rotor*vector", r * v, MUL(r, v)); CHK("vector*rotor", v * r, MUL(v, r)); CHK("vector*vector", v * u, MUL(v, u));
    CHK("multivector*rotor", m * r, MUL(m, r)); CHK("multivector*vector", m * v, MUL(m, v)); CHK("multivector*multivector", m * n, MUL(m, n));
    CHK("rotor*multivector", r * m, MUL(r, m)); CHK("vector*multivector", v * m, MUL(v, m));
    CHK("rotor*scalar", r * t, MUL(r, t)); CHK("vector*scalar", v * t, MUL(v, t)); CHK("multivector*scalar", m * t, MUL(m, t));
    CHK("scalar*rotor", t * r, MUL(t, r)); CHK("scalar*vector", t * v, MUL(t, v)); CHK("scalar*multivector", t * m, MUL(t, m));
    CHK("rotor*=rotor", ASG(Ro, r, *=, s), MUL(r, s)); CHK("rotor*=scalar", ASG(Ro, r, *=, t), MUL(r, t));
    CHK("vector*=rotor", ASG(Ve, v, *=, r), MUL(v, r)); CHK("vector*=scalar", ASG(Ve, v, *=, t), MUL(v, t));
    CHK("multivector*=rotor", ASG(Mu, m, *=, r), MUL(m, r)); CHK("multivector*=vector", ASG(Mu, m, *=, v), MUL(m, v));
    CHK("multivector*=multivector", ASG(Mu, m, *=, n), MUL(m, n)); CHK("multivector*=scalar", ASG(Mu, m, *=, t), MUL(m, t));
    CHK("rotor*=self", SELF(Ro, r, *=), MUL(r, r)); CHK("multivector*=self", SELF(Mu, m, *=), MUL(m, m));
}
W(mul_own) {
    Ro r = ro(0); Mu m = mu(16);
    { Mu x = m; x *= x.r; CHK("multivector*=own even part", x, MUL(m, m.r)); }
    { Mu x = m; x *= x.v; CHK("multivector*=own odd part", x, MUL(m, m.v)); }
    { Ro x = r; x *= x.s; CHK("rotor*=own scalar", x, MUL(r, r.s)); }
    { Ve x = m.v; x *= x.x; CHK("vector*=own component", x, MUL(m.v, m.v.x)); }
    { Mu x = m; x *= x.r.s; CHK("multivector*=own scalar", x, MUL(m, m.r.s)); }
}
W(add) {
    Ro r = ro(0), s = ro(4); Ve v = ve(8), u = ve(12); Mu m = mu(16), n = mu(24);
    CHK("rotor+rotor", r + s, ADD(r, s)); CHK("rotor-rotor", r - s, SUB(r, s)); CHK("-rotor", -r, SUB(R(0), r));
    CHK("vector+vector", v + u, ADD(v, u)); CHK("vector-vector", v - u, SUB(v, u)); CHK("-vector", -v, SUB(R(0), v));
    CHK("multivector+multivector", m + n, ADD(m, n)); CHK("multivector-multivector", m - n, SUB(m, n)); CHK("-multivector", -m, SUB(R(0), m));
    CHK("multivector+rotor", m + r, ADD(m, r)); CHK("multivector-rotor", m - r, SUB(m, r)); CHK("multivector+vector", m + v, ADD(m, v)); CHK("multivector-vector", m - v, SUB(m, v));
    CHK("rotor+vector", r + v, ADD(r, v)); CHK("vector+rotor", v + r, ADD(v, r)); CHK("rotor-vector", r - v, SUB(r, v)); CHK("vector-rotor", v - r, SUB(v, r));
    CHK("rotor+multivector", r + m, ADD(r, m)); CHK("vector+multivector", v + m, ADD(v, m)); CHK("rotor-multivector", r - m, SUB(r, m)); CHK("vector-multivector", v - m, SUB(v, m));
    CHK("rotor+=rotor", ASG(Ro, r, +=, s), ADD(r, s)); CHK("rotor-=rotor", ASG(Ro, r, -=, s), SUB(r, s));
    CHK("vector+=vector", ASG(Ve, v, +=, u), ADD(v, u)); CHK("vector-=vector", ASG(Ve, v, -=, u), SUB(v, u));
    CHK("multivector+=rotor", ASG(Mu, m, +=, r), ADD(m, r)); CHK("multivector-=rotor", ASG(Mu, m, -=, r), SUB(m, r));
    CHK("multivector+=vector", ASG(Mu, m, +=, v), ADD(m, v)); CHK("multivector-=vector", ASG(Mu, m, -=, v), SUB(m, v));
    CHK("multivector+=multivector", ASG(Mu, m, +=, n), ADD(m, n)); CHK("multivector-=multivector", ASG(Mu, m, -=, n), SUB(m, n));
    CHK("rotor+=self", SELF(Ro, r, +=), ADD(r, r)); CHK("rotor-=self", SELF(Ro, r, -=), SUB(r, r)); CHK("vector+=self", SELF(Ve, v, +=), ADD(v, v)); CHK("vector-=self", SELF(Ve, v, -=), SUB(v, v));
    CHK("multivector+=self", SELF(Mu, m, +=), ADD(m, m)); CHK("multivector-=self", SELF(Mu, m, -=), SUB(m, m));
}
W(invol) {
    Ro r = ro(0); Ve v = ve(8); Mu m = mu(16);
    CHK("rotor.rev", r.rev(), clrev(up(r))); CHK("vector.rev", v.rev(), clrev(up(v))); CHK("multivector.rev", m.rev(), clrev(up(m)));
    CHK("rotor.conj", r.conj(), clconj(up(r))); CHK("vector.conj", v.conj(), clconj(up(v))); CHK("multivector.conj", m.conj(), clconj(up(m)));
    CHK("conjugate trait rotor", conjugateT<Ro>::of(r), clconj(up(r))); CHK("conjugate trait vector", conjugateT<Ve>::of(v), clconj(up(v))); CHK("conjugate trait multivector", conjugateT<Mu>::of(m), clconj(up(m)));
    EQ("rotor.abs2", r.abs2(), clmul<0>(up(r), clrev(up(r))).c[0]); EQ("vector.abs2", v.abs2(), clmul<0>(up(v), clrev(up(v))).c[0]);
    EQ("rotor.abs1", r.abs1(), sqrtT(r.abs2(), R(1))); EQ("vector.abs1", v.abs1(), sqrtT(v.abs2(), R(1)));
    CHK("rotor.unit*abs1", r.unit() * r.abs1(), up(r)); CHK("vector.unit*abs1", v.unit() * v.abs1(), up(v));
    CHK("rotate", v.rotate(r), clmul<0>(clmul<0>(up(r), up(v)), clrev(up(r))));
    Ve u = ve(12); CHK("reflect", v.reflect(u), clscale(clmul<0>(clmul<0>(up(u), up(v)), clrev(up(u))), R(-1)));
    CHK("make_reflector*abs1", cl3::make_reflector(v) * v.abs1(), up(v));
    Ve f = ve(8), g = ve(12); auto q = cl3::make_rotor(f, g); { Ro e = g.unit() * f.unit() + rhandle(rsym(0), ring_cst(1)); CHK("make_rotor", q * e.abs1(), up(e)); }
}
W(inv) {
    Ro r = ro(0), s = ro(4); Ve v = ve(8); R t = rsym(40);
    CHK("rotor*rotor.inv", r * r.inv(), ONE); CHK("rotor.inv*rotor", r.inv() * r, ONE);
    CHK("vector/scalar*scalar", (v / t) * t, up(v)); CHK("rotor/scalar*scalar", (r / t) * t, up(r));
    CHK("(rotor/rotor)*rotor", (r / s) * s, up(r)); CHK("(vector/rotor)*rotor", (v / r) * r, up(v)); CHK("(scalar/rotor)*rotor", (t / r) * r, up(t));
    CHK("rotor/=rotor", ASG(Ro, r, /=, s), up(r / s)); CHK("vector/=rotor", ASG(Ve, v, /=, s), up(v / s)); CHK("rotor/=scalar", ASG(Ro, r, /=, t), up(r / t)); CHK("vector/=scalar", ASG(Ve, v, /=, t), up(v / t));
    CHK("rotor/=self", SELF(Ro, r, /=), ONE);
}
W(inv_vector) { // a vector's inverse exists when it has no trivector part (or only that)
    R z = rhandle(rsym(0), ring_cst(0)); Ro r = ro(0); Ve v(rsym(8), rsym(9), rsym(10), z), w(z, z, z, rsym(11)), u = ve(12); R t = rsym(40);
    CHK("vector*vector.inv", v * v.inv(), ONE); CHK("vector.inv*vector", v.inv() * v, ONE); CHK("trivector*trivector.inv", w * w.inv(), ONE);
    CHK("(vector/vector)*vector", (u / v) * v, up(u)); CHK("(rotor/vector)*vector", (r / v) * v, up(r)); CHK("(scalar/vector)*vector", (t / v) * v, up(t));
    Mu m = mu(16);
    CHK("(multivector/vector)*vector", (m / v) * v, up(m)); CHK("(multivector/rotor)*rotor", (m / r) * r, up(m)); CHK("(multivector/scalar)*scalar", (m / t) * t, up(m));
    CHK("multivector/=vector", ASG(Mu, m, /=, v), up(m / v)); CHK("multivector/=rotor", ASG(Mu, m, /=, r), up(m / r)); CHK("multivector/=scalar", ASG(Mu, m, /=, t), up(m / t));
}
W(inv_multi) { // the general inverse, with the two parts reduced to their commuting planes so the rational functions stay small
    R z = rhandle(rsym(0), ring_cst(0));
    Mu m(Ro(rsym(0), z, z, rsym(1)), Ve(rsym(2), z, z, z)); Mu n(Ro(rsym(3), z, z, z), Ve(rsym(4), rsym(5), z, z)); Mu o(Ro(z, z, z, z), Ve(rsym(6), rsym(7), rsym(8), z));
    CHK("multivector{s,xy;x}.inv", m * m.inv(), ONE); CHK("multivector{s;x,y}.inv", n * n.inv(), ONE); CHK("multivector{;x,y,z}.inv", o * o.inv(), ONE);
    CHK("multivector{s,xy;x}.inv left", m.inv() * m, ONE);
    R t = rsym(40); CHK("scalar/multivector", (t / m) * m, up(t)); CHK("rotor/multivector", (n.r / m) * m, up(n.r)); CHK("vector/multivector", (n.v / m) * m, up(n.v)); CHK("multivector/multivector", (n / m) * m, up(n));
    CHK("multivector/=multivector", ASG(Mu, n, /=, m) * m, up(n));
}
W(ctor) {
    R t = rsym(40), a = rsym(41), b = rsym(42), c = rsym(43); Ro r = ro(0); Ve v = ve(8);
    CHK("rotor(scalar)", Ro(t), up(t)); { C3 e; e.c[1] = a; e.c[2] = b; e.c[4] = c; CHK("vector(x,y,z)", Ve(a, b, c), e); }
    CHK("multivector(rotor)", Mu(r), up(r)); CHK("multivector(vector)", Mu(v), up(v)); CHK("multivector(rotor,vector)", Mu(r, v), ADD(r, v));
    CHK("identity rotor", identityOf(r), ONE); CHK("zero rotor", zeroOf(r), C3()); CHK("zero vector", zeroOf(v), C3()); CHK("identity multivector", identityOf(Mu(r, v)), ONE); CHK("zero multivector", zeroOf(Mu(r, v)), C3());
    CHK("cast scalar to rotor", (castOf(r, 5)), clscale(ONE, R(5))); CHK("cast scalar to multivector", (castOf(Mu(r, v), 5)), clscale(ONE, R(5)));
}
