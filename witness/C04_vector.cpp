#include "ring.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
using namespace altruct::math;
#define ASG(T, a, op, b) ([&]{ T t_ = a; T& u_ = (t_ op b); (void)u_; return t_; }())
typedef vector2d<R> V2; typedef vector3d<R> V3; typedef vectorNd<R, 4> VN; typedef vectorNd<R, 1> VS;
INL R rc(int c) { return rhandle(rsym(0), ring_cst(c)); }
INL V2 v2(int k) { return V2(rsym(k), rsym(k + 1)); } INL V3 v3(int k) { return V3(rsym(k), rsym(k + 1), rsym(k + 2)); }
INL VN vn(int k) { VN v; v[0] = rsym(k); v[1] = rsym(k + 1); v[2] = rsym(k + 2); v[3] = rsym(k + 3); return v; }
// one obligation per vector: linear form over fresh symbols
INL R form(const V2& v) { return v.x * rsym(500) + v.y * rsym(501); }
INL R form(const V3& v) { return v.x * rsym(500) + v.y * rsym(501) + v.z * rsym(502); }
INL R form(const VN& v) { return v.a[0] * rsym(500) + v.a[1] * rsym(501) + v.a[2] * rsym(502) + v.a[3] * rsym(503); }
#ifdef VF_CTX
INL bool ok(const R& r) { return ring_eq(r.m, ring_sym(900)); }
INL bool ctx(const V2& v) { return ok(v.x) & ok(v.y); } INL bool ctx(const V3& v) { return ok(v.x) & ok(v.y) & ok(v.z); }
INL bool ctx(const VN& v) { return ok(v.a[0]) & ok(v.a[1]) & ok(v.a[2]) & ok(v.a[3]); }
#define IS(name, got, exp) do { auto g_ = (got); vf_true(name " {context}", ctx(g_)); } while (0)
#else
#define IS(name, got, exp) do { auto g_ = (got); vf_eq(name, form(g_).h, form(exp).h); } while (0)
#endif
INL VN N4(R a, R b, R c, R d) { VN v; v[0] = a; v[1] = b; v[2] = c; v[3] = d; return v; }
W(v2) { V2 a = v2(0), b = v2(10), c = v2(30); R t = rsym(20);
    IS("2d a+b", a + b, V2(a.x + b.x, a.y + b.y)); IS("2d a-b", a - b, V2(a.x - b.x, a.y - b.y)); IS("2d -a", -a, V2(-a.x, -a.y)); IS("2d a*b", a * b, V2(a.x * b.x, a.y * b.y)); IS("2d a/b", a / b, V2(a.x / b.x, a.y / b.y));
    IS("2d a*t", a * t, V2(a.x * t, a.y * t)); IS("2d a/t", a / t, V2(a.x / t, a.y / t));
    EQ("2d a&b", a & b, a.x * b.x + a.y * b.y); EQ("2d a^b", a ^ b, a.x * b.y - a.y * b.x);
    EQ("2d c.dot(a,b)", c.dot(a, b), (a.x - c.x) * (b.x - c.x) + (a.y - c.y) * (b.y - c.y)); EQ("2d c.cross(a,b)", c.cross(a, b), (a.x - c.x) * (b.y - c.y) - (a.y - c.y) * (b.x - c.x));
    IS("2d rot", a.rot(b), V2(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x)); IS("2d irot(rot)", a.rot(b).irot(b), a * (b & b)); IS("2d rot(irot)", a.irot(b).rot(b), a * (b & b)); IS("2d perp", a.perp(), V2(-a.y, a.x));
    EQ("2d abs2", a.abs2(), a & a); EQ("2d diff2", a.diff2(), a.x * a.x - a.y * a.y); EQ("2d abs1", a.abs1(), sqrtT(a.x * a.x + a.y * a.y)); }
W(v2_asg) { V2 a = v2(0), b = v2(10); R t = rsym(20);
    IS("2d a+=b", ASG(V2, a, +=, b), a + b); IS("2d a-=b", ASG(V2, a, -=, b), a - b); IS("2d a*=b", ASG(V2, a, *=, b), a * b); IS("2d a/=b", ASG(V2, a, /=, b), a / b); IS("2d a*=t", ASG(V2, a, *=, t), a * t); IS("2d a/=t", ASG(V2, a, /=, t), a / t); }
W(v2_self) { V2 a = v2(0);
    IS("2d a+=a", ASG(V2, a, +=, t_), a + a); IS("2d a-=a", ASG(V2, a, -=, t_), a - a); IS("2d a*=a", ASG(V2, a, *=, t_), a * a); IS("2d a/=a", ASG(V2, a, /=, t_), a / a);
    IS("2d a*=a.x", ASG(V2, a, *=, t_.x), a * a.x); IS("2d a/=a.x", ASG(V2, a, /=, t_.x), a / a.x); IS("2d a*=a.y", ASG(V2, a, *=, t_.y), a * a.y); IS("2d a/=a.y", ASG(V2, a, /=, t_.y), a / a.y); }
W(v3) { V3 a = v3(0), b = v3(10), c = v3(30); R t = rsym(20);
    IS("3d a+b", a + b, V3(a.x + b.x, a.y + b.y, a.z + b.z)); IS("3d a-b", a - b, V3(a.x - b.x, a.y - b.y, a.z - b.z)); IS("3d -a", -a, V3(-a.x, -a.y, -a.z)); IS("3d +a", +a, a); IS("3d a*b", a * b, V3(a.x * b.x, a.y * b.y, a.z * b.z)); IS("3d a/b", a / b, V3(a.x / b.x, a.y / b.y, a.z / b.z));
    IS("3d a*t", a * t, V3(a.x * t, a.y * t, a.z * t)); IS("3d t*a", t * a, V3(a.x * t, a.y * t, a.z * t)); IS("3d a/t", a / t, V3(a.x / t, a.y / t, a.z / t));
    EQ("3d a&b", a & b, a.x * b.x + a.y * b.y + a.z * b.z); V3 e(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); IS("3d a^b", a ^ b, e);
    EQ("3d (a^b)&a", (a ^ b) & a, rc(0)); EQ("3d |a^b|^2", (a ^ b).abs2(), a.abs2() * b.abs2() - (a & b) * (a & b));
    EQ("3d c.dot(a,b)", c.dot(a, b), (a.x - c.x) * (b.x - c.x) + (a.y - c.y) * (b.y - c.y) + (a.z - c.z) * (b.z - c.z)); IS("3d c.cross(a,b)", c.cross(a, b), (a - c) ^ (b - c));
    EQ("3d abs2", a.abs2(), a.x * a.x + a.y * a.y + a.z * a.z); EQ("3d abs1", a.abs1(), sqrtT(a.x * a.x + a.y * a.y + a.z * a.z)); }
W(v3_asg) { V3 a = v3(0), b = v3(10); R t = rsym(20);
    IS("3d a+=b", ASG(V3, a, +=, b), a + b); IS("3d a-=b", ASG(V3, a, -=, b), a - b); IS("3d a*=b", ASG(V3, a, *=, b), a * b); IS("3d a/=b", ASG(V3, a, /=, b), a / b); IS("3d a^=b", ASG(V3, a, ^=, b), a ^ b); IS("3d a*=t", ASG(V3, a, *=, t), a * t); IS("3d a/=t", ASG(V3, a, /=, t), a / t); }
W(v3_self) { V3 a = v3(0);
    IS("3d a+=a", ASG(V3, a, +=, t_), a + a); IS("3d a-=a", ASG(V3, a, -=, t_), a - a); IS("3d a*=a", ASG(V3, a, *=, t_), a * a); IS("3d a/=a", ASG(V3, a, /=, t_), a / a); IS("3d a^=a", ASG(V3, a, ^=, t_), a ^ a);
    IS("3d a*=a.x", ASG(V3, a, *=, t_.x), a * a.x); IS("3d a/=a.x", ASG(V3, a, /=, t_.x), a / a.x); IS("3d a*=a.y", ASG(V3, a, *=, t_.y), a * a.y); IS("3d a/=a.z", ASG(V3, a, /=, t_.z), a / a.z); }
#define EW(op) N4(a[0] op b[0], a[1] op b[1], a[2] op b[2], a[3] op b[3])
#define ET(op) N4(a[0] op t, a[1] op t, a[2] op t, a[3] op t)
W(vN) { VN a = vn(0), b = vn(10); R t = rsym(20);
    IS("Nd a+b", a + b, EW(+)); IS("Nd a-b", a - b, EW(-)); IS("Nd a*b", a * b, EW(*)); IS("Nd a/b", a / b, EW(/)); IS("Nd a%b", a % b, EW(%)); IS("Nd -a", -a, N4(-a[0], -a[1], -a[2], -a[3]));
    IS("Nd a+t", a + t, ET(+)); IS("Nd a-t", a - t, ET(-)); IS("Nd a*t", a * t, ET(*)); IS("Nd a/t", a / t, ET(/)); IS("Nd a%t", a % t, ET(%));
    EQ("Nd abs2", a.abs2(), a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]);
    IS("Nd fill", VN(t), N4(t, t, t, t)); { VN c(a); IS("Nd copy", c, a); c = b; IS("Nd assign", c, b); } { VN c; const R arr[4] = { rsym(0), rsym(1), rsym(2), rsym(3) }; c.assign(arr); IS("Nd assign(ptr)", c, a); }
    IS("Nd identity", identityOf(a), N4(rc(1), rc(1), rc(1), rc(1))); IS("Nd zero", zeroOf(a), N4(rc(0), rc(0), rc(0), rc(0))); }
W(vN_asg) { VN a = vn(0), b = vn(10); R t = rsym(20);
    IS("Nd a+=b", ASG(VN, a, +=, b), EW(+)); IS("Nd a-=b", ASG(VN, a, -=, b), EW(-)); IS("Nd a*=b", ASG(VN, a, *=, b), EW(*)); IS("Nd a/=b", ASG(VN, a, /=, b), EW(/)); IS("Nd a%=b", ASG(VN, a, %=, b), EW(%));
    IS("Nd a+=t", ASG(VN, a, +=, t), ET(+)); IS("Nd a-=t", ASG(VN, a, -=, t), ET(-)); IS("Nd a*=t", ASG(VN, a, *=, t), ET(*)); IS("Nd a/=t", ASG(VN, a, /=, t), ET(/)); IS("Nd a%=t", ASG(VN, a, %=, t), ET(%)); }
W(vN_self) { VN a = vn(0); VN b = a; 
    IS("Nd a+=a", ASG(VN, a, +=, t_), EW(+)); IS("Nd a-=a", ASG(VN, a, -=, t_), EW(-)); IS("Nd a*=a", ASG(VN, a, *=, t_), EW(*)); IS("Nd a/=a", ASG(VN, a, /=, t_), EW(/));
    R t = a[1]; IS("Nd a+=a[1]", ASG(VN, a, +=, t_[1]), ET(+)); IS("Nd a-=a[1]", ASG(VN, a, -=, t_[1]), ET(-)); IS("Nd a*=a[1]", ASG(VN, a, *=, t_[1]), ET(*)); IS("Nd a/=a[1]", ASG(VN, a, /=, t_[1]), ET(/)); IS("Nd a%=a[1]", ASG(VN, a, %=, t_[1]), ET(%)); }
