#include "clifford.h"
#include "altruct/structure/math/pga.h"
using namespace altruct::math;
using namespace altruct::math::pga;
// generators: bit0 = e0 (null), bit1 = e1, bit2 = e2, bit3 = e3
typedef Cl<4, 1> C4;
typedef vector3d<R> V3;
typedef blade0<R> B0; typedef blade1<R> B1; typedef blade2E<R> B2E; typedef blade2e<R> B2e; typedef blade3<R> B3; typedef blade4<R> B4;
typedef blade02E<R> B02E; typedef blade02e<R> B02e; typedef blade22<R> B22; typedef blade2E4<R> B2E4; typedef blade2e4<R> B2e4; typedef blade024<R> B024; typedef blade13<R> B13; typedef pga::multivector<R> BM;
INL C4 up(const pga::zero<R>&) { return C4(); }
INL C4 up(const R& t) { C4 c; c.c[0] = t; return c; }
INL void put(C4& c, const B0& b) { c.c[0] = b.s; }
INL void put(C4& c, const B1& b) { c.c[1] = b.e0; c.c[2] = b.v.x; c.c[4] = b.v.y; c.c[8] = b.v.z; }
INL void put(C4& c, const B2E& b) { c.c[12] = b.biE.x; c.c[10] = -b.biE.y; c.c[6] = b.biE.z; }          // e23, e31 = -e13, e12
INL void put(C4& c, const B2e& b) { c.c[3] = b.bie.x; c.c[5] = b.bie.y; c.c[9] = b.bie.z; }             // e01, e02, e03
INL void put(C4& c, const B3& b) { c.c[14] = b.e123; c.c[13] = -b.triP.x; c.c[11] = b.triP.y; c.c[7] = -b.triP.z; } // e032 = -e023, e013, e021 = -e012
INL void put(C4& c, const B4& b) { c.c[15] = b.e0123; }
INL void put(C4& c, const B02E& b) { put(c, b.b0); put(c, b.b2E); }
INL void put(C4& c, const B02e& b) { put(c, b.b0); put(c, b.b2e); }
INL void put(C4& c, const B22& b) { put(c, b.b2E); put(c, b.b2e); }
INL void put(C4& c, const B2E4& b) { put(c, b.b2E); put(c, b.b4); }
INL void put(C4& c, const B2e4& b) { put(c, b.b2e); put(c, b.b4); }
INL void put(C4& c, const B024& b) { put(c, b.b02); put(c, b.b24); }
INL void put(C4& c, const B13& b) { put(c, b.b1); put(c, b.b3); }
INL void put(C4& c, const BM& b) { put(c, b.b024); put(c, b.b13); }
template<typename B> INL C4 up(const B& b) { C4 c; put(c, b); return c; }
// operands with one fresh symbol per component
INL V3 v3(int k) { return V3(rsym(k), rsym(k + 1), rsym(k + 2)); }
INL void mk(B0& b, int k) { b = B0(rsym(k)); }
INL void mk(B1& b, int k) { b = B1(rsym(k + 1), v3(k + 2)); }
INL void mk(B2E& b, int k) { b = B2E(v3(k + 5)); }
INL void mk(B2e& b, int k) { b = B2e(v3(k + 8)); }
INL void mk(B3& b, int k) { b = B3(rsym(k + 11), v3(k + 12)); }
INL void mk(B4& b, int k) { b = B4(rsym(k + 15)); }
INL void mk(B02E& b, int k) { mk(b.b0, k); mk(b.b2E, k); }
INL void mk(B02e& b, int k) { mk(b.b0, k); mk(b.b2e, k); }
INL void mk(B22& b, int k) { mk(b.b2E, k); mk(b.b2e, k); }
INL void mk(B2E4& b, int k) { mk(b.b2E, k); mk(b.b4, k); }
INL void mk(B2e4& b, int k) { mk(b.b2e, k); mk(b.b4, k); }
INL void mk(B024& b, int k) { mk(b.b02, k); mk(b.b24, k); }
INL void mk(B13& b, int k) { mk(b.b1, k); mk(b.b3, k); }
INL void mk(BM& b, int k) { mk(b.b024, k); mk(b.b13, k); }
template<typename B> INL B var(int k) { B b; mk(b, k); return b; }
template<int MASK, int... I> INL C4 fromDual_(const C4& a);
// dual by the documented table: s<->e0123, e0<->e123, v<->triP, biE<->bie
INL C4 cldual(const C4& a) { C4 r; r.c[15] = a.c[0]; r.c[0] = a.c[15]; r.c[14] = a.c[1]; r.c[1] = a.c[14];
    r.c[13] = -a.c[2]; r.c[11] = a.c[4]; r.c[7] = -a.c[8]; r.c[2] = -a.c[13]; r.c[4] = a.c[11]; r.c[8] = -a.c[7];
    r.c[3] = a.c[12]; r.c[5] = -a.c[10]; r.c[9] = a.c[6]; r.c[12] = a.c[3]; r.c[10] = -a.c[5]; r.c[6] = a.c[9]; return r; }
INL C4 cljoin(const C4& a, const C4& b) { return cldual(clmul<1>(cldual(a), cldual(b))); }
#define ALL(M) M(B0) M(B1) M(B2E) M(B2e) M(B3) M(B4) M(B02E) M(B02e) M(B22) M(B2E4) M(B2e4) M(B024) M(B13) M(BM)
#define ALLR(M, L) M(L, B0) M(L, B1) M(L, B2E) M(L, B2e) M(L, B3) M(L, B4) M(L, B02E) M(L, B02e) M(L, B22) M(L, B2E4) M(L, B2e4) M(L, B024) M(L, B13) M(L, BM)
#define ADDS(L, Q) { L a = var<L>(100); Q b = var<Q>(200); CHKC(#L " + " #Q, a + b, cladd(up(a), up(b))); CHKC(#L " - " #Q, a - b, cladd(up(a), up(b), -1)); }
#define GEO(L, Q) { L a = var<L>(100); Q b = var<Q>(200); CHKC(#L " * " #Q, a * b, clmul<0>(up(a), up(b))); }
#define WEDGE(L, Q) { L a = var<L>(100); Q b = var<Q>(200); CHKC(#L " ^ " #Q, a ^ b, clmul<1>(up(a), up(b))); }
#define DOT(L, Q) { L a = var<L>(100); Q b = var<Q>(200); CHKC(#L " & " #Q, a & b, clmul<2>(up(a), up(b))); }
#define JOIN(L, Q) { L a = var<L>(100); Q b = var<Q>(200); CHKC(#L " | " #Q, a | b, cljoin(up(a), up(b))); }
#define ROW(L) W(add_##L) { ALLR(ADDS, L) } W(geo_##L) { ALLR(GEO, L) } W(wedge_##L) { ALLR(WEDGE, L) } W(dot_##L) { ALLR(DOT, L) } W(join_##L) { ALLR(JOIN, L) }
#if VF_PART == 0
ALL(ROW)
#endif
#if VF_PART == 1
// sandwich: a % b = (-1)^m b a ~b, m = parity of b's grades, for orthogonal b (b ~b is a scalar)
INL R study(const C4& b) { return clmul<0>(b, clrev(b)).c[15]; }
#define SAND(L, Q, S) { L a = var<L>(100); Q b = var<Q>(200); if (vf_orth(study(up(b)))) { CHKC(#L " % " #Q, a % b, clscale(clmul<0>(clmul<0>(up(b), up(a)), clrev(up(b))), R(S))); } }
INL bool vf_orth(const R& s) { return ring_eq(s.h, ring_cst(0)); }
#define SROW(L) W(sand_##L) { SAND(L, B0, 1) SAND(L, B1, -1) SAND(L, B2E, 1) SAND(L, B2e, 1) SAND(L, B3, -1) SAND(L, B4, 1) SAND(L, B02E, 1) SAND(L, B02e, 1) SAND(L, B22, 1) SAND(L, B2E4, 1) SAND(L, B2e4, 1) SAND(L, B024, 1) SAND(L, B13, -1) }
SROW(B0) SROW(B1) SROW(B2E) SROW(B2e) SROW(B3) SROW(B4) SROW(B02E) SROW(B02e) SROW(B22) SROW(B2E4) SROW(B2e4) SROW(B024) SROW(B13) SROW(BM)
#endif
#if VF_PART == 2
#define ASG(T, a, op, b) ([&]{ T t_ = a; T& u_ = (t_ op b); (void)u_; return t_; }())
#define UN(L) W(un_##L) { L a = var<L>(100), b = var<L>(200); R t = rsym(40); C4 z; \
    CHKC("~" #L, ~a, clrev(up(a))); CHKC(#L ".rev", a.rev(), clrev(up(a))); CHKC("!" #L, !a, cldual(up(a))); CHKC("-" #L, -a, cladd(z, up(a), -1)); CHKC("+" #L, +a, up(a)); \
    CHKC(#L " * scalar", a * t, clscale(up(a), t)); CHKC(#L " / scalar * scalar", (a / t) * t, up(a)); \
    CHKC(#L " += ", ASG(L, a, +=, b), cladd(up(a), up(b))); CHKC(#L " -= ", ASG(L, a, -=, b), cladd(up(a), up(b), -1)); CHKC(#L " *= ", ASG(L, a, *=, t), clscale(up(a), t)); CHKC(#L " /= ", ASG(L, a, /=, t), up(a / t)); \
    CHKC(#L " += self", ASG(L, a, +=, t_), cladd(up(a), up(a))); CHKC(#L " -= self", ASG(L, a, -=, t_), z); \
    C4 n = clmul<0>(up(a), clrev(up(a))); (void)n; EQ(#L ".norm2", a.norm2(), n.c[0]); \
    C4 q = clmul<0>(up(!a), clrev(up(!a))); (void)q; EQ(#L ".ninf2", a.ninf2(), q.c[0]); }
UN(B0) UN(B1) UN(B2E) UN(B2e) UN(B3) UN(B4) UN(B02E) UN(B02e) UN(B22) UN(B2E4) UN(B2e4) UN(B024) UN(B13) UN(BM)
// the square of the scalar part under the product with itself
#define DIFF(L) { L a = var<L>(100); EQ(#L ".diff2", a.diff2(), clmul<0>(up(a), up(a)).c[0]); }
W(diff2) { DIFF(B0) DIFF(B1) DIFF(B2E) DIFF(B3) DIFF(B4) DIFF(B02E) DIFF(B02e) DIFF(B22) DIFF(B2E4) DIFF(B2e4) DIFF(B024) DIFF(B13) }
INL C4 one() { C4 c; c.c[0] = rhandle(rsym(0), ring_cst(1)); return c; }
INL R study(const C4& b) { return clmul<0>(b, clrev(b)).c[15]; }
#define INV(L) { L a = var<L>(100); CHKC(#L ".inv", a * a.inv(), one()); CHKC(#L ".inv left", a.inv() * a, one()); }
#define INVO(L) { L a = var<L>(100); if (ring_eq(study(up(a)).h, ring_cst(0))) { CHKC(#L ".inv", a * a.inv(), one()); CHKC(#L ".inv left", a.inv() * a, one()); } }
W(inv_b0) { INV(B0) } W(inv_b1) { INV(B1) } W(inv_b2E) { INV(B2E) } W(inv_b3) { INV(B3) } W(inv_02E) { INV(B02E) } W(inv_02e) { INV(B02e) } W(inv_22) { INVO(B22) } W(inv_024) { INV(B024) } W(inv_13) { INV(B13) } W(inv_2E4) { INV(B2E4) }
W(make) {
    V3 p = v3(0), l = v3(3); R d = rsym(6), t2 = rsym(7);
    { C4 e; put(e, B1(d, p)); CHKC("plane", plane(p, d), e); }
    { C4 e; put(e, B2E(l)); put(e, B2e(V3(l.y * p.z - l.z * p.y, l.z * p.x - l.x * p.z, l.x * p.y - l.y * p.x))); CHKC("line", line(l, p), e); }
    { C4 e; put(e, B3(d, V3(-p.x, -p.y, -p.z))); CHKC("point h", point(p, d), e); }
    { C4 e; put(e, B3(rhandle(p.x, ring_cst(1)), V3(-p.x, -p.y, -p.z))); CHKC("point", point(p), e); }
    { C4 e = one(); put(e, B2e(V3(p.x / R(2), p.y / R(2), p.z / R(2)))); CHKC("translator", translator(p), e); }
    // a translator moves a point by t:  P % T = P + t
    { auto q = point(p) % translator(l); C4 e; put(e, B3(rhandle(p.x, ring_cst(1)), V3(-(p.x + l.x), -(p.y + l.y), -(p.z + l.z)))); CHKC("point % translator", q, e); }
}
#define CONV(FROM, TO) { FROM a = var<FROM>(100); CHKC(#TO "(" #FROM ")", TO(a), up(a)); }
W(conv) { CONV(B0, B02E) CONV(B2E, B02E) CONV(B0, B02e) CONV(B2e, B02e) CONV(B2E, B22) CONV(B2e, B22) CONV(B2E, B2E4) CONV(B4, B2E4) CONV(B2e, B2e4) CONV(B4, B2e4)
    CONV(B0, B024) CONV(B2E, B024) CONV(B2e, B024) CONV(B4, B024) CONV(B02e, B024) CONV(B22, B024) CONV(B2E4, B024) CONV(B02E, B024) CONV(B2e4, B024) CONV(B1, B13) CONV(B3, B13) CONV(B024, BM) CONV(B13, BM)
    B0 b0 = var<B0>(100); B1 b1 = var<B1>(100); B2E b2E = var<B2E>(100); B2e b2e = var<B2e>(100); B3 b3 = var<B3>(100); B4 b4 = var<B4>(100); C4 e; put(e, var<BM>(100));
    CHKC("multivector(b0,b1,b2E,b2e,b3,b4)", BM(b0, b1, b2E, b2e, b3, b4), e); CHKC("multivector(b1,b0,b2E,b2e,b4,b3)", BM(b1, b0, b2E, b2e, b4, b3), e); CHKC("multivector(b1,b02,b24,b3)", BM(b1, B02E(b0, b2E), B2e4(b2e, b4), b3), e); }
#endif
