#include "ring.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/structure/graph/graph.h"
using namespace altruct::math;
namespace g = altruct::graph; namespace hs = altruct::hash;
// lexicographic reference order on explicit component lists
INL bool lex() { return false; } INL bool all() { return true; }
template<typename T, typename... Q> INL bool lex(const T& a, const T& b, const Q&... q) { return !(a == b) ? (a < b) : lex(q...); }
template<typename T, typename... Q> INL bool all(const T& a, const T& b, const Q&... q) { return (a == b) & all(q...); }
#define EQLT(TAG, X, ...) IFF(TAG " x == y iff all compared components are equal", x == y, all(__VA_ARGS__)); IFF(TAG " x < y is lexicographic", x < y, lex(__VA_ARGS__)); \
    IFF(TAG " x == x", x == x, true); IFF(TAG " x < x", x < x, false); IFF(TAG " exactly one of <, ==, >", (x < y) ^ (x == y) ^ (y < x), true); IFF(TAG " not both x < y and y < x", (x < y) & (y < x), false); IFF(TAG " == is symmetric", x == y, y == x);
#define REST(TAG, X) IFF(TAG " !=", x != y, !(x == y)); IFF(TAG " >", x > y, y < x); IFF(TAG " <=", x <= y, !(y < x)); IFF(TAG " >=", x >= y, !(x < y)); IFF(TAG " x <= x", x <= x, true); IFF(TAG " x >= x", x >= x, true); IFF(TAG " x != x", x != x, false); IFF(TAG " x > x", x > x, false);
#define S(k) rsym(k)
W(quadratic) { typedef quadratic<R, 5> X; X x(S(0), S(1)), y(S(10), S(11)); EQLT("quadratic", X, x.a, y.a, x.b, y.b) REST("quadratic", X) }
W(complex) { typedef complex<R> X; X x(S(0), S(1)), y(S(10), S(11)); EQLT("complex", X, x.a, y.a, x.b, y.b) REST("complex", X) }
W(vector2d) { typedef vector2d<R> X; X x(S(0), S(1)), y(S(10), S(11)); EQLT("vector2d", X, x.x, y.x, x.y, y.y) REST("vector2d", X) }
W(vector3d) { typedef vector3d<R> X; X x(S(0), S(1), S(2)), y(S(10), S(11), S(12)); EQLT("vector3d", X, x.x, y.x, x.y, y.y, x.z, y.z) REST("vector3d", X) }
W(vectorNd) { typedef vectorNd<R, 3> X; X x, y; for (int i = 0; i < 3; i++) { x[i] = S(i); y[i] = S(10 + i); } EQLT("vectorNd", X, x.a[0], y.a[0], x.a[1], y.a[1], x.a[2], y.a[2]) REST("vectorNd", X) }
W(with_infinity) { typedef with_infinity<R> X; X x(S(0), int_sym(0)), y(S(10), int_sym(1)); EQLT("with_infinity", X, x.is_inf, y.is_inf, x.v, y.v) REST("with_infinity", X) }
W(moebius_tr) { typedef moebius_tr<R> X; X x(S(0), S(1), S(2), S(3), int_sym(0)), y(S(10), S(11), S(12), S(13), int_sym(1)); EQLT("moebius_tr", X, x.a, y.a, x.b, y.b, x.c, y.c, x.d, y.d, x.s, y.s) REST("moebius_tr", X) }
namespace cl = altruct::math::cl3;
W(rotor) { typedef cl::rotor<R> X; X x(S(0), S(1), S(2), S(3)), y(S(10), S(11), S(12), S(13)); EQLT("rotor", X, x.s, y.s, x.yz, y.yz, x.zx, y.zx, x.xy, y.xy) REST("rotor", X) }
W(cl3_vector) { typedef cl::vector<R> X; X x(S(0), S(1), S(2), S(3)), y(S(10), S(11), S(12), S(13)); EQLT("cl3 vector", X, x.x, y.x, x.y, y.y, x.z, y.z, x.w, y.w) REST("cl3 vector", X) }
W(multivector) { typedef cl::multivector<R> X; X x(cl::rotor<R>(S(0), S(1), S(2), S(3)), cl::vector<R>(S(4), S(5), S(6), S(7))), y(cl::rotor<R>(S(10), S(11), S(12), S(13)), cl::vector<R>(S(14), S(15), S(16), S(17)));
    EQLT("multivector", X, x.r.s, y.r.s, x.r.yz, y.r.yz, x.r.zx, y.r.zx, x.r.xy, y.r.xy, x.v.x, y.v.x, x.v.y, y.v.y, x.v.z, y.v.z, x.v.w, y.v.w) REST("multivector", X) }
template<typename X> INL X raw(uint32_t v) { X x; x.v = v; return x; }
W(modulo) { typedef modulo<int, 1009, modulo_storage::CONSTANT> X; X x = raw<X>(int_sym(0)), y = raw<X>(int_sym(1)); EQLT("modulo", X, x.v, y.v) REST("modulo", X) }
W(modulox) { typedef moduloX<int> X; X x = raw<X>(int_sym(0)), y = raw<X>(int_sym(1)); EQLT("moduloX", X, x.v, y.v) REST("moduloX", X) }
W(modulo_u) { typedef moduloX<uint32_t> X; X x = raw<X>(int_sym(0)), y = raw<X>(int_sym(1)); EQLT("moduloX unsigned", X, x.v, y.v) REST("moduloX unsigned", X) }
W(galois) { typedef galois_field_2<uint32_t> X; X x = raw<X>(int_sym(0)), y = raw<X>(int_sym(1)); EQLT("galois_field_2", X, x.v, y.v) REST("galois_field_2", X) }
W(nimber) { typedef nimber<uint32_t> X; X x(int_sym(0)), y(int_sym(1)); EQLT("nimber", X, x.v, y.v) REST("nimber", X) }
W(triple) { typedef triple<R> X; X x{S(0), S(1), S(2)}, y{S(10), S(11), S(12)}; EQLT("triple", X, x.a, y.a, x.b, y.b, x.c, y.c) }
W(edge) { g::edge x(int_sym(0)), y(int_sym(1)); EQLT("edge", X, x.v, y.v) }
W(full_edge) { g::full_edge x(int_sym(0), int_sym(2)), y(int_sym(1), int_sym(3)); EQLT("full_edge", X, x.u, y.u, x.v, y.v) }
W(wedge) { g::weighted_edge<R> x(int_sym(0), S(0)), y(int_sym(1), S(1)); EQLT("weighted_edge", X, x.v, y.v) }
W(wfedge) { g::weighted_full_edge<R> x(int_sym(0), int_sym(2), S(0)), y(int_sym(1), int_sym(3), S(1)); EQLT("weighted_full_edge", X, x.u, y.u, x.v, y.v) }
W(phash) { typedef hs::polynomial_hash<3> X; X x, y; for (int i = 0; i < 3; i++) { x.h[i] = int_sym(i); y.h[i] = int_sym(10 + i); } EQLT("polynomial_hash", X, x.h[0], y.h[0], x.h[1], y.h[1], x.h[2], y.h[2]) }
W(phash1) { typedef hs::polynomial_hash1<1009, 7, 865> X; X x(int_sym(0)), y(int_sym(1)); EQLT("polynomial_hash1", X, x.h, y.h) }
