#include "bitw.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
#define FORALL(N) N(uint8_t) N(uint16_t) N(uint32_t) N(uint64_t) N(int8_t) N(int16_t) N(int32_t) N(int64_t)
typedef unsigned __int128 u128;
typedef __int128 i128;
#define EQ(name, a, b) bv_true(name, (a) == (b))
// canonical operands x, y in [0, M)
#define SYMS(T) T M = bsym<T>(0), x = bsym<T>(1), y = bsym<T>(2);
#define CANON(T) (M > 0 && x >= 0 && x < M && y >= 0 && y < M)
#define LIN(T) \
W(add_##T) { SYMS(T) if (CANON(T)) { T r = modulo_add<T>(x, y, M); u128 s = (u128)(i128)x + (u128)(i128)y; EQ("x + y", (u128)(i128)r, s < (u128)(i128)M ? s : s - (u128)(i128)M); } } \
W(sub_##T) { SYMS(T) if (CANON(T)) { T r = modulo_sub<T>(x, y, M); i128 s = (i128)x - (i128)y; EQ("x - y", (i128)r, s < 0 ? s + (i128)M : s); } } \
W(neg_##T) { SYMS(T) if (CANON(T)) { T r = modulo_neg<T>(x, M); EQ("-x", (i128)r, x == 0 ? (i128)0 : (i128)M - (i128)x); } } \
W(cls_##T) { SYMS(T) if (CANON(T)) { typedef moduloX<T> X; X a(0, M), b(0, M); a.v = x; b.v = y; X c = a; c += b; EQ("class +=", c.v, modulo_add<T>(x, y, M)); EQ("class + modulus", c.M(), M); \
  c = a; c -= b; EQ("class -=", c.v, modulo_sub<T>(x, y, M)); EQ("class +", (a + b).v, modulo_add<T>(x, y, M)); EQ("class -", (a - b).v, modulo_sub<T>(x, y, M)); EQ("class unary -", (-a).v, modulo_neg<T>(x, M)); EQ("class neg", a.neg().v, modulo_neg<T>(x, M)); \
  c = a; c += c; EQ("class x += x", c.v, modulo_add<T>(x, x, M)); c = a; c -= c; EQ("class x -= x", c.v, T(0)); bv_true("class x + y - y == x", (a + b - b) == a); bv_true("class x + (-x) == 0", (a + (-a)).v == 0); } }
FORALL(LIN)
// normalisation: value and modulus of every pair of integral types; the remainder itself is compared with the wide one
#define NORM(S, T) W(norm_##S##_##T) { S v = bsym<S>(1); T M = bsym<T>(0); if (M > 0) { T r = modulo_normalize(v, M); bv_true("normalize result is in [0, M)", r >= 0 && r < M); \
  if (v >= 0 && (u128)(i128)v < (u128)(i128)M) EQ("normalize keeps canonical values", (i128)r, (i128)v); \
  if (v < 0 && -(i128)v < (i128)M) EQ("normalize of a small negative value", (i128)r, (i128)v + (i128)M); \
  if (v < 0 && -(i128)v == (i128)M) EQ("normalize of -M", (i128)r, (i128)0); } }
#define NORMS(S) NORM(S, uint32_t) NORM(S, uint64_t) NORM(S, int32_t) NORM(S, int64_t)
FORALL(NORMS)
#define NORM8(S, T) W(norm8_##S##_##T) { S v = bsym<S>(1); T M = bsym<T>(0); if (M > 0) { int r = modulo_normalize(v, M); int e = (int)v % (int)M; if (e < 0) e += (int)M; EQ("normalize", r, e); } }
NORM8(int8_t, int8_t) NORM8(uint8_t, int8_t) NORM8(int8_t, uint8_t) NORM8(uint8_t, uint8_t)
// multiplication, inverse, division: every 8-bit operand, for the modulus VF_M
INL int wgcd(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
#define MUL8(T) W(mul_##T) { T M = (T)VF_M; T x = bsym<T>(1), y = bsym<T>(2); if (x >= 0 && x < M && y >= 0 && y < M) { int r = modulo_mul<T>(x, y, M); EQ("x * y", r, (int)x * (int)y % (int)M); EQ("x * y by doubling", (int)modulo_mul_int_long<T>(x, y, M), (int)x * (int)y % (int)M); \
  T d = modulo_div<T>(x, y, M); bv_true("x / y is canonical", d >= 0 && d < M); if ((int)x % wgcd(y, M) == 0) EQ("(x / y) * y == x when there is a quotient", (int)d * (int)y % (int)M, (int)x); \
  moduloX<T> a(x, M), b(y, M), c = a; c *= b; EQ("class *=", c.v, (int)x * (int)y % (int)M); EQ("class *", (a * b).v, (int)x * (int)y % (int)M); c = a; c *= c; EQ("class x *= x", c.v, (int)x * (int)x % (int)M); EQ("class /", (a / b).v, d); c = a; c /= b; EQ("class /=", c.v, d); EQ("class modulus kept", (int)c.M(), (int)M); } } \
W(inv_##T) { T M = (T)VF_M; T x = bsym<T>(1); if (x >= 0 && x < M) { T r = modulo_inv<T>(x, M); bv_true("inverse is canonical", r >= 0 && r < M); if (wgcd(x, M) == 1) EQ("x * x.inv() == 1", (int)r * (int)x % (int)M, M == 1 ? 0 : 1); \
  moduloX<T> a(x, M); EQ("class inv", a.inv().v, r); } }
#ifdef VF_M
#if VF_M < 128
MUL8(int8_t)
#endif
MUL8(uint8_t)
#endif
// width coverage of multiplication: with M = 2^n - 1 doubling is rotation, so x * 2^k is a rotation of x
template<typename U> INL U rotl(U x, int k, int n) { U m = U(U(~U(0)) >> (sizeof(U) * 8 - n)); return k == 0 ? x : U(((x << k) | (x >> (n - k))) & m); }
#define WIDE(T, n) W(wide_##T) { typedef std::make_unsigned<T>::type U; const U MM = U(U(~U(0)) >> (sizeof(U) * 8 - n)); const T M = (T)MM; U u = bsym<U>(1); if (u < MM) for (int k = 0; k < n; k++) { T x = (T)u; T p = T(U(1) << k); \
  EQ("x * 2^k modulo the all-ones modulus", (U)modulo_mul<T>(x, p, M), rotl<U>(u, k, n)); EQ("2^k * x modulo the all-ones modulus", (U)modulo_mul<T>(p, x, M), rotl<U>(u, k, n)); \
  EQ("doubling: x * 2^k modulo the all-ones modulus", (U)modulo_mul_int_long<T>(x, p, M), rotl<U>(u, k, n)); } } 
WIDE(uint64_t, 64) WIDE(int64_t, 63)
W(mul_uint16) { uint16_t x = bsym<uint16_t>(0), y = bsym<uint16_t>(1), M = bsym<uint16_t>(2); if (M > 0) bv_eq("uint16 x * y is the remainder of the exact product", modulo_mul(x, y, M), (uint32_t(x) * uint32_t(y)) % uint32_t(M)); }
W(mul_int16) { int16_t x = bsym<int16_t>(0), y = bsym<int16_t>(1), M = bsym<int16_t>(2); if (M > 0 && x >= 0 && y >= 0) bv_eq("int16 x * y is the remainder of the exact product", modulo_mul(x, y, M), (uint32_t(x) * uint32_t(y)) % uint32_t(M)); }
W(mul_uint32) { uint32_t x = bsym<uint32_t>(0), y = bsym<uint32_t>(1), M = bsym<uint32_t>(2); if (M > 0) bv_eq("uint32 x * y is the remainder of the exact product", modulo_mul(x, y, M), (uint64_t(x) * y) % M); }
W(mul_int32) { int32_t x = bsym<int32_t>(0), y = bsym<int32_t>(1), M = bsym<int32_t>(2); if (M > 0 && x >= 0 && y >= 0) bv_eq("int32 x * y is the remainder of the exact product", modulo_mul(x, y, M), (uint64_t(x) * uint64_t(y)) % uint64_t(M)); }
W(mul_small64) { uint64_t x = bsym<uint32_t>(0), y = bsym<uint32_t>(1), M = bsym<uint64_t>(2); if (M > 0) bv_eq("uint64 x * y of 32-bit values is the remainder of the exact product", modulo_mul(x, y, M), (x * y) % M); }
